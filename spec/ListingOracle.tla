---------------------------- MODULE ListingOracle ----------------------------
EXTENDS Listing, OracleData
VARIABLE n
Pairs(s) == [j \in DOMAIN s |-> <<s[j].path, s[j].at>>]
Expect(x) ==
  CASE x.op = "list" -> Pairs(Listed(x.m, x.prefix, x.recurse, x.dedup, x.skip))
    [] x.op = "state" -> <<State(x.m)>>
    [] x.op = "summary" -> Summary(x.m)
INSTANCE Oracle
===============================================================================
