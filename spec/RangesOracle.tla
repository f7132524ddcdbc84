------------------------------ MODULE RangesOracle ------------------------------
EXTENDS Ranges, OracleData, Json
VARIABLE n
RECURSIVE Run(_, _, _)
Run(st, es, k) == IF k > Len(es) THEN <<>> ELSE LET r == Step(st, es[k]) IN <<[out |-> r.out, view |-> View(r.st)]>> \o Run(r.st, es, k + 1)
Expect(x) == Run(InitSt(x.cfg), x.events, 1)
INSTANCE Oracle
=================================================================================
