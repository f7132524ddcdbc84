------------------------------ MODULE ListingMC ------------------------------
(* Every model of up to N modules with names "0", "1", "q".                      *)
EXTENDS Listing, Json
CONSTANTS N, Gen, NoHoles
VARIABLES m
Names == <<"0", "q", "1">>
Kinds == {"plain", "quant", "stub"}
\* module i owns any of the later modules, each at most twice
RECURSIVE Trees(_)
Trees(n) == {t \in [1..N -> UNION {[1..k -> (IF NoHoles THEN 1 ELSE 0)..N] : k \in 0..2}] : \A i \in 1..N : \A j \in DOMAIN t[i] : t[i][j] = 0 \/ t[i][j] > i}
Init == \E t \in Trees(N), k \in [1..N -> Kinds], s \in [1..N -> 1..2] :
  /\ \A i \in 1..N : (k[i] # "quant" \/ (NoHoles /\ i > 2)) => s[i] = 1
  /\ \A i \in 2..N : \E j \in 1..(i-1) : i \in {t[j][x] : x \in DOMAIN t[j]}
  /\ m = [kind |-> k, kids |-> [i \in 1..N |-> [x \in DOMAIN t[i] |-> [name |-> Names[x], to |-> t[i][x]]]], set |-> s,
          state |-> [i \in 1..N |-> IF k[i] = "quant" THEN <<[name |-> "s", value |-> i]>> ELSE <<>>], ready |-> [i \in 1..N |-> k[i] # "quant" \/ s[i] = 1 \/ i # 2], digits |-> <<"0", "1">>]
Next == UNCHANGED m
At(s) == {s[j].at : j \in DOMAIN s}
Inv ==
  LET all == Listed(m, <<>>, TRUE, FALSE, FALSE)
      once == Listed(m, <<>>, TRUE, TRUE, FALSE)
      real == Listed(m, <<>>, TRUE, TRUE, TRUE)
      sum == Summary(m)
  IN /\ At(all) = {i \in 1..N : m.kind[i] # "plain"} /\ At(once) = At(all)          \* complete
     /\ Cardinality(At(once)) = Len(once)                                             \* once
     /\ Cardinality({all[j].path : j \in DOMAIN all}) = Len(all)                      \* names are unique
     /\ At(real) = {i \in 1..N : m.kind[i] = "quant"}
     /\ At(Listed(m, <<>>, FALSE, TRUE, FALSE)) \subseteq At(all)
     /\ \A i \in At(real) : (\A b \in Below(m, i) : m.ready[b]) => InState(m, i)
     /\ \A i \in 1..N : InState(m, i) => m.ready[i]
     /\ Cardinality({s[1] : s \in State(m)}) = Cardinality(State(m))                  \* one value per key
     /\ {sum[g].set : g \in DOMAIN sum} = {m.set[i] : i \in At(real)}
     /\ \A g \in DOMAIN sum : g > 1 => Len(sum[g].names) <= Len(sum[g-1].names)
     /\ UNION {{sum[g].names[j] : j \in DOMAIN sum[g].names} : g \in DOMAIN sum} = {real[j].path : j \in DOMAIN real}
Emit == Gen => PrintT("VFGEN " \o ToJson(m))
===============================================================================
