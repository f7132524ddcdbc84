----------------------------- MODULE CollectionsMC -----------------------------
EXTENDS Collections, Json
CONSTANTS Len0
VARIABLES hist, st, prev
Names == <<<<0, "a">>, <<0, "b">>, <<1, "c">>>>
Init == hist = <<>> /\ st = InitSt([names |-> Names]) /\ prev = st
Orders(C) == LET n == Cardinality(C) IN {f \in [1..n -> {Code(r) : r \in C}] : \A i, j \in 1..n : i # j => f[i] # f[j]}
Events0 ==
  {[op |-> "search", sel |-> s] : s \in {<<1, 2>>, <<1, 3>>, <<1, 2, 3>>}}
  \cup {[op |-> o, a |-> a, b |-> b] : o \in {"union", "difference"}, a, b \in DOMAIN st.colls}
  \cup UNION {{[op |-> "apply", a |-> a, order |-> o, change |-> c, safe |-> sf, update |-> TRUE, fail |-> f] :
                 o \in Orders(st.colls[a]), c \in {<<1, 2>>, <<2, 3>>}, sf \in BOOLEAN, f \in {0, 2}} : a \in DOMAIN st.colls}
  \cup {[op |-> "set", name |-> n] : n \in 1..3}
Next == Len(hist) < Len0 /\ \E e \in Events0 : LET r == Step(st, e) IN st' = r.st /\ hist' = Append(hist, [e |-> e, out |-> r.out]) /\ prev' = st
Last == hist[Len(hist)]
Inv ==
  /\ \A i \in DOMAIN st.colls : \A r, q \in st.colls[i] : Code(r) = Code(q) => r = q
  /\ hist # <<>> =>
     LET e == Last.e IN
     \* nothing but selected modules is ever replaced
     /\ e.op = "apply" => \A k \in DOMAIN prev.child : st.child[k] # prev.child[k] => \E r \in prev.colls[e.a] : <<r.par, r.attr>> = k
     /\ (e.op = "apply" /\ e.safe) => \A k \in DOMAIN prev.child : st.child[k] # prev.child[k] => \E r \in prev.colls[e.a] : r.mod = prev.child[k]
     \* a completed update leaves the collection in step with the model
     /\ (e.op = "apply" /\ Last.out[1] = "ok") => \A r \in st.colls[e.a] : r.name \in Elems(e.change) => st.child[<<r.par, r.attr>>] = r.mod
     /\ e.op \in {"search", "union", "difference"} => st.child = prev.child
================================================================================
