------------------------------ MODULE DispatcherMC ------------------------------
(* All histories of bounded length; checks the specification's own invariants   *)
(* and prints every maximal history with the observations it demands.           *)
EXTENDS Dispatcher, Json
CONSTANTS Len0, Prios, Gen
VARIABLES hist, st, lst

Cfg == [ops |-> 1, args |-> 2]
Preds == {<<"any">>, <<"in", <<1>>>>}

(* A second, list based description (an ordered list per operation, stronger   *)
(* entries first): the refinement both must agree on.                          *)
Insert(l, x) ==
  LET k == Cardinality({i \in DOMAIN l : l[i].prio < x.prio}) IN
  SubSeq(l, 1, k) \o <<x>> \o SubSeq(l, k + 1, Len(l))
First(l, a) ==
  LET c == {i \in DOMAIN l : Accepts(l[i].pred, a)} IN
  IF c = {} THEN -1 ELSE l[CHOOSE i \in c : \A j \in c : i <= j].kernel

Events ==
  {[op |-> "reg", target |-> 1, prio |-> p, pred |-> q, kernel |-> k] : p \in Prios, q \in Preds, k \in {1, 2}}
  \cup {[op |-> "exit", n |-> n] : n \in 1..st.n}

Init == hist = <<>> /\ st = InitSt(Cfg) /\ lst = <<>>
Next ==
  /\ Len(hist) < Len0
  /\ \E e \in Events :
       LET r == Step(st, e) IN
       /\ st' = r.st
       /\ hist' = Append(hist, e @@ [out |-> r.out])
       /\ lst' = IF e.op = "reg"
                 THEN Insert(lst, [n |-> st.n + 1, prio |-> e.prio, pred |-> e.pred, kernel |-> e.kernel])
                 ELSE SelectSeq(lst, LAMBDA x : x.n /= e.n)

Refines == \A a \in 1..2 : First(lst, a) = Dispatch(st, 1, a)
NoGhost == \A a \in 1..2 : st.active = {} => Dispatch(st, 1, a) = -1
Emit == (Gen /\ Len(hist) = Len0) => PrintT("VFGEN " \o ToJson(hist))
=================================================================================
