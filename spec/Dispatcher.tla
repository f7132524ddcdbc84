------------------------------ MODULE Dispatcher ------------------------------
(* Kernel registry (fastforward.dispatcher).                                   *)
(*                                                                             *)
(* State: the set of active registrations.  A registration remembers when it   *)
(* was made (n), for which operation, with which priority class (0 regular,    *)
(* 1 fallback, 2 not-implemented fallback), which predicate and which kernel.  *)
(* Dispatch picks the strongest priority class containing an accepting         *)
(* registration and in it the newest one.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* Predicates: <<"in", S>> accepts the arguments in the sequence S (None in    *)
(* the API is the predicate that accepts everything), closed under not/and/or. *)
RECURSIVE Accepts(_, _)
Accepts(p, a) ==
  CASE p[1] = "any" -> TRUE
    [] p[1] = "in"  -> \E k \in DOMAIN p[2] : p[2][k] = a
    [] p[1] = "not" -> ~Accepts(p[2], a)
    [] p[1] = "and" -> Accepts(p[2], a) /\ Accepts(p[3], a)
    [] p[1] = "or"  -> Accepts(p[2], a) \/ Accepts(p[3], a)

InitSt(cfg) == [active |-> {}, n |-> 0, cfg |-> cfg]

Stronger(x, y) == x.prio < y.prio \/ (x.prio = y.prio /\ x.n > y.n)

Dispatch(st, op, a) ==
  LET c == {x \in st.active : x.op = op /\ Accepts(x.pred, a)} IN
  IF c = {} THEN -1
  ELSE (CHOOSE x \in c : \A y \in c \ {x} : Stronger(x, y)).kernel

(* The observation after every event: what every operation dispatches to for  *)
(* every argument.                                                             *)
Obs(st) == [o \in 1..st.cfg.ops |-> [a \in 1..st.cfg.args |-> Dispatch(st, o, a)]]

(* Events:                                                                     *)
(*   reg  op prio pred kernel   registration number st.n+1 (all API forms)     *)
(*   exit n                     leaving scope of registration n (or repeated)  *)
Step(st, e) ==
  LET s2 == CASE e.op = "reg" ->
                   [st EXCEPT !.n = @ + 1,
                              !.active = @ \cup {[n |-> st.n + 1, op |-> e.target, prio |-> e.prio,
                                                   pred |-> e.pred, kernel |-> e.kernel]}]
              [] e.op = "exit" -> [st EXCEPT !.active = {x \in @ : x.n /= e.n}]
  IN [st |-> s2, out |-> Obs(s2)]
===============================================================================
