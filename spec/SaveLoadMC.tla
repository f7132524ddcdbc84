------------------------------- MODULE SaveLoadMC -------------------------------
EXTENDS SaveLoad
CONSTANTS Len0
VARIABLES n, st, prev, last, out
Order == <<"a", "b", "c">>
S0 == [d |-> "stub", lazy |-> FALSE, rep |-> ""]
Q(d, r) == [d |-> d, lazy |-> d = "z", rep |-> r]
Ms == {[a |-> S0, b |-> S0, c |-> S0], [a |-> Q("x", "a"), b |-> S0, c |-> Q("x", "a")], [a |-> Q("x", "a"), b |-> Q("y", "b"), c |-> Q("y", "b")],
       [a |-> S0, b |-> Q("z", "b"), c |-> S0], [a |-> Q("x", "a"), b |-> Q("x", "a"), c |-> Q("x", "a")]}
M(q, v, nm) == [q |-> q, w |-> [k |-> [shape |-> "2", fp |-> v]], base |-> "A", dtype |-> "f", tied |-> FALSE, over |-> FALSE, name |-> nm, order |-> Order]
Small(nm) == [M([a |-> S0], 5, nm) EXCEPT !.base = "B", !.w = [k |-> [shape |-> "3", fp |-> 5]]]
Places == <<[kind |-> "state", tag |-> "main", names |-> <<"m", "m2">>, path |-> "p1"], [kind |-> "model", tag |-> "", names |-> <<>>, path |-> "p2"]>>
Init == n = 0 /\ st = SInit([model |-> M([a |-> S0, b |-> S0, c |-> S0], 0, "m"), stores |-> Places]) /\ prev = st /\ last = [op |-> "none"] /\ out = ""
Events ==
  {[op |-> "edit", model |-> M(q, v, "m")] : q \in Ms, v \in {0, 1}} \cup {[op |-> "edit", model |-> Small("m")]}
  \cup {[op |-> "save", kind |-> k, store |-> 2, tag |-> "main", name |-> nm, allow |-> al, err |-> "RuntimeError"] : k \in {"state", "model"}, nm \in {"", "m2"}, al \in BOOLEAN}
  \cup {[op |-> "load", kind |-> k, store |-> 2, tag |-> "main", name |-> nm, allow |-> al, policy |-> p, file |-> FALSE, nocheck |-> FALSE, err |-> "ValueError", same |-> TRUE, w |-> <<>>] :
          k \in {"state", "model"}, nm \in {"", "m2"}, al \in BOOLEAN, p \in {"error", "skip", "overwrite"}}
  \cup {[op |-> o, store |-> i] : o \in {"delete", "version"}, i \in 1..2}
Next == n < Len0 /\ n' = n + 1 /\ \E e \in Events : LET r == SStep(st, e) IN st' = r.st /\ out' = r.out /\ prev' = st /\ last' = e
StoreOf == IF last.kind = "model" THEN prev.stores[2] ELSE prev.stores[1]
Inv ==
  LET cur == prev.model
      new == st.model IN
  /\ \A l \in Locs(new.q) : ~Stub(new.q[l]) => /\ new.q[l].rep \in Locs(new.q)                       \* sharing is consistent
                                               /\ new.q[new.q[l].rep] = new.q[l]
  /\ last.op = "save" => /\ new = cur
                         /\ out[1] # "ok" => st = prev
                         /\ out[1] = "ok" => LET i == IF last.kind = "model" THEN 2 ELSE 1 IN st.stores[i].q = cur.q /\ st.stores[i].w = cur.w
  /\ last.op = "load" =>
       /\ st.stores = prev.stores
       /\ out[1] # "ok" => st = prev
       /\ out[1] = "ok" =>
            LET s == StoreOf IN
            /\ s.exists /\ ~s.missing /\ ~s.badversion
            /\ SavedLocs(s) \subseteq Locs(cur.q)
            /\ \A l \in Locs(cur.q) : (l \notin SavedLocs(s) \/ (last.policy = "skip" /\ ~Stub(cur.q[l]))) => new.q[l].d = cur.q[l].d
            /\ \A l \in SavedLocs(s) : (last.policy = "overwrite" \/ Stub(cur.q[l])) => new.q[l].d = s.q[l].d
            /\ (Locs(cur.q) = Locs(s.q) /\ \A l \in Locs(cur.q) : Stub(cur.q[l])) => new.q = s.q
            /\ last.policy = "error" => \A l \in SavedLocs(s) : Stub(cur.q[l])
            /\ new.w = (IF last.kind = "model" THEN s.w ELSE cur.w)
            /\ \A l, k \in SavedLocs(s) : (new.q[l].d # cur.q[l].d /\ new.q[k].d # cur.q[k].d) => (new.q[l].rep = new.q[k].rep <=> s.q[l].rep = s.q[k].rep)
==================================================================================
