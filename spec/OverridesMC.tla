------------------------------ MODULE OverridesMC ------------------------------
(* All bounded histories over two quantizers and two overlapping models.        *)
EXTENDS Overrides, Json
CONSTANTS Len0, Gen
VARIABLES hist, st, entry
Cfg == [n |-> 2, strict |-> TRUE, models |-> <<<<1, 2>>, <<2>>>>]
Init == hist = <<>> /\ st = InitSt(Cfg) /\ entry = <<>>
Ids == UNION {{<<i, st.q[i][j].id>> : j \in {j \in DOMAIN st.q[i] : st.q[i][j].kind /= "off"}} : i \in DOMAIN st.q}
Events0 ==
  {[op |-> "reg", q |-> i, kind |-> kd, k |-> 7, fn |-> st.nid + 1] : i \in 1..2, kd \in {"wrap", "twice"}}
  \cup {[op |-> "reg", q |-> 2, kind |-> "block", k |-> 4, fn |-> st.nid + 1]}
  \cup {[op |-> "rem", q |-> p[1], id |-> p[2]] : p \in Ids}
  \cup {[op |-> "disable", m |-> m] : m \in 1..2}
  \cup {[op |-> "enable", m |-> m] : m \in 1..2}
  \cup {[op |-> "exit", n |-> n] : n \in 1..Len(st.scopes)}
  \cup (IF Len(st.q) < 3 THEN {[op |-> "copy", q |-> 2]} ELSE {})
Next == /\ Len(hist) < Len0
        /\ \E e \in Events0 : LET r == Step(st, e) IN
             /\ st' = r.st /\ hist' = Append(hist, e @@ [out |-> r.out])
             /\ entry' = CASE e.op \in {"disable", "enable"} -> Append(entry, st.strict)
                           [] e.op = "exit" -> SubSeq(entry, 1, Len(entry) - e.n)
                           [] OTHER -> entry
(* invariants of the specification *)
NoOverrideNoEffect == \A i \in DOMAIN st.q : st.q[i] = <<>> => Call(st, i, 5) = [v |-> 11, log |-> <<0>>]
Distinct == \A i \in DOMAIN st.q : \A a, b \in DOMAIN st.q[i] : a < b => st.q[i][a].id < st.q[i][b].id
ScopesClosed == st.scopes = <<>> =>
  /\ st.strict = TRUE
  /\ \A i \in 1..2 : \A j \in DOMAIN st.q[i] : st.q[i][j].kind /= "off"
InnermostDisable ==   \* right after entering a disable scope the model's quantizers are identities
  (Len(hist) > 0 /\ hist[Len(hist)].op = "disable") =>
     \A i \in Range(st.models[hist[Len(hist)].m]) : Call(st, i, 5).v = 5
Emit == (Gen /\ Len(hist) = Len0) => PrintT("VFGEN " \o ToJson(hist))
=================================================================================
