-------------------------------- MODULE FlagsMC --------------------------------
(* All bounded histories.  `saved` independently snapshots the flags at every   *)
(* scope entry; leaving a scope must restore the scope's own flag to the        *)
(* snapshot and leave the other flags alone.                                    *)
EXTENDS Flags, Json
CONSTANTS Len0, Gen
VARIABLES hist, st, saved, good

F == 1..2
Init == hist = <<>> /\ st = InitSt([init |-> <<TRUE, FALSE, FALSE, FALSE>>]) /\ saved = <<>> /\ good = TRUE
Events ==
  {[op |-> "set", f |-> f, v |-> v] : f \in F, v \in BOOLEAN}
  \cup {[op |-> "enter", f |-> f, v |-> v] : f \in F, v \in BOOLEAN}
  \cup {[op |-> "exit", n |-> n] : n \in 1..Len(st.stack)}
  \cup {[op |-> "call", decs |-> d, inner |-> i, depth |-> 1] :
          d \in {<<<<1, FALSE>>>>, <<<<1, TRUE>>, <<2, TRUE>>>>}, i \in {<<>>, <<<<1, TRUE>>>>, <<<<2, FALSE>>>>}}
Next ==
  /\ Len(hist) < Len0
  /\ \E e \in Events :
       LET r == Step(st, e)
           k == Len(saved) IN
       /\ st' = r.st /\ hist' = Append(hist, e @@ [out |-> r.out])
       /\ saved' = CASE e.op = "enter" -> Append(saved, <<e.f, st.val>>)
                     [] e.op = "exit"  -> SubSeq(saved, 1, k - e.n)
                     [] OTHER          -> saved
       /\ good' = CASE e.op = "exit" ->
                        \A f \in F :
                          LET js == {j \in (k - e.n + 1)..k : saved[j][1] = f} IN
                          r.st.val[f] = IF js = {} THEN st.val[f]
                                        ELSE saved[CHOOSE j \in js : \A i \in js : j <= i][2][f]
                    [] e.op = "call" ->
                        \A f \in F : (\E d \in DOMAIN e.decs : e.decs[d][1] = f) => r.st.val[f] = st.val[f]
                    [] OTHER -> TRUE
Restores == good
Emit == (Gen /\ Len(hist) = Len0) => PrintT("VFGEN " \o ToJson(hist))
=================================================================================
