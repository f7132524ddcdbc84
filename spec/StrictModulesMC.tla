--------------------------- MODULE StrictModulesMC ---------------------------
(* All two-module programs with short bodies and all short histories.          *)
EXTENDS StrictModules, Json
CONSTANTS Len0, Gen
VARIABLES hist, st, wellbehaved, nh
Bodies1 == {<<<<"see">>, <<"call", 2>>, <<"see">>>>, <<<<"try", 2>>, <<"see">>, <<"call", 1>>>>,
            <<<<"see">>, <<"call", 2>>, <<"raise">>>>}
Bodies2 == {<<<<"see">>>>, <<<<"see">>, <<"raise">>>>, <<<<"try", 1>>, <<"see">>>>}
Init == \E a \in Bodies1, b \in Bodies2, f \in BOOLEAN :
          LET c == [flag |-> f, body |-> <<a, b>>, depth |-> 3] IN
          hist = <<>> /\ st = InitSt(c) /\ wellbehaved = TRUE /\ nh = 0
Events0 == {[op |-> "attach", h |-> nh + 1, v |-> v, ms |-> ms] : v \in BOOLEAN, ms \in {<<1>>, <<2>>, <<1, 2>>}}
  \cup {[op |-> "remove", h |-> h] : h \in 1..nh}
  \cup {[op |-> "run", m |-> 1]}
Next == /\ Len(hist) < Len0
        /\ \E e \in Events0 : LET r == Step(st, e) IN
             /\ st' = r.st /\ hist' = Append(hist, e @@ [out |-> r.out])
             /\ nh' = IF e.op = "attach" THEN nh + 1 ELSE nh
             \* running never changes the ambient flag (no body sets it here)
             /\ wellbehaved' = (e.op = "run" => r.st.flag = st.flag)
Restored == wellbehaved
Emit == (Gen /\ Len(hist) = Len0 /\ hist[Len0].op = "run") => PrintT("VFGEN " \o ToJson(<<st.cfg, hist>>))
=================================================================================
