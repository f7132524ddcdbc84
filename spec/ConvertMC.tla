------------------------------- MODULE ConvertMC -------------------------------
EXTENDS Convert, Json
CONSTANTS Len0, Gen, Wide
VARIABLES hist, cfg, st, prev
Shapes == {<< <<2>>, <<3>>, <<>> >>, << <<2, 3>>, <<>>, <<>> >>, << <<2, 3>>, <<3>>, <<>> >>, << <<2, 2>>, <<3>>, <<>> >>}
Types == {"A", "C", "P", "QA", "Z"} \cup (IF Wide THEN {"B"} ELSE {})
Init == /\ cfg \in {[types |-> <<a, b, c>>, kids |-> k] : a \in Types \ {"Z"}, b \in Types \ {"Z"}, c \in Types, k \in Shapes}
        /\ hist = <<>> /\ st = InitSt(cfg) /\ prev = st
Extras == {<<>>, <<<<"C", "QC">>, <<"P", "QP">>>>, <<<<"A", "skip">>, <<"C", "QC">>>>, <<<<"QA", "QQA">>, <<"C", "QC">>, <<"P", "skip">>>>}
Events0 == {[op |-> "convert", root |-> 1, recursive |-> r, extra |-> x, skipq |-> q, ignore |-> g] :
               r \in BOOLEAN, x \in Extras, q \in BOOLEAN, g \in {FALSE}}
           \cup {[op |-> "convert", root |-> 2, recursive |-> TRUE, extra |-> x, skipq |-> FALSE, ignore |-> TRUE] : x \in {<<<<"A", "QA2">>, <<"C", "QC">>>>}}
Next == Len(hist) < Len0 /\ \E e \in Events0 : LET r == Step(st, e) IN
          /\ st' = r.st /\ hist' = Append(hist, e @@ [out |-> r.out]) /\ prev' = st /\ UNCHANGED cfg
LastE == hist[Len(hist)]
Inv == hist # <<>> =>
  /\ LastE.out[1] = "error" => st = prev
  /\ \A i \in DOMAIN st.types : i \notin Reach(cfg.kids, {LastE.root}) => st.types[i] = prev.types[i]
  /\ \A i \in DOMAIN st.types : prev.types[i] = "Z" => st.types[i] = "Z"
  /\ ~LastE.recursive => \A i \in DOMAIN st.types : i # LastE.root => st.types[i] = prev.types[i]
  \* after a full conversion nothing convertible is left below converted modules
  /\ (LastE.out[1] = "ok" /\ LastE.recursive /\ \A i \in DOMAIN LastE.extra : LastE.extra[i][2] # "skip")
       => \A i \in Reach(cfg.kids, {LastE.root}) : st.types[i] \in Quantized \cup Quantizers
Emit == (Gen /\ Len(hist) = Len0) => PrintT("VFGEN " \o ToJson(<<cfg, hist>>))
================================================================================
