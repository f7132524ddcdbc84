-------------------------------- MODULE SaveLoad --------------------------------
(* Quantization state and quantized model artifacts.                            *)
(* A model is seen as: per quantizer location what is there                     *)
(*   [d: description (type, settings, parameter values and dtype) or "stub",    *)
(*    lazy: has uninitialized parameters,                                       *)
(*    rep: the first location that holds the same object],                      *)
(* and per weight key its shape and a fingerprint of its values.                *)
(* `edit` events are arbitrary changes by the user: they only tell the          *)
(* specification what the model is now.  save and load are specified fully.     *)
(* Stores are the places on disk; stores of kind "state" are found by name and  *)
(* tag, artifacts by path.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Nothing == [exists |-> FALSE]
SInit(cfg) == [model |-> cfg.model, stores |-> [i \in 1..Len(cfg.stores) |-> Nothing], places |-> cfg.stores]

Stub(q) == q.d = "stub"
Locs(m) == DOMAIN m
Pick(cur, name) == IF name # "" THEN name ELSE cur.name
NameOk(i, places, name) == \E k \in 1..Len(places[i].names) : places[i].names[k] = name
\* the store a name and tag stand for (several names may share a place)
Find(places, name, tag) == {i \in 1..Len(places) : places[i].kind = "state" /\ places[i].tag = tag /\ NameOk(i, places, name)}

\* ---------------------------------------------------------------- saving
SaveErrors(cur, e) ==
  (IF Pick(cur, e.name) = "" THEN {"RuntimeError"} ELSE {}) \cup
  (IF ~e.allow /\ \E l \in Locs(cur.q) : cur.q[l].lazy THEN {"ValueError"} ELSE {}) \cup
  (IF cur.over THEN {"RuntimeError"} ELSE {})

Saved(cur, e) == [exists |-> TRUE, q |-> cur.q, w |-> cur.w, base |-> cur.base, dtype |-> cur.dtype, tied |-> cur.tied,
                  name |-> Pick(cur, e.name), missing |-> FALSE, badversion |-> FALSE]

\* --------------------------------------------------------------- loading
SavedLocs(s) == {l \in Locs(s.q) : ~Stub(s.q[l])}
Occupied(cur, s) == {l \in SavedLocs(s) : l \in Locs(cur.q) /\ ~Stub(cur.q[l])}
Expected(cur, e) == IF e.kind = "model" THEN (IF e.nocheck THEN "" ELSE Pick(cur, e.name))
                    ELSE IF e.file THEN cur.name ELSE Pick(cur, e.name)
WeightsFit(cur, s) == DOMAIN cur.w = DOMAIN s.w /\ \A k \in DOMAIN s.w : cur.w[k].shape = s.w[k].shape
LoadErrors(cur, s, e) ==
  (IF e.kind = "state" /\ Expected(cur, e) = "" THEN {"RuntimeError"} ELSE {}) \cup
  (IF ~s.exists THEN {"FileNotFoundError"}
   ELSE (IF s.missing THEN {"FileNotFoundError"} ELSE {}) \cup
        (IF s.badversion THEN {"ValueError"} ELSE {}) \cup
        (IF Expected(cur, e) \notin {"", s.name} THEN {"RuntimeError"} ELSE {}) \cup
        (IF ~e.allow /\ \E l \in Locs(s.q) : s.q[l].lazy THEN {"ValueError"} ELSE {}) \cup
        (IF \E l \in SavedLocs(s) : l \notin Locs(cur.q) THEN {"ValueError"} ELSE {}) \cup
        (IF Occupied(cur, s) # {} /\ e.policy \notin {"skip", "overwrite"} THEN {"QuantizationError"} ELSE {}) \cup
        (IF e.kind = "model" /\ ~WeightsFit(cur, s) THEN {"RuntimeError"} ELSE {}))

Replaced(cur, s, e) == IF e.policy = "skip" THEN SavedLocs(s) \ Occupied(cur, s) ELSE SavedLocs(s)
First(order, S) == order[CHOOSE i \in 1..Len(order) : order[i] \in S /\ \A j \in 1..(i - 1) : order[j] \notin S]
\* what is at the locations after loading: saved quantizers that were one object
\* are one object again, never one that is also at a location that was kept
LoadQ(cur, s, e) ==
  LET R == Replaced(cur, s, e) IN
  [l \in Locs(cur.q) |->
     IF l \in R THEN [s.q[l] EXCEPT !.rep = First(cur.order, {k \in R : s.q[k].rep = s.q[l].rep})]
     ELSE IF Stub(cur.q[l]) THEN cur.q[l]
     ELSE [cur.q[l] EXCEPT !.rep = First(cur.order, {k \in Locs(cur.q) \ R : ~Stub(cur.q[k]) /\ cur.q[k].rep = cur.q[l].rep})]]
LoadW(cur, s, e) ==
  IF e.kind = "state" THEN cur.w
  ELSE IF cur.dtype # s.dtype \/ (cur.tied /\ ~s.tied) THEN e.w
  ELSE s.w

SStep(st, e) ==
  LET cur == st.model
      Bad(errs) == IF e.err \in errs THEN e.err ELSE "refuse with one of " \o ToString(errs) IN
  CASE e.op = "edit" -> [st |-> [st EXCEPT !.model = e.model], out |-> "ok"]
    [] e.op = "save" ->
         LET errs == SaveErrors(cur, e)
             ids == IF e.kind = "model" THEN {e.store} ELSE Find(st.places, Pick(cur, e.name), e.tag)
             i == CHOOSE i \in ids : TRUE IN
         IF errs # {} THEN [st |-> st, out |-> <<Bad(errs), cur.q, cur.w, "">>]
         ELSE [st |-> [st EXCEPT !.stores[i] = Saved(cur, e)], out |-> <<"ok", cur.q, cur.w, st.places[i].path>>]
    [] e.op = "load" ->
         LET ids == IF e.kind = "model" \/ e.file THEN {e.store} ELSE Find(st.places, Pick(cur, e.name), e.tag)
             s == IF ids = {} THEN Nothing ELSE st.stores[CHOOSE i \in ids : TRUE]
             errs == LoadErrors(cur, s, e) IN
         IF errs # {} THEN [st |-> st, out |-> <<Bad(errs), cur.q, cur.w, "">>]
         ELSE LET q == LoadQ(cur, s, e)
                  w == LoadW(cur, s, e)
                  same == q = s.q /\ w = s.w /\ cur.base = s.base /\ cur.dtype = s.dtype IN
              [st |-> [st EXCEPT !.model.q = q, !.model.w = w],
               out |-> <<"ok", q, w, IF same /\ ~e.same THEN "must compute what the saved model computed" ELSE "">>]
    [] e.op = "delete" -> [st |-> IF st.stores[e.store].exists THEN [st EXCEPT !.stores[e.store].missing = TRUE] ELSE st, out |-> "ok"]
    [] e.op = "version" -> [st |-> IF st.stores[e.store].exists /\ ~st.stores[e.store].missing THEN [st EXCEPT !.stores[e.store].badversion = TRUE] ELSE st, out |-> "ok"]
==================================================================================
