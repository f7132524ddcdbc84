------------------------------- MODULE Convert -------------------------------
(* Conversion of a model into its quantized form (quantize_model).               *)
(* A model is a rooted graph of modules (a module may have several parents);      *)
(* conversion changes the class of modules in place and adds quantizer stubs.     *)
(*   types : class of every module        kids : child modules of every module    *)
(*   filters : stack of allow-lists restricting the library's known counterparts  *)
(* The known counterparts (class, package) in order of definition:                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Known == [A |-> <<<<"QA", "m1">>>>, B |-> <<<<"QB1", "m1">>, <<"QB2", "m1x">>>>, D |-> <<<<"QD", "m1.sub">>>>]
Covers == [m1 |-> {"m1", "m1.sub"}, m1x |-> {"m1x"}, sub |-> {"m1.sub"}]
Quantized == {"QA", "QA2", "QB1", "QB2", "QC", "QD", "QP", "QQA"}
Quantizers == {"Z"}
Stubs == [QA |-> {"in_q", "out_q"}, QA2 |-> {"in_q"}, QB1 |-> {"w_q"}, QB2 |-> {"w_q", "out_q"}, QC |-> {}, QD |-> {"d_q"},
          QP |-> {"in_q"}, QQA |-> {"in_q", "out_q", "more_q"}]

InitSt(cfg) == [types |-> cfg.types, kids |-> cfg.kids, filters |-> <<>>, added |-> [i \in DOMAIN cfg.types |-> {}]]

Range(s) == {s[i] : i \in DOMAIN s}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
(* the last defined counterpart among those not filtered away                     *)
Global(st) ==
  LET allowed == IF st.filters = <<>> THEN {"m1", "m1x", "m1.sub"}
                 ELSE UNION {Covers[f] : f \in Range(st.filters[Len(st.filters)])}
      ok(b) == {i \in DOMAIN Known[b] : Known[b][i][2] \in allowed}
      bs == {b \in DOMAIN Known : ok(b) # {}}
  IN [b \in bs |-> Known[b][Max(ok(b))][1]]
Extra(e) == [x \in {e.extra[i][1] : i \in DOMAIN e.extra} |-> LET I == {i \in DOMAIN e.extra : e.extra[i][1] = x} IN e.extra[Max(I)][2]]
Map(st, e) == IF e.ignore THEN Extra(e) ELSE Extra(e) @@ Global(st)

RECURSIVE Reach(_, _)
Reach(kids, S) == LET T == S \cup UNION {Range(kids[i]) : i \in S} IN IF T = S THEN S ELSE Reach(kids, T)
Missing(st, e, skip) ==
  {t \in {st.types[i] : i \in Reach(st.kids, {e.root})} :
     /\ t \notin DOMAIN Map(st, e) /\ t \notin Quantizers /\ ~(skip /\ t \in Quantized)}

(* the class a visited module ends up with: depends on nothing but its class       *)
After(st, e, i) ==
  LET t == st.types[i] IN
  IF e.skipq /\ t \in Quantized THEN t ELSE IF Map(st, e)[t] = "skip" THEN t ELSE Map(st, e)[t]
RECURSIVE Visited(_, _, _)
Visited(st, e, S) ==
  LET T == S \cup {j \in UNION {Range(st.kids[i]) : i \in {i \in S : After(st, e, i) \in Quantized}} : st.types[j] \notin Quantizers}
  IN IF ~e.recursive \/ T = S THEN S ELSE Visited(st, e, T)

Obs(st) == <<"ok", st.types, [i \in DOMAIN st.types |-> Cardinality(st.added[i])]>>
Convert(st, e) ==
  IF Missing(st, e, e.skipq) # {} THEN [st |-> st, out |-> <<"error", st.types, [i \in DOMAIN st.types |-> Cardinality(st.added[i])]>>]
  ELSE LET V == Visited(st, e, {e.root})
           t2 == [i \in DOMAIN st.types |-> IF i \in V THEN After(st, e, i) ELSE st.types[i]]
           \* a module that kept its class keeps its quantizers
           a2 == [i \in DOMAIN st.types |-> IF i \in V /\ t2[i] # st.types[i] THEN st.added[i] \cup Stubs[t2[i]] ELSE st.added[i]]
           s == [st EXCEPT !.types = t2, !.added = a2]
       IN [st |-> s, out |-> Obs(s)]
RECURSIVE SetToSeqSorted(_, _)
SetToSeqSorted(S, order) == SelectSeq(order, LAMBDA x : x \in S)
Classes == <<"A", "B", "C", "D", "P", "QA", "QA2", "QB1", "QB2", "QC", "QD", "QP", "QQA">>
Step(st, e) ==
  CASE e.op = "convert" -> Convert(st, e)
    [] e.op = "filter" -> [st |-> [st EXCEPT !.filters = Append(@, e.mods)], out |-> <<"ok">>]
    [] e.op = "unfilter" -> [st |-> [st EXCEPT !.filters = SubSeq(@, 1, Len(@) - 1)], out |-> <<"ok">>]
    [] e.op = "surrogates" -> [st |-> st, out |-> SetToSeqSorted(Missing(st, e, TRUE), Classes)]
    [] e.op = "map" -> [st |-> st, out |-> LET g == Global(st) IN
                          [i \in 1..3 |-> LET b == <<"A", "B", "D">>[i] IN IF b \in DOMAIN g THEN g[b] ELSE "none"]]
===============================================================================
