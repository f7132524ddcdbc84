--------------------------------- MODULE Tags ---------------------------------
(* Quantizer metadata.  A tag is a sequence of levels; metadata carrying a tag       *)
(* carries all its ancestors.  A location is an attribute of a module; quantized      *)
(* modules keep metadata per attribute and give it to each quantizer put there.       *)
(*   metas[i] = [tags : set of tags, kw : attribute -> value]                         *)
(*   quants[i] = [kind, meta]    at[l] = quantizer (0: none)    slot[l] = metadata     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Elems(s) == {s[i] : i \in DOMAIN s}
Prefixes(t) == {SubSeq(t, 1, k) : k \in 1..Len(t)}
Closure(T) == UNION {Prefixes(t) : t \in T}
Matches(m, t) == t \in m.tags
Known == << <<"parameter">>, <<"activation">>, <<"parameter", "weight">>, <<"parameter", "bias">>, <<"activation", "input">>, <<"activation", "output">> >>
NewMeta(tags, kw) == [tags |-> Closure(Elems(tags)), kw |-> [k \in {kw[i][1] : i \in DOMAIN kw} |-> (CHOOSE p \in Elems(kw) : p[1] = k)[2]]]
NoShape(kw) == "shape" \notin DOMAIN kw
\* B extends A: all tags of A, all attributes of A with the same value
Extends(A, B) == A.tags \subseteq B.tags /\ \A k \in DOMAIN A.kw : k \in DOMAIN B.kw /\ B.kw[k] = A.kw[k]

InitSt(cfg) == [loc |-> cfg.loc, uni |-> cfg.uni, quants |-> <<>>, metas |-> <<>>, at |-> [l \in DOMAIN cfg.loc |-> 0], slot |-> [l \in DOMAIN cfg.loc |-> 0]]
\* put quantizer n at location l
Warns(st, l, n) == st.loc[l].quant /\ st.slot[l] # 0 /\ st.quants[n].meta # 0 /\ ~Extends(st.metas[st.slot[l]], st.metas[st.quants[n].meta])
Put(st, l, n) ==
  IF ~st.loc[l].quant THEN [st EXCEPT !.at[l] = n]
  ELSE LET s1 == IF st.slot[l] # 0 THEN st
                 ELSE IF st.quants[n].meta # 0 THEN [st EXCEPT !.slot[l] = st.quants[n].meta]
                 ELSE [st EXCEPT !.metas = Append(@, NewMeta(<<>>, <<>>)), !.slot[l] = Len(st.metas) + 1]
       IN [s1 EXCEPT !.at[l] = n, !.quants[n].meta = s1.slot[l]]
\* a new quantizer with new metadata (or none)
New(st, kind, m) == [st EXCEPT !.quants = Append(@, [kind |-> kind, meta |-> IF m = <<>> THEN 0 ELSE Len(st.metas) + 1]), !.metas = @ \o m]
Last(st) == Len(st.quants)
MetaAt(st, l) == IF st.at[l] = 0 THEN 0 ELSE st.quants[st.at[l]].meta
\* what can be seen: for every location its quantizer (smallest location with the same one), its kind, and its metadata likewise
RECURSIVE Idx(_, _, _)
Idx(st, m, i) == IF i > Len(st.uni) THEN <<>> ELSE (IF m # 0 /\ Matches(st.metas[m], st.uni[i]) THEN <<i>> ELSE <<>>) \o Idx(st, m, i + 1)
Rep(f, l) == IF f[l] = 0 THEN 0 ELSE CHOOSE i \in DOMAIN f : f[i] = f[l] /\ \A j \in DOMAIN f : f[j] = f[l] => i <= j
View(st) == [l \in DOMAIN st.loc |->
   IF st.at[l] = 0 THEN <<>> ELSE
   <<Rep(st.at, l), st.quants[st.at[l]].kind, Rep([x \in DOMAIN st.loc |-> MetaAt(st, x)], l), Idx(st, MetaAt(st, l), 1),
     IF MetaAt(st, l) = 0 THEN -1 ELSE Cardinality(st.metas[MetaAt(st, l)].tags)>>]
\* quantizers selected: at one of the locations named by the path part of the query and carrying all tags
Carries(st, l, tags) == tags = <<>> \/ (MetaAt(st, l) # 0 /\ \A i \in DOMAIN tags : Matches(st.metas[MetaAt(st, l)], tags[i]))
Selected(st, q) == {st.at[l] : l \in {l \in Elems(q.locs) : st.at[l] # 0 /\ Carries(st, l, q.tags)}}
RECURSIVE SortedSet(_)
SortedSet(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SortedSet(S \ {x})
SelReps(st, q) == SortedSet({Rep(st.at, l) : l \in {l \in DOMAIN st.at : st.at[l] \in Selected(st, q)}})

TagStep(st, e) ==
  CASE e.op = "put" ->               \* a new quantizer with given metadata (has), or without
         LET s == New(st, e.kind, IF e.has THEN <<NewMeta(e.tags, e.kw)>> ELSE <<>>)
             w == Warns(s, e.at, Last(s))
             p == Put(s, e.at, Last(s))
         IN [st |-> p, out |-> <<w, View(p)>>]
    [] e.op = "share" ->             \* the quantizer at one location is also used at another
         IF st.at[e.of] = 0 THEN [st |-> st, out |-> <<FALSE, View(st)>>]
         ELSE LET p == Put(st, e.at, st.at[e.of]) IN [st |-> p, out |-> <<Warns(st, e.at, st.at[e.of]), View(p)>>]
    [] e.op = "copy" ->              \* a deep copy of the quantizer at one location is used at another
         IF st.at[e.of] = 0 THEN [st |-> st, out |-> <<FALSE, View(st)>>]
         ELSE LET m == MetaAt(st, e.of)
                  s == New(st, st.quants[st.at[e.of]].kind, IF m = 0 THEN <<>> ELSE <<st.metas[m]>>)
                  p == Put(s, e.at, Last(s))
              IN [st |-> p, out |-> <<Warns(s, e.at, Last(s)), View(p)>>]
    [] e.op = "addtag" ->
         LET m == MetaAt(st, e.at)
             s == IF m = 0 THEN st ELSE [st EXCEPT !.metas[m].tags = @ \cup Prefixes(e.tag)]
         IN [st |-> s, out |-> View(s)]
    [] e.op = "drop" -> LET s == [st EXCEPT !.at[e.at] = 0] IN [st |-> s, out |-> View(s)]
    [] e.op = "find" -> [st |-> st, out |-> SelReps(st, e)]
    [] e.op = "ext" ->
         LET a == MetaAt(st, e.a)  b == MetaAt(st, e.b) IN [st |-> st, out |-> IF a = 0 \/ b = 0 THEN "none" ELSE IF Extends(st.metas[a], st.metas[b]) THEN "yes" ELSE "no"]
    [] e.op = "attrs" ->
         LET m == MetaAt(st, e.at) IN
         [st |-> st, out |-> IF m = 0 THEN <<>> ELSE
            <<[i \in 1..6 |-> Matches(st.metas[m], Known[i])], [i \in DOMAIN e.names |-> IF e.names[i] \in DOMAIN st.metas[m].kw THEN st.metas[m].kw[e.names[i]] ELSE -1]>>]
===============================================================================
