------------------------------- MODULE QuantInit -------------------------------
(* Initialization of quantizers: by rules (a configuration) and by collections.      *)
(* rules[i] = [locs, tags, kind, score]; colls[c] = sequence of results [l, q].      *)
EXTENDS Tags
QInit(cfg) == [rules |-> <<>>, colls |-> <<>>, scored |-> cfg.scored, loc |-> cfg.loc, uni |-> cfg.uni, quants |-> <<>>, metas |-> <<>>,
               at |-> [l \in DOMAIN cfg.loc |-> 0], slot |-> [l \in DOMAIN cfg.loc |-> 0]]
IsStub(st, q) == st.quants[q].kind = 0
\* what forbids to initialize quantizer q (found at location l)
Errs(st, q, l, policy, safe) ==
  IF IsStub(st, q) THEN IF safe /\ st.at[l] # q THEN {"ValueError"} ELSE {}
  ELSE IF policy = "error" THEN {"QuantizationError"} ELSE IF policy = "skip" THEN {}
  ELSE IF policy # "overwrite" \/ (safe /\ st.at[l] # q) THEN {"ValueError"} ELSE {}
Required(st, q, policy) == IsStub(st, q) \/ policy = "overwrite"
RECURSIVE PutAll(_, _, _)
PutAll(st, L, n) == IF L = {} THEN st ELSE LET l == CHOOSE l \in L : TRUE IN PutAll(Put(st, l, n), L \ {l}, n)
\* replace quantizer q everywhere, and at location l, by a new one
Replace(st, q, l, kind) ==
  LET s == New(st, kind, <<>>)
      n == Last(s)
      p == PutAll(s, {x \in DOMAIN st.at : st.at[x] = q} \cup {l}, n)
  IN IF st.quants[q].meta # 0 THEN [p EXCEPT !.quants[n].meta = st.quants[q].meta] ELSE p

(* configurations: the last added of the rules with the highest score                *)
Candidates(st, q) == {i \in DOMAIN st.rules : q \in Selected(st, st.rules[i])}
LocOf(st, q) == CHOOSE l \in DOMAIN st.at : st.at[l] = q
Score(st, i, q) == IF st.scored = "location" THEN st.rules[i].score[LocOf(st, q)] ELSE IF st.scored = "rule" THEN st.rules[i].score[1] ELSE 1
Winner(st, q) == CHOOSE i \in Candidates(st, q) : \A j \in Candidates(st, q) : Score(st, j, q) < Score(st, i, q) \/ (Score(st, j, q) = Score(st, i, q) /\ j <= i)
Code(st, q, kind) == 100 * Rep(st.at, LocOf(st, q)) + kind
RECURSIVE ReplaceAll(_, _, _)
ReplaceAll(st, st0, Q) ==
  IF Q = {} THEN st ELSE LET q == CHOOSE q \in Q : TRUE IN ReplaceAll(Replace(st, q, LocOf(st0, q), st0.rules[Winner(st0, q)].kind), st0, Q \ {q})
Init1(st, e) ==
  LET W == {q \in {st.at[l] : l \in DOMAIN st.at} \ {0} : Candidates(st, q) # {}}
      errs == UNION {Errs(st, q, LocOf(st, q), e.policy, e.safe) : q \in W}
      R == {q \in W : Required(st, q, e.policy)}
      s == ReplaceAll(st, st, R)
  IN IF errs # {} THEN [st |-> st, out |-> <<IF e.etype \in errs THEN "refused" ELSE "wrong error", <<>>, View(st)>>]
     ELSE [st |-> s, out |-> <<"ok", SortedSet({Code(st, q, st.rules[Winner(st, q)].kind) : q \in R}), View(s)>>]

(* collections *)
CollOk(st, e) == /\ \A i \in DOMAIN e.found : e.found[i] \in Elems(e.locs) /\ st.at[e.found[i]] # 0 /\ Carries(st, e.found[i], e.tags)
                 /\ {st.at[e.found[i]] : i \in DOMAIN e.found} = Selected(st, e)
                 /\ \A i, j \in DOMAIN e.found : i # j => st.at[e.found[i]] # st.at[e.found[j]]
RECURSIVE CInit(_, _, _, _, _, _)
CInit(st, C, i, kind, req, new) ==
  IF i > Len(C) THEN [st |-> st, C |-> C]
  ELSE IF C[i].q \in DOMAIN new THEN CInit(st, [C EXCEPT ![i].q = new[C[i].q]], i + 1, kind, req, new)
  ELSE IF ~req[i] THEN CInit(st, C, i + 1, kind, req, new)
  ELSE LET s == Replace(st, C[i].q, C[i].l, kind) IN CInit(s, [C EXCEPT ![i].q = Last(s)], i + 1, kind, req, (C[i].q :> Last(s)) @@ new)
QStep(st, e) ==
  CASE e.op = "rule" -> [st |-> [st EXCEPT !.rules = Append(@, [locs |-> e.locs, tags |-> e.tags, kind |-> e.kind, score |-> e.score])], out |-> "ok"]
    [] e.op = "norules" -> [st |-> [st EXCEPT !.rules = <<>>], out |-> "ok"]
    [] e.op = "init" -> Init1(st, e)
    [] e.op = "coll" -> [st |-> [st EXCEPT !.colls = Append(@, [i \in DOMAIN e.found |-> [l |-> e.found[i], q |-> st.at[e.found[i]]]])], out |-> IF CollOk(st, e) THEN "ok" ELSE "not the selection"]
    [] e.op = "append" -> LET d == st.colls[e.from] IN
         [st |-> IF d = <<>> THEN st ELSE [st EXCEPT !.colls[e.c] = Append(@, d[1 + (e.i % Len(d))])], out |-> "ok"]
    [] e.op = "cinit" ->
         LET C == st.colls[e.c]
             errs == UNION {Errs(st, C[i].q, C[i].l, e.policy, e.safe) : i \in DOMAIN C}
             r == CInit(st, C, 1, e.kind, [i \in DOMAIN C |-> Required(st, C[i].q, e.policy)], <<>>)
         IN IF errs # {} THEN [st |-> st, out |-> <<IF e.etype \in errs THEN "refused" ELSE "wrong error", [i \in DOMAIN C |-> st.at[C[i].l] = C[i].q], View(st)>>]
            ELSE LET s == [r.st EXCEPT !.colls[e.c] = r.C] IN [st |-> s, out |-> <<"ok", [i \in DOMAIN C |-> s.at[r.C[i].l] = r.C[i].q], View(s)>>]
    [] OTHER -> TagStep(st, e)
===============================================================================
