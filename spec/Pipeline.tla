-------------------------------- MODULE Pipeline --------------------------------
(* Export pipelines (C26): stages with ordered dependencies, edits, and runs.        *)
(* A stage has a number; names can be reused by replacements.                         *)
(*   refs    number -> [name, fn, deps (numbers)]   all stages ever made               *)
(*   order   the pipeline's stages, in order; cap, ev: captured / evaluated ones       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

PMOD == 999983
RECURSIVE PFold(_, _)
PFold(acc, s) == IF s = <<>> THEN acc ELSE PFold((((acc * 1009) + s[1]) + 7) % PMOD, Tail(s))
PRange(s) == {s[i] : i \in DOMAIN s}
PPut(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
PSub(s, a, b) == [i \in 1..Len(s) |-> IF s[i] = a THEN b ELSE s[i]]
PDel(s, a) == SelectSeq(s, LAMBDA x : x # a)
RECURSIVE PAddAll(_, _)
PAddAll(s, new) == IF new = <<>> THEN s ELSE PAddAll(IF new[1] \in PRange(s) THEN s ELSE Append(s, new[1]), Tail(new))

PInit == [refs |-> [x \in {} |-> 0], order |-> <<>>, cap |-> {}, ev |-> {}]
PHas(s, name) == \E i \in 1..Len(s.order) : s.refs[s.order[i]].name = name
PGet(s, name) == s.order[CHOOSE i \in 1..Len(s.order) : s.refs[s.order[i]].name = name]
PUsers(s, id) == {x \in PRange(s.order) : id \in PRange(s.refs[x].deps)}
PNew(s, e, deps, order, cap, ev) ==
  [s EXCEPT !.refs = PPut(@, e.id, [name |-> e.name, fn |-> e.fn, deps |-> deps]), !.order = order,
            !.cap = IF cap THEN @ \cup {e.id} ELSE @, !.ev = IF ev THEN @ \cup {e.id} ELSE @]
PDeps(s, id, deps) == [s EXCEPT !.refs[id].deps = deps]
RECURSIVE PRewire(_, _, _, _)
PRewire(s, users, a, b) == IF users = {} THEN s ELSE LET u == CHOOSE u \in users : TRUE IN PRewire(PDeps(s, u, PSub(s.refs[u].deps, a, b)), users \ {u}, a, b)

RECURSIVE PReach(_, _)
PReach(s, set) == LET more == UNION {PRange(s.refs[x].deps) : x \in set} \ set IN IF more = {} THEN set ELSE PReach(s, set \cup more)
PAbove(s, id) == PReach(s, PRange(s.refs[id].deps))
\* What has to run for `ids`, and whether that is possible.
PNeeds(s, ids) == PReach(s, ids)
PRunnable(s, ids) == \A x \in PNeeds(s, ids) : x \in PRange(s.order) /\ ~(x \in PAbove(s, x))

RECURSIVE PVal(_, _, _)
PArgs(s, id, input) == IF s.refs[id].deps = <<>> THEN <<input>> ELSE [i \in 1..Len(s.refs[id].deps) |-> PVal(s, s.refs[id].deps[i], input)]
PVal(s, id, input) == PFold((s.refs[id].fn * 7919) % PMOD, PArgs(s, id, input))
PMetric(a, b) == ((a % 9973) * 31 + b) % PMOD

\* log: <<stage, arguments, stages run before>> in the order of the run.
PLogged(s, log, input, ids, complete) ==
  /\ \A i \in 1..Len(log) :
       /\ log[i][1] \in ids
       /\ \A j \in 1..(i - 1) : log[j][1] # log[i][1]
       /\ PRange(s.refs[log[i][1]].deps) \subseteq {log[j][1] : j \in 1..(i - 1)}
       /\ log[i][2] = PArgs(s, log[i][1], input)
       /\ log[i][3] = i - 1
  /\ complete => {log[i][1] : i \in 1..Len(log)} = ids

PNamed(s, ids) == [i \in 1..Len(ids) |-> <<s.refs[ids[i]].name, 0>>]
PKeep(s, set) == SelectSeq(s.order, LAMBDA x : x \in set)
PPairs(s, ev) == IF Len(ev) < 2 THEN <<>> ELSE
  LET n == Len(ev)
      RECURSIVE P(_, _)
      P(i, j) == IF i >= n THEN <<>> ELSE IF j > n THEN P(i + 1, i + 2) ELSE <<<<ev[i], ev[j]>>>> \o P(i, j + 1)
  IN P(1, 2)

PNo(s, why) == [st |-> s, out |-> <<"refused", why>>]
PYes(s) == [st |-> s, out |-> <<"ok">>]
PShape(s) == [i \in 1..Len(s.order) |-> <<s.order[i], s.refs[s.order[i]].name, s.refs[s.order[i]].deps>>]
PSay(b) == IF b THEN "right" ELSE "wrong"

PRun(s, e) ==
  LET all == PRange(s.order)
      capt == PKeep(s, s.cap)
      ev == PKeep(s, s.ev)
      pairs == PPairs(s, ev)
      stopped == e.fail \in all
  IN IF ~PRunnable(s, all) THEN [st |-> s, out |-> <<IF e.log = <<>> THEN "refused" ELSE "wrong", "value">>]
     ELSE IF stopped THEN [st |-> s, out |-> <<"failed", PSay(PLogged(s, e.log, e.input, all, FALSE) /\ e.log # <<>> /\ e.log[Len(e.log)][1] = e.fail)>>]
     ELSE IF e.last /\ s.order = <<>> THEN PNo(s, "value")
     ELSE [st |-> s, out |-> <<"ok",
            PSay(PLogged(s, e.log, e.input, all, TRUE)),
            IF e.last THEN LET l == e.log[Len(e.log)][1] IN <<<<s.refs[l].name, PVal(s, l, e.input)>>>>
            ELSE [i \in 1..Len(capt) |-> <<s.refs[capt[i]].name, PVal(s, capt[i], e.input)>>],
            [i \in 1..Len(pairs) |-> <<pairs[i][1], pairs[i][2], PMetric(PVal(s, pairs[i][1], e.input), PVal(s, pairs[i][2], e.input))>>]>>]

PStep(s, e) ==
  CASE e.op = "register" -> IF PHas(s, e.name) THEN PNo(s, "value") ELSE PYes(PNew(s, e, <<>>, Append(s.order, e.id), e.cap, e.ev))
    [] e.op = "foreign" -> PYes(PNew(s, e, <<>>, s.order, FALSE, FALSE))
    [] e.op = "depends" -> PYes(PDeps(s, e.of, PAddAll(s.refs[e.of].deps, e.on)))
    [] e.op = "before" ->
         IF ~PHas(s, e.target) THEN PNo(s, "key")
         ELSE IF \E i \in 1..Len(e.on) : ~PHas(s, e.on[i]) THEN PNo(s, "key")
         ELSE IF PHas(s, e.name) THEN PNo(s, "value")
         ELSE LET t == PGet(s, e.target) IN
              IF e.explicit THEN PYes(PNew(s, e, PAddAll(<<>>, [i \in 1..Len(e.on) |-> PGet(s, e.on[i])]), Append(s.order, e.id), e.cap, FALSE))
              ELSE PYes(PDeps(PNew(s, e, s.refs[t].deps, Append(s.order, e.id), e.cap, FALSE), t, <<e.id>>))
    [] e.op = "after" ->
         IF ~PHas(s, e.target) THEN PNo(s, "key")
         ELSE IF PHas(s, e.name) THEN PNo(s, "value")
         ELSE LET t == PGet(s, e.target) IN
              PYes(PRewire(PNew(s, e, <<t>>, Append(s.order, e.id), e.cap, FALSE), PUsers(s, t), t, e.id))
    [] e.op = "replace" ->
         IF ~PHas(s, e.target) THEN PNo(s, "key")
         ELSE LET t == PGet(s, e.target)
                  nm == IF e.name = "" THEN e.target ELSE e.name
                  cap == IF e.keep THEN t \in s.cap ELSE e.cap
              IN IF nm # e.target /\ PHas(s, nm) THEN PNo(s, "value")
                 ELSE LET n == PNew([s EXCEPT !.cap = @ \ {t}, !.ev = @ \ {t}], [e EXCEPT !.name = nm], s.refs[t].deps, PSub(s.order, t, e.id), cap, t \in s.ev)
                      IN PYes(PRewire(n, PUsers(s, t), t, e.id))
    [] e.op = "add" ->
         IF ~PHas(s, e.stage) \/ ~PHas(s, e.dep) THEN PNo(s, "key")
         ELSE LET a == PGet(s, e.stage)
                  d == PGet(s, e.dep)
              IN IF a = d \/ a \in PAbove(s, d) THEN PNo(s, "value") ELSE PYes(PDeps(s, a, PAddAll(s.refs[a].deps, <<d>>)))
    [] e.op = "remove" ->
         IF ~PHas(s, e.stage) \/ ~PHas(s, e.dep) THEN PNo(s, "key")
         ELSE LET a == PGet(s, e.stage)
                  d == PGet(s, e.dep)
              IN IF ~(d \in PRange(s.refs[a].deps)) THEN PNo(s, "key") ELSE PYes(PDeps(s, a, PDel(s.refs[a].deps, d)))
    [] e.op = "get" -> IF PHas(s, e.name) THEN [st |-> s, out |-> <<"ok", PGet(s, e.name)>>] ELSE PNo(s, "key")
    [] e.op = "deps" -> [st |-> s, out |-> <<"ok", s.refs[e.of].deps>>]
    [] e.op = "build" -> IF ~(e.of \in PRange(s.order)) \/ ~PRunnable(s, {e.of}) THEN PNo(s, "value")
                         ELSE [st |-> s, out |-> <<"ok", PSay(PLogged(s, [i \in 1..Len(e.log) |-> <<e.log[i], PArgs(s, e.log[i], 1), i - 1>>], 1, PNeeds(s, {e.of}), TRUE))>>]
    [] e.op = "run" -> PRun(s, e)
================================================================================
