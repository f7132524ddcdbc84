------------------------------ MODULE TraceModel ------------------------------
(* Models as programs over modules, what they compute, and layer-wise           *)
(* optimization of their modules (fastforward._orchestration.trace,             *)
(* fastforward.orchestration.layerwise_optimize).                               *)
(*                                                                              *)
(* cfg.mods: sequence of module definitions; module 1 is the model.             *)
(*   [k, n, kids, stmts, out]                                                   *)
(*   k = "comp"  forward(p0, .., pn-1) runs stmts and returns structure `out`   *)
(*   otherwise   a leaf with parameters w and b (see Leaf)                      *)
(* A structure is [t, i, p, k, xs, ks]: "v" element p of variable i, "c"        *)
(* constant k, "n" None, "t"/"l"/"d" tuple / list / dict (keys ks) of xs.       *)
(* All tensors of a program hold a single number, repeated e.n times.           *)
(* state: w  module -> <<w, b>>                                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
M == 101

(* ------------------------------------------------------------------- values *)
V(t, v, xs, ks, d) == [t |-> t, v |-> v, xs |-> xs, ks |-> ks, d |-> d]
S(v, d) == V("s", v % M, <<>>, <<>>, d)
K(v) == V("k", v, <<>>, <<>>, {})
None == V("n", 0, <<>>, <<>>, {})
RECURSIVE View(_), Taint(_, _), Deps(_), Sum(_)
View(v) == CASE v.t \in {"s", "k"} -> <<v.t, v.v>>
             [] v.t = "n" -> <<"n">>
             [] OTHER -> <<v.t, v.ks, [i \in DOMAIN v.xs |-> View(v.xs[i])]>>
\* everything computed from v depends on module m
Taint(v, m) == IF v.t = "s" THEN [v EXCEPT !.d = @ \cup {m}] ELSE [v EXCEPT !.xs = [i \in DOMAIN v.xs |-> Taint(v.xs[i], m)]]
Deps(v) == v.d \cup UNION {Deps(v.xs[i]) : i \in DOMAIN v.xs}
RECURSIVE SumSeq(_)
Sum(v) == IF v.t = "s" THEN v.v ELSE SumSeq(v.xs)
SumSeq(vs) == IF vs = <<>> THEN 0 ELSE Sum(vs[1]) + SumSeq(Tail(vs))

Op(o, a, b) ==
  LET r == (CASE o = "add" -> a.v + b.v [] o = "sub" -> a.v - b.v [] o = "mul" -> a.v * b.v) % M IN
  IF a.t = "k" /\ b.t = "k" THEN K(r) ELSE S(r, a.d \cup b.d)

RECURSIVE At(_, _), Build(_, _)
At(v, p) == IF p = <<>> THEN v ELSE At(v.xs[p[1]], Tail(p))
Build(o, env) ==
  CASE o.t = "v" -> At(env[o.i], o.p)
    [] o.t = "c" -> K(o.k)
    [] o.t = "n" -> None
    [] OTHER -> V(o.t, 0, [i \in DOMAIN o.xs |-> Build(o.xs[i], env)], o.ks, {})

(* -------------------------------------------------------------------- calls *)
\* parameters of a module and the values they have when not given
Params(d) ==
  CASE d.k = "comp" -> [i \in 1..d.n |-> <<"p" \o ToString(i - 1), None>>]
    [] d.k = "opt" -> <<<<"x", None>>, <<"y", None>>, <<"k", K(3)>>>>
    [] d.k = "two" -> <<<<"x", None>>, <<"y", None>>>>
    [] d.k = "lst" -> <<<<"xs", None>>>>
    [] OTHER -> <<<<"x", None>>>>
\* values of the parameters for positional args and keyword args kw (<<name, value>>)
Bind(ps, args, kw) ==
  [i \in DOMAIN ps |->
     IF i <= Len(args) THEN args[i]
     ELSE IF \E j \in DOMAIN kw : kw[j][1] = ps[i][1] THEN kw[CHOOSE j \in DOMAIN kw : kw[j][1] = ps[i][1]][2]
     ELSE ps[i][2]]
\* the multiple of 4 closest to v
Quant(v) == LET q == v \div 4 r == v % 4 IN 4 * (IF r < 2 \/ (r = 2 /\ (q % 2) = 0) THEN q ELSE q + 1)
Leaf(k, w, b, a) ==
  LET x == a[1] IN
  CASE k = "quant" -> S(Quant(w) * x.v + b, x.d)
    [] k = "aff" -> S(w * x.v + b, x.d)
    [] k = "opt" -> IF a[2].t = "n" THEN S(w * x.v + a[3].v, x.d) ELSE S(w * x.v - a[2].v + a[3].v + b, x.d \cup a[2].d)
    [] k = "two" -> S(w * x.v - a[2].v + b, x.d \cup a[2].d)
    [] k = "pair" -> V("t", 0, <<S(w * x.v, x.d), S(x.v + b, x.d)>>, <<>>, {})
    [] k = "one" -> V("t", 0, <<S(w * x.v + b, x.d)>>, <<>>, {})
    [] k = "dict" -> V("d", 0, <<S(w * x.v, x.d), S(x.v - b, x.d)>>, <<"v", "u">>, {})
    [] k = "lst" -> S(w * x.xs[1].v - x.xs[2].v + b, x.xs[1].d \cup x.xs[2].d)

\* a call is [m, args, kw, out, top]: top = position of the enclosing call in the sequence of calls (0: none)
RECURSIVE Call(_, _, _, _, _, _), Stmts(_, _, _, _, _, _)
Shift(cs, k, top) == [i \in DOMAIN cs |-> [cs[i] EXCEPT !.top = IF @ = 0 THEN top ELSE @ + k]]
\* value of calling module m, and the calls this makes, outermost first
Call(mods, W, n, m, args, kw) ==
  LET d == mods[m]
      a == Bind(Params(d), args, kw)
      r == IF d.k = "comp" THEN LET q == Stmts(mods, W, n, d, a, <<>>) IN [v |-> Build(d.out, q.env), calls |-> q.calls]
           ELSE [v |-> Leaf(d.k, W[m][1], W[m][2], a), calls |-> <<>>]
      out == Taint(r.v, m)
  IN [v |-> out, calls |-> <<[m |-> m, args |-> args, kw |-> kw, out |-> out, top |-> 0]>> \o Shift(r.calls, 1, 1)]
Stmts(mods, W, n, d, env, calls) ==
  LET i == Len(env) - d.n + 1 IN
  IF i > Len(d.stmts) THEN [env |-> env, calls |-> calls]
  ELSE
    LET s == d.stmts[i]
        B(o) == Build(o, env)
    IN IF s.op = "call"
       THEN LET r == Call(mods, W, n, d.kids[s.m], [j \in DOMAIN s.args |-> B(s.args[j])], [j \in DOMAIN s.kw |-> <<s.kw[j].name, B(s.kw[j].val)>>])
            IN Stmts(mods, W, n, d, Append(env, r.v), calls \o Shift(r.calls, Len(calls), 0))
       ELSE LET v == CASE s.op = "w" -> S(W[d.kids[s.m]][1], {})
                       [] s.op = "b" -> S(W[d.kids[s.m]][2], {})
                       [] s.op = "mode" -> LET x == B(s.args[1]) IN S(x.v + d.tr, x.d)  \* d.tr: 1 in training mode
                       [] s.op = "size" -> LET x == B(s.args[1]) IN S(x.v * n, x.d)
                       [] OTHER -> Op(s.op, B(s.args[1]), B(s.args[2]))
            IN Stmts(mods, W, n, d, Append(env, v), calls)
Run(mods, W, n, ins) == Call(mods, W, n, 1, [i \in DOMAIN ins |-> S(ins[i], {})], <<>>)

\* calls of submodules in the order of their numbers, as <<module, number of calls>>
Counts(mods, calls) == [m \in 1..(Len(mods) - 1) |-> Cardinality({i \in DOMAIN calls : calls[i].m = m + 1})]

(* ------------------------------------------------------ layer-wise optimization *)
First(calls, m) == CHOOSE i \in DOMAIN calls : calls[i].m = m /\ \A j \in DOMAIN calls : calls[j].m = m => i <= j
RECURSIVE Within(_, _, _)
Within(calls, i, j) == i = j \/ (calls[i].top # 0 /\ Within(calls, calls[i].top, j))
Overlap(calls, ms) ==
  \E i, j \in DOMAIN ms : i # j /\ Within(calls, First(calls, ms[i]), First(calls, ms[j]))
\* modules whose calls determine the inputs of the first call of m
Before(calls, m) ==
  LET c == calls[First(calls, m)] IN
  UNION ({Deps(c.args[i]) : i \in DOMAIN c.args} \cup {Deps(c.kw[i][2]) : i \in DOMAIN c.kw})
Inputs(calls, m) ==
  LET c == calls[First(calls, m)] IN
  <<[i \in DOMAIN c.args |-> View(c.args[i])], [i \in DOMAIN c.kw |-> <<c.kw[i][1], View(c.kw[i][2])>>]>>
Total(calls, m) ==
  LET c == calls[First(calls, m)] IN SumSeq(c.args) + SumSeq([i \in DOMAIN c.kw |-> c.kw[i][2]])
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE s[1] + SumOf(Tail(s))
RECURSIVE LeavesOf(_, _)
LeavesOf(mods, m) == IF mods[m].k = "comp" THEN UNION {LeavesOf(mods, k) : k \in Range(mods[m].kids)} ELSE {m}
\* what the algorithms of the check do: change the parameters by an amount that depends on all inputs
Optimized(mods, W, m, alg, total) ==
  LET delta == ((total + alg) % 7) + 1 IN
  [q \in DOMAIN W |-> IF q \in LeavesOf(mods, m) THEN <<(W[q][1] + delta) % M, (W[q][2] + 2 * delta) % M>> ELSE W[q]]
RunAll(mods, W, n, batches) == [b \in DOMAIN batches |-> Run(mods, W, n, batches[b]).calls]

\* optimize the modules in order `seq` of <<m, alg>>: what each is given, and the resulting parameters
RECURSIVE Optimize(_, _, _, _, _, _)
Optimize(mods, W, n, batches, seq, seen) ==
  IF seq = <<>> THEN [seen |-> seen, w |-> W]
  ELSE LET m == seq[1][1] cs == RunAll(mods, W, n, batches)
       IN Optimize(mods, Optimized(mods, W, m, seq[1][2], SumOf([b \in DOMAIN cs |-> Total(cs[b], m)])), n, batches, Tail(seq),
                   Append(seen, <<m, seq[1][2], [b \in DOMAIN cs |-> Inputs(cs[b], m)]>>))
\* data-flow order: a module comes after the targets that determine its inputs
InOrder(calls, ms) == \A i, j \in DOMAIN ms : (i < j) => ms[j] \notin Before(calls, ms[i])
\* targets of a selection: listed modules, or all modules of a kind
Chosen(mods, t) == {q \in 2..Len(mods) : q \in Range(t.ms) \/ mods[q].k \in Range(t.kinds)}
Selected(mods, e) == UNION {LET t == e.specs[i] IN {<<m, t.alg>> : m \in Chosen(mods, t)} : i \in DOMAIN e.specs}

(* -------------------------------------------------------------------- events *)
TInit(cfg) == [mods |-> cfg.mods, w |-> cfg.w]
TStep(s, e) ==
  CASE e.op = "trace" ->
         [st |-> s, out |-> <<"ok", IF e.count THEN Counts(s.mods, Run(s.mods, s.w, e.n, e.ins).calls) ELSE <<>>>>]
    [] e.op = "run" -> [st |-> s, out |-> View(Run(s.mods, s.w, e.n, e.ins).v)]
    [] e.op = "mode" -> [st |-> [s EXCEPT !.mods = [m \in DOMAIN @ |-> IF m \in Range(e.ms) THEN [@[m] EXCEPT !.tr = e.v] ELSE @[m]]], out |-> <<"ok">>]
    [] e.op = "set" -> [st |-> [s EXCEPT !.w = [@ EXCEPT ![e.m] = <<e.w, e.b>>]], out |-> <<"ok">>]
    \* e.bad: why there is nothing to run (an unknown module or algorithm, targets together with specifications)
    [] e.op = "optimize" ->
         LET sel == Selected(s.mods, e)
             calls == Run(s.mods, s.w, e.n, e.batches[1]).calls
             order == [i \in DOMAIN e.obs |-> <<e.obs[i][1], e.obs[i][2]>>]
             ms == [i \in DOMAIN order |-> order[i][1]]
             seqOf == SetToSeq(sel)
             tg == [i \in DOMAIN seqOf |-> seqOf[i][1]]
             refused == e.bad # "" \/ sel = {} \/ \E i, j \in DOMAIN e.specs : i # j /\ Chosen(s.mods, e.specs[i]) \cap Chosen(s.mods, e.specs[j]) # {}
         IN IF refused \/ Overlap(calls, tg) THEN [st |-> s, out |-> <<"refused", <<>>, s.w>>]
            ELSE IF Len(order) # Cardinality(sel) \/ Range(order) # sel \/ ~InOrder(calls, ms)
                 THEN [st |-> s, out |-> <<"ok", <<"not each of", seqOf, "once in data-flow order">>, s.w>>]
                 ELSE LET r == Optimize(s.mods, s.w, e.n, e.batches, order, <<>>) IN
                      [st |-> [s EXCEPT !.w = r.w], out |-> <<"ok", r.seen, r.w>>]
===============================================================================
