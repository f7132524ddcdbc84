----------------------------- MODULE TraceModelMC -----------------------------
(* All programs of up to Len0 calls over modules with optional, shared and      *)
(* structured arguments and results, and a nested module that shares a module.  *)
EXTENDS TraceModel, Json
CONSTANTS Len0, Gen
VARIABLES prog
Ref(i, p) == [t |-> "v", i |-> i, p |-> p, k |-> 0, xs |-> <<>>, ks |-> <<>>]
Str(t, xs, ks) == [t |-> t, i |-> 0, p |-> <<>>, k |-> 0, xs |-> xs, ks |-> ks]
Nothing == [t |-> "n", i |-> 0, p |-> <<>>, k |-> 0, xs |-> <<>>, ks |-> <<>>]
CallOf(m, args, kw) == [op |-> "call", m |-> m, args |-> args, kw |-> kw]
Kw(name, val) == [name |-> name, val |-> val]
LeafOf(k) == [k |-> k, n |-> 0, kids |-> <<>>, stmts |-> <<>>, out |-> Nothing]
Fold ==
  [k |-> "comp", n |-> 2, kids |-> <<7, 2>>,
   stmts |-> <<CallOf(1, <<Str("l", <<Ref(1, <<>>), Ref(2, <<>>)>>, <<>>)>>, <<>>), CallOf(2, <<Ref(3, <<>>)>>, <<>>)>>,
   out |-> Str("d", <<Ref(4, <<>>), Ref(3, <<>>)>>, <<"u", "t">>)]
Elems(m) == IF m \in {4, 5} THEN <<<<1>>, <<2>>>> ELSE <<<<>>>>
RefsOf(i, m) == [j \in DOMAIN Elems(m) |-> Ref(i, Elems(m)[j])]
RECURSIVE Results(_)
Results(n) == IF n = 0 THEN <<>> ELSE Results(n - 1) \o RefsOf(n + 2, prog[n].m)
Scalars == {Ref(1, <<>>), Ref(2, <<>>)} \cup Range(Results(Len(prog)))
Mods(out) ==
  <<[k |-> "comp", n |-> 2, kids |-> <<2, 3, 4, 5, 6>>, stmts |-> prog, out |-> out],
    LeafOf("aff"), LeafOf("opt"), LeafOf("opt"), LeafOf("pair"), Fold, LeafOf("lst")>>
W0 == <<<<0, 0>>, <<2, 1>>, <<3, 5>>, <<4, 2>>, <<5, 3>>, <<0, 0>>, <<6, 4>>>>
Calls ==
  {CallOf(1, <<x>>, <<>>) : x \in Scalars} \cup {CallOf(2, <<>>, <<Kw("x", x)>>) : x \in Scalars}
  \cup {CallOf(3, <<x>>, <<Kw("k", [Nothing EXCEPT !.t = "c", !.k = 7]), Kw("y", y)>>) : x, y \in Scalars}
  \cup {CallOf(4, <<x>>, <<>>) : x \in Scalars}
  \cup {CallOf(5, <<>>, <<Kw("p1", y), Kw("p0", x)>>) : x, y \in Scalars}
\* in the program kids 4 and 5 are `pair` and the nested module
Init == prog = <<>>
Next == Len(prog) < Len0 /\ \E c \in Calls : prog' = Append(prog, c)

P == Mods(Str("t", Results(Len(prog)), <<>>))
Batches == <<<<3, 5>>, <<11, 2>>>>
C0 == Run(P, W0, 1, Batches[1]).calls
Called == {m \in 2..7 : \E i \in DOMAIN C0 : C0[i].m = m}
\* selections of called modules that do not overlap and whose parameters are not used by other modules
Own(m) == \A i \in DOMAIN C0 : C0[i].m \in LeavesOf(P, m) => \E j \in DOMAIN C0 : C0[j].m = m /\ Within(C0, i, j)
Sels == {ms \in SUBSET {m \in Called : Own(m)} : ms # {} /\ \A a, b \in ms : a # b => ~Within(C0, First(C0, a), First(C0, b))}
Orders(ms) == {q \in [1..Cardinality(ms) -> ms] : Range(q) = ms /\ InOrder(C0, q)}
Final(q) == Optimize(P, W0, 1, Batches, [i \in DOMAIN q |-> <<q[i], q[i]>>], <<>>)
ByModule(r) == {r.seen[i] : i \in DOMAIN r.seen}
Inv ==
  /\ prog # <<>> =>
     /\ \A ms \in Sels :
          LET os == Orders(ms) IN
          /\ os # {}
          \* the result does not depend on the order that is chosen
          /\ Cardinality({<<Final(q).w, ByModule(Final(q))>> : q \in os}) = 1
          \* every target is given the inputs that it has in the optimized model
          /\ LET r == Final(CHOOSE q \in os : TRUE)
                 cs == RunAll(P, r.w, 1, Batches) IN
             \A i \in DOMAIN r.seen : r.seen[i][3] = [b \in DOMAIN cs |-> Inputs(cs[b], r.seen[i][1])]
          \* modules that are not targets keep their parameters
          /\ LET r == Final(CHOOSE q \in os : TRUE) IN
             \A m \in DOMAIN W0 : m \notin UNION {LeavesOf(P, t) : t \in ms} => r.w[m] = W0[m]
     \* reading a parameter does not depend on the number of elements without sizes
     /\ View(Run(P, W0, 1, Batches[1]).v) = View(Run(P, W0, 2, Batches[1]).v)

In(op, ins, n, kw) == [op |-> op, ins |-> ins, n |-> n, kw |-> kw, same |-> FALSE, count |-> op = "trace"]
SetTo(m, w, b, how) == [op |-> "set", m |-> m, w |-> w, b |-> b, how |-> how]
Hist ==
  <<In("trace", <<3, 5>>, 1, <<>>), In("run", <<3, 5>>, 1, <<>>), SetTo(2, 7, 9, "inplace"), In("run", <<8, 1>>, 1, <<1>>),
    SetTo(7, 3, 3, "state"), SetTo(4, 2, 8, "param"), In("run", <<2, 6>>, 1, <<1, 0>>),
    SetTo(3, 9, 1, "swap"), In("trace", <<4, 4>>, 2, <<1, 0>>), In("run", <<5, 9>>, 2, <<>>)>>
RECURSIVE Outs(_, _)
Outs(s, es) ==
  IF es = <<>> THEN <<>>
  ELSE LET r == TStep(s, es[1]) IN <<[out |-> r.out] @@ es[1]>> \o Outs(r.st, Tail(es))
Emit ==
  (Gen /\ Len(prog) = Len0) =>
    PrintT("VFGEN " \o ToJson([cfg |-> [mods |-> P, w |-> W0], events |-> Outs(TInit([mods |-> P, w |-> W0]), Hist)]))
\* every selection of called modules, also those that are refused, in one or two specifications
Spec1(ms, alg) == [ms |-> SetToSeq(ms), kinds |-> <<>>, alg |-> alg, how |-> "modules"]
Opt(specs, style) ==
  [op |-> "optimize", specs |-> specs, style |-> style, bad |-> "", form |-> "plain", kw |-> <<>>, again |-> FALSE, offload |-> FALSE, graph |-> TRUE, n |-> 1, batches |-> Batches, obs |-> <<>>]
EmitSelections ==
  (Gen /\ Len(prog) = Len0) =>
    \A ms \in {x \in SUBSET Called : x # {} /\ \A m \in x : Own(m) /\ Cardinality({i \in DOMAIN C0 : C0[i].m = m}) = 1} :
      LET a == CHOOSE m \in ms : TRUE
          es == IF Cardinality(ms) = 1 THEN <<Opt(<<Spec1(ms, 1)>>, "registered")>>
                ELSE <<Opt(<<Spec1(ms, 1)>>, "override"), Opt(<<Spec1({a}, 2), Spec1(ms \ {a}, 3)>>, "specs")>>
      IN PrintT("VFGEN " \o ToJson([cfg |-> [mods |-> P, w |-> W0], events |-> es \o <<In("trace", <<9, 4>>, 1, <<>>), In("run", <<9, 4>>, 1, <<>>)>>]))
===============================================================================
