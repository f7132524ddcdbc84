------------------------------- MODULE ScheduleMC -------------------------------
(* Every order of calling, optimizing and deleting that respects the data flow       *)
(* delivers the same data to the optimizers and the same results, with or without    *)
(* restricting the run to what the optimizers need; nothing gets stuck, and what has *)
(* no readers left can be deleted at once.                                            *)
EXTENDS Schedule, SequencesExt
CONSTANTS N, Gen
VARIABLES s, todo
Ids == 1..N
SetSeq(t) == SetToSortSeq(t, <)
Arg(i, d, el) == IF el = d THEN <<"attr", <<"node", d>>, 0>> ELSE <<"node", d>>
Leaf(deps, el, i) == [id |-> i, label |-> 10 * i + 1, how |-> "mod", outs |-> <<>>, kw |-> <<>>, parent |-> 0, fold |-> FALSE,
                      args |-> IF deps[i] = {} THEN <<<<"in", 90>>>> ELSE [k \in 1..Cardinality(deps[i]) |-> Arg(i, SetSeq(deps[i])[k], el)]]
Graphs == {[ins |-> <<<<90, "x0">>>>, outs |-> o, nodes |-> [i \in Ids |-> Leaf(deps, el, i)]] :
             deps \in {d \in [Ids -> SUBSET Ids] : \A i \in Ids : d[i] \subseteq 1..(i - 1)}, el \in {0}, o \in {<<>>, <<<<"node", N>>>>, <<<<"node", 1>>, <<"node", N>>>>}}
Delegates == {[i \in 1..Cardinality(ds) |-> [id |-> SetSeq(ds)[i], ctx |-> cx, bump |-> TRUE, call |-> FALSE, fresh |-> FALSE]] : ds \in SUBSET Ids, cx \in {<<0>>, <<1>>, <<2, 0>>}}
Cfgs == {[g |-> g, deleg |-> d, ins |-> <<<<90, <<5, 77>>>>>>, opt |-> o, life |-> l, off |-> FALSE] : g \in Graphs, d \in Delegates, o \in BOOLEAN, l \in BOOLEAN}

\* The data in every order: upstream modules that have an optimizer count as optimized once.
RECURSIVE Pure(_, _, _)
PureEnv(c, id, ctx) == [d \in GDepSet(GNode(c.g, id)) |-> Ok(Pure(c, d, ctx))]
PureArgs(c, id, ctx) == LET n == GNode(c.g, id)
                            a == [i \in 1..Len(n.args) |-> GRefVal(n.args[i], PureEnv(c, id, ctx), c.ins).v]
                        IN [b \in 1..GBroadLen({Len(a[i]) : i \in 1..Len(a)}) |-> <<[i \in 1..Len(a) |-> GAt(a[i], b)], <<>>>>]
Pure(c, id, ctx) == LET n == GNode(c.g, id) IN SResult(n, [l \in {n.label} |-> IF SHasDel(c, id) THEN 1 ELSE 0], ctx, PureArgs(c, id, ctx))

C == s.c
Ready(id) == /\ ~(id \in s.done) /\ GDepSet(GNode(C.g, id)) \subseteq s.done
Init == s \in {SInit(c) : c \in Cfgs} /\ todo = TRUE
Dead(id) == ToJson(<<"node", id>>) \in s.live /\ id \in s.done /\ SDead(C, s, <<"node", id>>, id)
Call(id) ==
  LET ctxs == SetSeq(SCtx(C, id))
      bs == [i \in 1..Len(ctxs) |-> SBundle(C, s.vals, GNode(C.g, id), ctxs[i])]
      e == [op |-> "store", ref |-> <<"node", id>>, ctxs |-> ctxs, live |-> <<>>, placed |-> TRUE,
            vals |-> [i \in 1..Len(ctxs) |-> Pure(C, id, ctxs[i])],
            runs |-> SFlat([i \in 1..Len(ctxs) |-> SModes(ctxs[i], PureArgs(C, id, ctxs[i]))])]
      r == SStep(s, e)
  IN /\ id \in SRuns(C) /\ Ready(id) /\ (SHasDel(C, id) => id \in s.opted)
     /\ Assert(r.out = "right", <<"call", id, r.out>>)
     /\ s' = r.st
Optimize(id) ==
  LET d == SDel(C, id)
      e == [op |-> "optimize", id |-> id, same |-> TRUE, runs |-> <<>>, live |-> <<>>, placed |-> TRUE, bundles |-> [i \in 1..Len(d.ctx) |-> PureArgs(C, id, d.ctx[i])]]
      r == SStep(s, e)
  IN /\ SHasDel(C, id) /\ ~(id \in s.opted) /\ Ready(id)
     /\ Assert(r.out = "right", <<"optimize", id, r.out>>)
     /\ s' = r.st
Delete(id) ==
  LET r == SStep(s, [op |-> "delete", ref |-> <<"node", id>>]) IN
  /\ C.life /\ Dead(id)
  /\ Assert(r.out = "right", <<"delete", id, r.out>>)
  /\ s' = [r.st EXCEPT !.vals = [k \in {x \in DOMAIN @ : x[1] # id} |-> @[k]]]
Finished == s.done = SRuns(C) /\ s.opted = SDelIds(C)
Next == /\ todo' = FALSE
        /\ \E id \in Ids : Call(id) \/ Optimize(id) \/ Delete(id)
Progress == Finished \/ ENABLED (\E id \in Ids : Call(id) \/ Optimize(id))
Result == (Finished /\ ~SRestrict(C)) => \A i \in 1..Len(C.g.outs) : LET r == SRefVal(C, s.vals, C.g.outs[i], 0) IN r.ok /\ r.v = Pure(C, GBase(C.g.outs[i])[2], 0)
Emit == (Gen /\ todo) => PrintT("VFGEN " \o ToJson(C))
================================================================================
