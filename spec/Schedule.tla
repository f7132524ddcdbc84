-------------------------------- MODULE Schedule --------------------------------
(* Running a graph that carries optimizers (C22) with values and modules moved      *)
(* between devices (C23), as seen from the modules, the optimizers and the          *)
(* register of values.                                                               *)
(*                                                                                   *)
(* cfg  [g, deleg (records [id, ctx (contexts, 0 is the default one), bump]),        *)
(*       ins (pairs <<input id, stream>>), opt, life, off]                           *)
(* A node's value depends on its label, the number of times its module was           *)
(* optimized before, the context, and the arguments.                                 *)
EXTENDS Graph, Json

SRestrict(c) == c.opt /\ c.deleg # <<>>
SHasDel(c, id) == \E i \in 1..Len(c.deleg) : c.deleg[i].id = id
SDel(c, id) == c.deleg[CHOOSE i \in 1..Len(c.deleg) : c.deleg[i].id = id]
SDelIds(c) == {c.deleg[i].id : i \in 1..Len(c.deleg)}
\* Nodes whose results an optimizer needs.
SForOpt(c) == GBack(c.g, UNION {GDepSet(GNode(c.g, id)) : id \in SDelIds(c)}, {})
SRuns(c) == IF SRestrict(c) THEN SForOpt(c) ELSE GIds(c.g)

\* Contexts the result of a node is needed in.
RECURSIVE SCtx(_, _)
SCtx(c, id) ==
  (IF id \in GOutIds(c.g) THEN {0} ELSE {})
    \cup UNION {(IF SHasDel(c, u) THEN GRange(SDel(c, u).ctx) ELSE {}) \cup SCtx(c, u) : u \in GUsers(c.g, id)}
SAllCtx(c) == {0} \cup UNION {GRange(c.deleg[i].ctx) : i \in 1..Len(c.deleg)}

SVer(ver, l) == IF l \in DOMAIN ver THEN ver[l] ELSE 0
\* vals: (node, context) -> stream
SEnv(vals, ctx) == [n \in {k[1] : k \in {x \in DOMAIN vals : x[2] = ctx}} |-> Ok(vals[<<n, ctx>>])]
SHave(vals, r, ctx) == GBase(r)[1] # "node" \/ <<GBase(r)[2], ctx>> \in DOMAIN vals
SRefVal(c, vals, r, ctx) == IF SHave(vals, r, ctx) THEN GRefVal(r, SEnv(vals, ctx), c.ins) ELSE Bad
\* What a node is called with, batch by batch.
SBundle(c, vals, n, ctx) ==
  LET a == [i \in 1..Len(n.args) |-> SRefVal(c, vals, n.args[i], ctx)]
      k == [i \in 1..Len(n.kw) |-> SRefVal(c, vals, n.kw[i][2], ctx)]
      all == a \o k
      len == GBroadLen({Len(all[i].v) : i \in 1..Len(all)})
  IN IF (\E i \in 1..Len(all) : ~all[i].ok) \/ len = -1 THEN Bad
     ELSE Ok([b \in 1..len |-> <<[i \in 1..Len(a) |-> GAt(a[i].v, b)], [i \in 1..Len(k) |-> <<n.kw[i][1], GAt(k[i].v, b)>>]>>])
SLabel(label, ver, ctx) == label + 300 * ver + 3000 * ctx
SResult(n, ver, ctx, bundle) == [b \in 1..Len(bundle) |-> GApply(SLabel(n.label, IF n.how = "mod" THEN SVer(ver, n.label) ELSE 0, ctx), bundle[b][1], bundle[b][2])]
SModes(ctx, bundle) == [b \in 1..Len(bundle) |-> <<ctx, bundle[b][1], bundle[b][2]>>]

\* r is what ref starts from.
RECURSIVE RHasPrefix(_, _)
RHasPrefix(r, ref) == ToJson(r) = ToJson(ref) \/ (ref[1] = "attr" /\ RHasPrefix(r, ref[2]))

RECURSIVE SFlat(_)
SFlat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o SFlat(Tail(s))

\* A value with no reader left, and that the run does not return.
SReads(c, x, r) == \E i \in 1..Len(GRefs(GNode(c.g, x))) : RHasPrefix(r, GRefs(GNode(c.g, x))[i])
SReturned(c) == IF SRestrict(c) THEN <<>> ELSE c.g.outs
SDead(c, s, r, now) ==
  /\ \A x \in (SRuns(c) \cup SDelIds(c)) \ (s.done \cup {now}) : ~SReads(c, x, r)
  /\ ~SReads(c, now, r)
  /\ \A i \in 1..Len(SReturned(c)) : ~RHasPrefix(r, SReturned(c)[i])
SClean(c, s, live, now) == c.life => \A i \in 1..Len(live) : (live[i][1] \in {"node", "attr"} /\ GBase(live[i])[1] = "node") => ~SDead(c, s, live[i], now)

SInit(cfg) == [c |-> cfg, done |-> {}, opted |-> {}, ver |-> [l \in {} |-> 0], vals |-> [k \in {} |-> <<>>],
               live |-> {ToJson(<<"in", cfg.ins[i][1]>>) : i \in 1..Len(cfg.ins)}, gone |-> {}]
SOut(b) == IF b THEN "right" ELSE "wrong"
SRes(s, good, why) == [st |-> s, out |-> IF good THEN "right" ELSE why]

\* The first recorded value of a node: its call.
SCall(s, e, id) ==
  LET c == s.c
      n == GNode(c.g, id)
      bs == [i \in 1..Len(e.ctxs) |-> SBundle(c, s.vals, n, e.ctxs[i])]
      new == [i \in 1..Len(e.ctxs) |-> IF bs[i].ok THEN SResult(n, s.ver, e.ctxs[i], bs[i].v) ELSE <<>>]
      runs == SFlat([i \in 1..Len(e.ctxs) |-> SModes(e.ctxs[i], bs[i].v)])
      t == [s EXCEPT !.done = @ \cup {id}, !.live = @ \cup {ToJson(e.ref)},
                     !.vals = [k \in DOMAIN @ \cup {<<id, e.ctxs[i]>> : i \in 1..Len(e.ctxs)} |->
                                 IF k[1] = id THEN new[CHOOSE i \in 1..Len(e.ctxs) : e.ctxs[i] = k[2]] ELSE @[k]]]
  IN IF ~(id \in SRuns(c)) THEN SRes(s, FALSE, "not needed")
     ELSE IF SHasDel(c, id) /\ ~(id \in s.opted) THEN SRes(s, FALSE, "called before optimized")
     ELSE IF ~(GDepSet(n) \subseteq s.done) THEN SRes(s, FALSE, "called before what it reads")
     ELSE IF ~(GRange(e.ctxs) \subseteq SCtx(c, id)) \/ (~SRestrict(c) /\ GRange(e.ctxs) # SCtx(c, id)) THEN SRes(s, FALSE, "contexts")
     ELSE IF \E i \in 1..Len(bs) : ~bs[i].ok THEN SRes(s, FALSE, "inputs missing")
     ELSE IF ToJson(e.runs) # ToJson(runs) THEN SRes(s, FALSE, "calls")
     ELSE IF ~e.placed THEN SRes(s, FALSE, "placement")
     ELSE IF ToJson(e.vals) # ToJson(new) THEN SRes(s, FALSE, "values")
     ELSE IF ~SClean(c, s, e.live, id) THEN SRes(s, FALSE, "kept too long")
     ELSE SRes(t, TRUE, "")

SStore(s, e) ==
  LET c == s.c
      add == [s EXCEPT !.live = @ \cup {ToJson(e.ref)}]
      want(i) == SRefVal(c, s.vals, e.ref, e.ctxs[i])
      same == \A i \in 1..Len(e.ctxs) : want(i).ok /\ ToJson(want(i).v) = ToJson(e.vals[i])
  IN IF e.ref[1] = "node" /\ ~(e.ref[2] \in s.done) THEN SCall(s, e, e.ref[2])
     ELSE IF e.runs # <<>> THEN SRes(s, FALSE, "called again")
     ELSE IF ToJson(e.ref) \in s.gone THEN SRes(s, FALSE, "back after its deletion")
     ELSE IF e.ref[1] = "const" THEN SRes(add, TRUE, "")
     ELSE SRes(add, same, "values")

SOptimize(s, e) ==
  LET c == s.c
      n == GNode(c.g, e.id)
      d == SDel(c, e.id)
      bs == [i \in 1..Len(d.ctx) |-> SBundle(c, s.vals, n, d.ctx[i])]
      t == [s EXCEPT !.opted = @ \cup {e.id},
                     !.ver = [l \in DOMAIN @ \cup {n.label} |-> IF l = n.label THEN SVer(@, l) + (IF d.bump THEN 1 ELSE 0) ELSE @[l]]]
  IN IF e.id \in s.opted THEN SRes(s, FALSE, "optimized twice")
     ELSE IF e.id \in s.done THEN SRes(s, FALSE, "optimized after its call")
     ELSE IF e.runs # <<>> THEN SRes(s, FALSE, "calls without result")
     ELSE IF ~e.same THEN SRes(s, FALSE, "another module")
     ELSE IF \E i \in 1..Len(bs) : ~bs[i].ok THEN SRes(s, FALSE, "inputs missing")
     ELSE IF ToJson(e.bundles) # ToJson([i \in 1..Len(bs) |-> IF GRefs(n) = <<>> THEN <<>> ELSE bs[i].v]) THEN SRes(s, FALSE, "data")
     ELSE IF ~e.placed THEN SRes(s, FALSE, "placement")
     ELSE IF ~SClean(c, s, e.live, e.id) THEN SRes(s, FALSE, "kept too long")
     ELSE SRes(t, TRUE, "")

SDelete(s, e) ==
  LET k == ToJson(e.ref) IN
  IF ~(k \in s.live) THEN SRes(s, FALSE, "deleted twice")
  ELSE IF \E i \in 1..Len(SReturned(s.c)) : ToJson(SReturned(s.c)[i]) = k THEN SRes(s, FALSE, "returned value deleted")
  ELSE SRes([s EXCEPT !.live = @ \ {k}, !.gone = @ \cup {k}], TRUE, "")

SEnd(s, e) ==
  LET c == s.c
      o == [i \in 1..Len(c.g.outs) |-> SRefVal(c, s.vals, c.g.outs[i], 0)]
      len == GBroadLen({Len(o[i].v) : i \in 1..Len(o)})
      rows == [b \in 1..len |-> [i \in 1..Len(o) |-> GAt(o[i].v, b)]]
      left == {i \in 1..Len(e.live) : GBase(e.live[i])[1] = "node"}
  IN IF e.runs # <<>> THEN SRes(s, FALSE, "calls without result")
     ELSE IF ~(SDelIds(c) \subseteq s.opted) THEN SRes(s, FALSE, "not optimized")
     ELSE IF SRestrict(c) /\ s.done # SRuns(c) THEN SRes(s, FALSE, "not run")
     ELSE IF ~SRestrict(c) /\ ~(GNeeded(c.g) \subseteq s.done) THEN SRes(s, FALSE, "not run")
     ELSE IF ~SRestrict(c) /\ c.g.outs # <<>> /\ ((\E i \in 1..Len(o) : ~o[i].ok) \/ ToJson(e.rows) # ToJson(rows)) THEN SRes(s, FALSE, "result")
     ELSE IF SRestrict(c) /\ e.rows # <<>> THEN SRes(s, FALSE, "result of a restricted run")
     ELSE IF c.life /\ \E i \in left : ~\E j \in 1..Len(SReturned(c)) : ToJson(SReturned(c)[j]) = ToJson(e.live[i]) THEN SRes(s, FALSE, "never deleted")
     ELSE SRes(s, e.home, "devices not restored")

SStep(s, e) ==
  CASE e.op = "store" -> SStore(s, e)
    [] e.op = "optimize" -> SOptimize(s, e)
    [] e.op = "delete" -> SDelete(s, e)
    [] e.op = "end" -> SEnd(s, e)
    [] OTHER -> SRes(s, FALSE, "error")
================================================================================
