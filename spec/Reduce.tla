--------------------------------- MODULE Reduce ---------------------------------
(* Reducing a graph to units (C24): every requested region becomes one unit, all    *)
(* else is kept as coarse as the requests allow.                                     *)
(* A request is [kind |-> "mod" / "span" / "group", mods |-> labels].                 *)
EXTENDS Queries

RHas(g, l) == \E i \in 1..Len(g.nodes) : g.nodes[i].label = l /\ g.nodes[i].how = "mod"
RFirst(g, l) == g.nodes[CHOOSE i \in 1..Len(g.nodes) : g.nodes[i].label = l /\ g.nodes[i].how = "mod" /\ \A j \in 1..(i - 1) : ~(g.nodes[j].label = l /\ g.nodes[j].how = "mod")].id
RNone == {0}
RNodes(g, s) ==
  IF \E i \in 1..Len(s.mods) : ~RHas(g, s.mods[i]) THEN RNone
  ELSE LET ids == [i \in 1..Len(s.mods) |-> RFirst(g, s.mods[i])] IN
       CASE s.kind = "mod" -> {ids[1]}
         [] s.kind = "span" -> LET back == GBack(g, {ids[2]}, {ids[1]}) IN IF ids[1] \in back THEN GForw(g, {ids[1]}, back) ELSE RNone
         [] OTHER -> IF \A i \in 1..Len(ids) : GDepSet(GNode(g, ids[i])) = GDepSet(GNode(g, ids[1])) /\ GUsers(g, ids[i]) = GUsers(g, ids[1])
                     THEN GRange(ids) ELSE RNone
RLeaves(g, id) == IF GNode(g, id).fold THEN GLeavesUnder(g, id) ELSE {id}
RCover(g, s) == s \cup UNION {RLeaves(g, id) : id \in s}

RECURSIVE RCoarse(_, _, _)
RCoarse(g, f, targets) ==
  UNION {IF id \in targets THEN {} ELSE IF GNode(g, id).fold /\ GUnder(g, id) \cap targets # {} THEN RCoarse(g, id, targets) ELSE {id}
         : id \in {x \in GIds(g) : GNode(g, x).parent = f}}

\* Units as sets of nodes; a fold or leaf alone, or the nodes of a span / group.
RUnits(g, regions) == {{id} : id \in RCoarse(g, 0, UNION GRange(regions))} \cup GRange(regions)
RUnitReads(g, u) == UNION {GDepSet(GNode(g, id)) : id \in RCover(g, u)}
RUnitDeps(g, u, units) == {v \in units : v # u /\ RCover(g, v) \cap RUnitReads(g, u) # {}}
RECURSIVE RSortable(_, _, _)
RSortable(g, units, done) == LET m == {u \in units \ done : RUnitDeps(g, u, units) \subseteq done} IN IF m = {} THEN done ELSE RSortable(g, units, done \cup m)

RECURSIVE RPrefixIn(_, _)
RPrefixIn(r, outs) == (\E i \in 1..Len(outs) : ToJson(outs[i]) = ToJson(r)) \/ (r[1] = "attr" /\ RPrefixIn(r[2], outs))
\* References that units exchange: what a leaf or fold unit is given, and what a span reads from outside.
RUnitRefs(g, u) == SelectSeq(QRefs(g, u), LAMBDA r : GBase(r)[1] = "node" /\ GBase(r)[2] \notin u)
RReadable(g, units, r) ==
  \A u \in units : \A id \in u : (GNode(g, id).fold /\ GBase(r)[2] \in GLeavesUnder(g, id)) => RPrefixIn(r, GNode(g, id).outs)
RAllReadable(g, units) ==
  /\ \A u \in units : \A i \in 1..Len(RUnitRefs(g, u)) : RReadable(g, units, RUnitRefs(g, u)[i])
  /\ \A i \in 1..Len(g.outs) : RReadable(g, units, g.outs[i])

RValid(g, specs) ==
  LET regions == [i \in 1..Len(specs) |-> RNodes(g, specs[i])]
      units == RUnits(g, regions)
  IN IF ~GAcyclic(g) \/ \E i \in 1..Len(specs) : regions[i] = RNone THEN FALSE
     ELSE IF \E u \in units : \E id \in u : ~(GDepSet(GNode(g, id)) \subseteq GIds(g)) THEN FALSE
     ELSE /\ \A i, j \in 1..Len(specs) : i # j => RCover(g, regions[i]) \cap RCover(g, regions[j]) = {}
          /\ \A u \in units : \A id \in u : GNode(g, id).fold => GDepSet(GNode(g, id)) \cap GLeavesUnder(g, id) = {}
          /\ RSortable(g, units, {}) = units
          /\ RAllReadable(g, units)

\* The calls delegate i received: e.deleg[i] = sequence of [same, batches (pairs args, kw), outs (streams, when it called its unit)]
RStretch(s, n) == [b \in 1..n |-> GAt(s, b)]
RRefVals(g, rs, env, ins) == [i \in 1..Len(rs) |-> GRefVal(rs[i], env, ins).v]
RDelegate(g, s, region, env, ins, d, called) ==
  /\ Len(d) = 1
  /\ d[1].same
  /\ IF s.kind = "mod"
     THEN LET n == GNode(g, CHOOSE id \in region : TRUE)
              a == RRefVals(g, n.args, env, ins)
              k == RRefVals(g, [i \in 1..Len(n.kw) |-> n.kw[i][2]], env, ins)
              len == GBroadLen({Len((a \o k)[i]) : i \in 1..Len(a \o k)})
          IN IF a \o k = <<>> THEN TRUE
             ELSE /\ Len(d[1].batches) = len \/ (len = 1 /\ d[1].batches # <<>>)
                  /\ \A b \in 1..Len(d[1].batches) :
                       /\ d[1].batches[b][1] = [i \in 1..Len(a) |-> GAt(a[i], b)]
                       /\ Len(d[1].batches[b][2]) = Len(k)
                       /\ QEnc(d[1].batches[b][2]) = QEnc([i \in 1..Len(k) |-> <<n.kw[i][1], GAt(k[i], b)>>])
     ELSE \* running the unit on what it was given
          IF ~called \/ QInputs(g, region) = {} THEN TRUE
          ELSE LET n == Len(d[1].batches)
                   wide(v) == IF Len(v) = 1 THEN RStretch(v, n) ELSE v
                   must == {wide(env[id].v) : id \in QNeededOut(g, region)}
                             \cup {wide(GRefVal(QGraphOuts(g, region)[i], env, ins).v) : i \in 1..Len(QGraphOuts(g, region))}
                   may == must \cup {wide(env[id].v) : id \in region}
               IN must \subseteq GRange(d[1].outs) /\ GRange(d[1].outs) \subseteq may

RCount(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
RJudge(g, e) ==
  LET ins == HRunIns(g, e.ins)
      run == GRun(g, ins)
      env == GEval(g, GEnv0, GLeaves(g), ins)
      regions == [i \in 1..Len(e.specs) |-> RNodes(g, e.specs[i])]
      single == \A i \in 1..Len(e.ins) : Len(e.ins[i][2]) = 1
      labels == {GNode(g, id).label : id \in GLeaves(g)}
      ids(l, s) == Cardinality({id \in s : GNode(g, id).label = l})
  IN IF ~RValid(g, e.specs) THEN (IF e.refused THEN "right" ELSE "should be refused")
     ELSE IF e.refused THEN "refused"
     ELSE IF run.err \/ (\E id \in GLeaves(g) : ~env[id].ok) THEN "right"  \* no such run in the original graph either
     ELSE IF e.failed THEN "failed"
     \* A unit is called once per batch it is given, even where what it returns does not depend on the batch.
     ELSE IF ToJson(e.rows) # ToJson(IF Len(run.out) = 1 THEN RStretch(run.out, Len(e.rows)) ELSE run.out) \/ (e.rows = <<>>) # (run.out = <<>>) THEN "other outputs"
     ELSE IF ToJson(e.again) # ToJson(run.out) THEN "the original graph changed"
     ELSE IF ~e.call /\ single /\ \E l \in labels : RCount(e.log, l) < ids(l, GNeeded(g) \cap GLeaves(g)) \/ RCount(e.log, l) > ids(l, GLeaves(g)) THEN "not each once"
     ELSE IF ~e.remapped THEN "other requests"
     ELSE IF \E i \in 1..Len(e.specs) : ~RDelegate(g, e.specs[i], regions[i], env, ins, e.deleg[i], e.call) THEN "other delegate"
     ELSE "right"
RStep(st, e) == IF e.op = "reduce" THEN [st |-> st, out |-> RJudge(st[e.g], e)] ELSE HStep(st, e)
================================================================================
