-------------------------------- MODULE Queries --------------------------------
(* Analyses of static call graphs (C21), asked between the operations of GraphHist: *)
(* orders, ancestors, cycles, extracted subgraphs and bound data flows.              *)
EXTENDS GraphHist, Json

\* Everything a node transitively reads, without the node itself (unless on a cycle).
RECURSIVE QBelow(_, _)
QBelow(g, s) == LET m == UNION {GDepSet(GNode(g, id)) : id \in s \cap GIds(g)} \ s IN IF m = {} THEN s ELSE QBelow(g, s \cup m)
QDeps(g, id) == QBelow(g, GDepSet(GNode(g, id)))
QKnown(g, s) == s \subseteq GIds(g)

\* `o` lists exactly `s`, each after everything in `s` it depends on, directly or not.
QOrder(g, o, s) == /\ Len(o) = Cardinality(s) /\ GRange(o) = s
                   /\ \A i \in 1..Len(o) : (QDeps(g, o[i]) \cap s) \subseteq {o[j] : j \in 1..(i - 1)}
QAllKnown(g) == \A i \in 1..Len(g.nodes) : GDepSet(g.nodes[i]) \subseteq GIds(g)

QTopo(g, e) ==
  IF ~GAcyclic(g) \/ ~(GRange(e.of) \subseteq GLeaves(g)) THEN (IF e.order = <<0>> THEN "right" ELSE "should be refused")
  ELSE IF QOrder(g, e.order, GRange(e.of)) THEN "right" ELSE "not an order"

\* ancestors(node, stop, strict): <<nodes, reached>>, or refused
QAncestors(g, e) ==
  LET back == GBack(g, {e.node}, IF e.stop = 0 THEN {} ELSE {e.stop})
      reached == e.stop = 0 \/ e.stop \in back
      path == GForw(g, {e.stop}, back)
  IN IF e.strict /\ e.stop = 0 THEN <<"refused">>
     ELSE IF ~QKnown(g, back \ {e.stop}) THEN <<"refused">>
     ELSE IF ~e.strict THEN <<Sorted(back), reached>>
     ELSE IF ~reached THEN <<<<>>, FALSE>>
     ELSE IF e.stop \notin GIds(g) THEN <<"refused">>
     ELSE <<Sorted(path), TRUE>>

\* find_cycle over an adjacency list e.edges: sequence of <<node, successors>>
RECURSIVE QReach(_, _)
QSucc(edges, x) == IF \E i \in 1..Len(edges) : edges[i][1] = x THEN GRange(edges[CHOOSE i \in 1..Len(edges) : edges[i][1] = x][2]) ELSE {}
QReach(edges, s) == LET m == UNION {QSucc(edges, x) : x \in s} \ s IN IF m = {} THEN s ELSE QReach(edges, s \cup m)
QCyclic(edges) == \E i \in 1..Len(edges) : edges[i][1] \in QReach(edges, QSucc(edges, edges[i][1]))
QCycle(e) ==
  IF ~QCyclic(e.edges) THEN (IF e.cycle = <<>> THEN "right" ELSE "no cycle exists")
  ELSE IF Len(e.cycle) >= 2 /\ e.cycle[1] = e.cycle[Len(e.cycle)] /\ \A i \in 1..(Len(e.cycle) - 1) : e.cycle[i + 1] \in QSucc(e.edges, e.cycle[i])
       THEN "right" ELSE "not a cycle"

(* ---- extraction of the nodes e.of ---- *)
QOutside(g, s, r) == GBase(r)[1] = "in" \/ (GBase(r)[1] = "node" /\ GBase(r)[2] \notin s)
RECURSIVE QFlat(_)
QFlat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o QFlat(Tail(ss))
\* Sets of references are kept as sequences: references of different shapes cannot be compared.
QRefs(g, s) == QFlat([i \in 1..Len(g.nodes) |-> IF g.nodes[i].id \in s THEN GRefs(g.nodes[i]) ELSE <<>>])
QEnc(ss) == {ToJson(ss[i]) : i \in 1..Len(ss)}
QInputs(g, s) == QEnc(SelectSeq(QRefs(g, s), LAMBDA r : QOutside(g, s, r)))
QIndex(ins, r) == CHOOSE k \in 1..Len(ins) : ToJson(ins[k]) = ToJson(r)
QBind(g, s, ins, r) == IF QOutside(g, s, r) THEN <<"in", QIndex(ins, r)>> ELSE r
QSubgraph(g, s, ins) ==
  [ins |-> [k \in 1..Len(ins) |-> <<k, "">>], outs |-> <<>>,
   nodes |-> SelectSeq([i \in 1..Len(g.nodes) |-> LET n == g.nodes[i] IN
                          IF n.id \in s THEN [n EXCEPT !.args = [j \in 1..Len(@) |-> QBind(g, s, ins, @[j])], !.kw = [j \in 1..Len(@) |-> <<@[j][1], QBind(g, s, ins, @[j][2])>>]] ELSE n],
                       LAMBDA n : n.id \in s)]
QNeededOut(g, s) == {id \in s : \E u \in GUsers(g, id) : u \notin s /\ u \in GLeaves(g)}
QGraphOuts(g, s) == SelectSeq(g.outs, LAMBDA r : GBase(r)[2] \in s)
\* e.ins: what each input of the extracted graph stands for; e.feed: the streams fed; e.got: the streams it returned.
QComputes(g, s, ins, e) ==
  LET h == QSubgraph(g, s, ins)
      feed == [k \in 1..Len(e.feed) |-> <<k, e.feed[k]>>]
      env == GEval(h, GEnv0, s, feed)
      wide(v) == IF e.got # <<>> /\ Len(v) = 1 THEN [b \in 1..Len(e.got[1]) |-> v[1]] ELSE v
      must == {wide(env[id].v) : id \in QNeededOut(g, s)} \cup {wide(GRefVal(QGraphOuts(g, s)[i], env, feed).v) : i \in 1..Len(QGraphOuts(g, s))}
      may == {wide(env[id].v) : id \in s} \cup must
  IN must \subseteq GRange(e.got) /\ GRange(e.got) \subseteq may
QPerms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
QExtract(g, e) ==
  LET s == GRange(e.of)
      want == QInputs(g, s)
      want0 == SelectSeq(QRefs(g, s), LAMBDA r : QOutside(g, s, r))
  IN IF ~QKnown(g, s) THEN (IF e.sub = <<0>> THEN "right" ELSE "should be refused")
     ELSE IF e.sub # Sorted(s) THEN "other nodes"
     ELSE IF ~GAcyclic(QSubgraph(g, s, want0)) THEN (IF e.err THEN "right" ELSE "cyclic")
     ELSE IF e.err THEN "failed"
     ELSE IF Len(e.ins) # Cardinality(want) THEN "other number of inputs"
     ELSE IF ~e.named THEN \* inputs and nodes of equal names: some correspondence must fit
          LET any == SelectSeq(QRefs(g, s), LAMBDA r : QOutside(g, s, r))
              uniq == [k \in 1..Cardinality(want) |-> any[CHOOSE i \in 1..Len(any) : Cardinality(QEnc(SubSeq(any, 1, i))) = k /\ (i = 1 \/ Cardinality(QEnc(SubSeq(any, 1, i - 1))) = k - 1)]]
          IN IF \E p \in QPerms(Len(uniq)) : QComputes(g, s, [k \in 1..Len(uniq) |-> uniq[p[k]]], e) THEN "right" ELSE "other values"
     ELSE IF QEnc(e.ins) # want THEN "other inputs"
     ELSE IF QComputes(g, s, e.ins, e) THEN "right" ELSE "other values"

(* ---- data flows of a region ---- *)
QPlans(g, e) ==
  LET back == GBack(g, {e.node}, {})
      n == GNode(g, e.node)
  IN IF e.node \notin GIds(g) \/ ~GAcyclic(g) \/ ~QKnown(g, back) THEN (IF e.refused THEN "right" ELSE "should be refused")
     ELSE IF e.refused THEN "refused"
     ELSE IF Len(e.plans) # Len(e.flows) THEN "other number of plans"
     ELSE IF \A i \in 1..Len(e.flows) :
               LET p == e.plans[i] IN
               /\ p[1] = e.flows[i]
               /\ QOrder(g, p[2], IF e.flows[i][1] = "in" THEN back \ {e.node} ELSE back)
               /\ ToJson(p[3]) = ToJson(IF e.flows[i][1] = "in" THEN n.args ELSE <<<<"node", e.node>>>>)
               /\ Len(p[4]) = (IF e.flows[i][1] = "in" THEN Len(n.kw) ELSE 0)
               /\ QEnc(p[4]) = (IF e.flows[i][1] = "in" THEN QEnc(n.kw) ELSE {})
          THEN "right" ELSE "other plan"

QStep(st, e) ==
  LET g == st[e.g]
      R(x) == [st |-> st, out |-> x]
  IN CASE e.op = "topo" -> R(QTopo(g, e))
       [] e.op = "ancestors" -> R(QAncestors(g, e))
       [] e.op = "cycle" -> R(QCycle(e))
       [] e.op = "extract" -> R(QExtract(g, e))
       [] e.op = "bind" -> R(QPlans(g, e))
       [] OTHER -> HStep(st, e)
================================================================================
