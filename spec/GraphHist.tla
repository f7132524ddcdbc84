------------------------------- MODULE GraphHist -------------------------------
(* Building and running graphs (C20): a machine over several graphs with the       *)
(* operations input / node / output / sub (inline a graph into another) / run.     *)
EXTENDS Graph, SequencesExt

HEmpty == [ins |-> <<>>, nodes |-> <<>>, outs |-> <<>>]
HInit(cfg) == [i \in 1..cfg.graphs |-> HEmpty]

Sorted(s) == SetToSortSeq(s, LAMBDA a, b : a < b)
HNames(g) == [i \in 1..Len(g.ins) |-> g.ins[i][2]]
HShape(g) ==
  LET l == Sorted(GLeaves(g))
      f == Sorted(GIds(g) \ GLeaves(g))
  IN <<HNames(g),
       [i \in 1..Len(l) |-> <<l[i], GDeps(GNode(g, l[i])), Sorted(GUsers(g, l[i]) \cap GLeaves(g))>>],
       [i \in 1..Len(f) |-> <<f[i], Sorted(GLeavesUnder(g, f[i])), Sorted(GFoldOuts(g, f[i]))>>]>>

\* An order lists every leaf once, after everything it reads.
HOrder(g, o) ==
  /\ Len(o) = Cardinality(GLeaves(g))
  /\ GRange(o) = GLeaves(g)
  /\ \A i \in 1..Len(o) : GDepSet(GNode(g, o[i])) \subseteq {o[j] : j \in 1..(i - 1)}
HTopo(g, o) == IF GAcyclic(g) THEN (IF o # <<0>> /\ HOrder(g, o) THEN "ordered" ELSE "not an order")
               ELSE IF o = <<0>> THEN "ordered" ELSE "should be refused"

HReply(st, i, res, e) == [st |-> st, out |-> <<res, HShape(st[i]), HTopo(st[i], e.order)>>]
HIn(g, name) == \E i \in 1..Len(g.ins) : g.ins[i][2] = name
HIdOf(g, name) == g.ins[CHOOSE i \in 1..Len(g.ins) : g.ins[i][2] = name][1]

HClosed(h, r) == CASE r[1] = "node" -> r[2] \in GIds(h) [] r[1] = "in" -> \E i \in 1..Len(h.ins) : h.ins[i][1] = r[2] [] OTHER -> TRUE
HSub(st, e) ==
  LET g == st[e.g] h == st[e.h]
      names == HNames(h)
      pos == [i \in 1..Len(e.args) |-> <<h.ins[i][1], e.args[i]>>]
      kw == [i \in 1..Len(e.kw) |-> <<HIdOf(h, e.kw[i][1]), e.kw[i][2]>>]
      valid == /\ h.outs # <<>>
               /\ Len(e.args) + Len(e.kw) = Len(h.ins)
               /\ \A i \in 1..Len(e.kw) : HIn(h, e.kw[i][1]) /\ \A j \in 1..Len(e.args) : names[j] # e.kw[i][1]
               /\ GIds(g) \cap GIds(h) = {}
               /\ \A i \in 1..Len(h.nodes) : \A j \in 1..Len(GRefs(h.nodes[i])) : HClosed(h, GBase(GRefs(h.nodes[i])[j]))
      bind == pos \o kw
      order == [i \in 1..Len(h.ins) |-> <<"in", h.ins[i][1]>>]
      fold == [id |-> e.id, label |-> e.label, how |-> "mod", outs |-> h.outs, fold |-> TRUE, parent |-> 0, kw |-> e.kw,
               args |-> LET o == SelectSeq(order, LAMBDA r : ~\E i \in 1..Len(e.kw) : HIdOf(h, e.kw[i][1]) = r[2]) IN [i \in 1..Len(o) |-> GRemap(o[i], bind)]]
      inl == [i \in 1..Len(h.nodes) |-> GRemapNode(h.nodes[i], bind, IF e.orig THEN e.id ELSE 0)]
  IN IF ~valid THEN HReply(st, e.g, "refused", e)
     ELSE HReply([st EXCEPT ![e.g].nodes = @ \o (IF e.orig THEN <<fold>> ELSE <<>>) \o inl], e.g, h.outs, e)

HRunIns(g, ins) == [i \in 1..Len(ins) |-> <<HIdOf(g, ins[i][1]), ins[i][2]>>]
HStep(st, e) ==
  LET g == st[e.g] IN
  CASE e.op = "input" -> IF HIn(g, e.name) THEN HReply(st, e.g, "refused", e)
                         ELSE HReply([st EXCEPT ![e.g].ins = Append(@, <<e.id, e.name>>)], e.g, "ok", e)
    [] e.op = "node" -> IF e.id \in GIds(g) THEN HReply(st, e.g, "refused", e)
                        ELSE HReply([st EXCEPT ![e.g].nodes = Append(@, [id |-> e.id, label |-> e.label, how |-> e.how, outs |-> <<>>, args |-> e.args, kw |-> e.kw, parent |-> 0, fold |-> FALSE])], e.g, "ok", e)
    [] e.op = "output" -> IF \E i \in 1..Len(e.refs) : GBase(e.refs[i])[1] # "node" \/ (GBase(e.refs[i])[1] = "node" /\ GBase(e.refs[i])[2] \notin GIds(g))
                          THEN HReply(st, e.g, "refused", e)
                          ELSE HReply([st EXCEPT ![e.g].outs = @ \o e.refs], e.g, "ok", e)
    [] e.op = "sub" -> HSub(st, e)
    [] e.op = "run" -> IF e.bad \/ Len(e.ins) # Len(g.ins) \/ \E i \in 1..Len(e.ins) : ~HIn(g, e.ins[i][1])
                       THEN [st |-> st, out |-> <<"error">>]
                       ELSE LET r == GRun(g, HRunIns(g, e.ins)) IN
                            IF r.err THEN [st |-> st, out |-> <<"error">>]
                            ELSE [st |-> st, out |-> <<r.out, r.calls>>]
================================================================================
