--------------------------------- MODULE Graph ---------------------------------
(* Static call graphs (C20, C21, C24): what a graph denotes.                      *)
(*                                                                                *)
(* References   <<"in", i>>, <<"node", id>>, <<"const", v>>, <<"attr", ref, key>>  *)
(* Node         [id, label, args (refs), kw (pairs <<key, ref>>), parent, fold]    *)
(* Graph        [ins (pairs <<input id, name>>), nodes, outs (refs)]               *)
(*                                                                                *)
(* Every node label denotes its own injective-by-hash function of its arguments,   *)
(* so two graphs agree on all labels iff they perform the same composition.        *)
(* A value stream is a sequence of batches; streams of one batch broadcast.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

GMOD == 999983
RECURSIVE GFold(_, _)
GFold(acc, s) == IF s = <<>> THEN acc ELSE GFold((((acc * 1009) + s[1]) + 7) % GMOD, Tail(s))
GApply(label, args, kw) == GFold(GFold((label * 7919) % GMOD, args), [i \in 1..(2 * Len(kw)) |-> IF i % 2 = 1 THEN kw[(i + 1) \div 2][1] ELSE kw[i \div 2][2]])
GAttr(v, key) == GFold(31337, <<v, key + 50>>)

RECURSIVE GBase(_)
GBase(r) == IF r[1] = "attr" THEN GBase(r[2]) ELSE r
GRefs(n) == n.args \o [i \in 1..Len(n.kw) |-> n.kw[i][2]]

\* Nodes a node reads directly, in argument order without repetitions.
RECURSIVE GUniq(_)
GUniq(s) == IF s = <<>> THEN <<>> ELSE LET p == GUniq(SubSeq(s, 1, Len(s) - 1)) IN
            IF \E i \in 1..Len(p) : p[i] = s[Len(s)] THEN p ELSE Append(p, s[Len(s)])
GDeps(n) == LET b == SelectSeq([i \in 1..Len(GRefs(n)) |-> GBase(GRefs(n)[i])], LAMBDA r : r[1] = "node")
            IN GUniq([i \in 1..Len(b) |-> b[i][2]])
GRange(s) == {s[i] : i \in DOMAIN s}
GDepSet(n) == GRange(GDeps(n))

GIds(g) == {g.nodes[i].id : i \in 1..Len(g.nodes)}
GNode(g, id) == g.nodes[CHOOSE i \in 1..Len(g.nodes) : g.nodes[i].id = id]
GLeaves(g) == {id \in GIds(g) : ~GNode(g, id).fold}

\* Leaves that can be put in an order in which each follows its dependencies.
RECURSIVE GSortable(_, _)
GSortable(g, done) ==
  LET more == {id \in GLeaves(g) \ done : GDepSet(GNode(g, id)) \subseteq done}
  IN IF more = {} THEN done ELSE GSortable(g, done \cup more)
GAcyclic(g) == GSortable(g, {}) = GLeaves(g)

\* Nodes `from` transitively depends on (including `from`), never looking past `stop`.
RECURSIVE GBack(_, _, _)
GBack(g, s, stop) ==
  LET more == UNION {IF id \in stop THEN {} ELSE GDepSet(GNode(g, id)) : id \in s \cap GIds(g)} \ s
  IN IF more = {} THEN s ELSE GBack(g, s \cup more, stop)
\* Nodes fed by `s`, within `within`.
GUsers(g, id) == {x \in GIds(g) : id \in GDepSet(GNode(g, x))}
RECURSIVE GForw(_, _, _)
GForw(g, s, within) ==
  LET more == (UNION {GUsers(g, id) : id \in s} \cap within) \ s
  IN IF more = {} THEN s ELSE GForw(g, s \cup more, within)

GOutIds(g) == {GBase(g.outs[i])[2] : i \in 1..Len(g.outs)}
GNeeded(g) == GBack(g, GOutIds(g), {})

(* ---- execution ---- *)
Bad == [ok |-> FALSE, v |-> <<>>]
Ok(v) == [ok |-> TRUE, v |-> v]
GBroadLen(lens) == IF lens = {} THEN 1 ELSE IF Cardinality(lens) = 1 THEN CHOOSE l \in lens : TRUE
                   ELSE IF Cardinality(lens \ {1}) = 1 THEN CHOOSE l \in lens \ {1} : TRUE ELSE -1
GAt(s, i) == IF Len(s) = 1 THEN s[1] ELSE s[i]

RECURSIVE GRefVal(_, _, _)
\* env: values of nodes; ins: pairs <<input id, stream>>
GRefVal(r, env, ins) ==
  CASE r[1] = "const" -> Ok(<<r[2]>>)
    [] r[1] = "in" -> IF \E i \in 1..Len(ins) : ins[i][1] = r[2] THEN Ok(ins[CHOOSE i \in 1..Len(ins) : ins[i][1] = r[2]][2]) ELSE Bad
    [] r[1] = "node" -> env[r[2]]
    [] r[1] = "attr" -> LET b == GRefVal(r[2], env, ins) IN IF b.ok THEN Ok([i \in 1..Len(b.v) |-> GAttr(b.v[i], r[3])]) ELSE Bad

GNodeVal(n, env, ins) ==
  LET a == [i \in 1..Len(n.args) |-> GRefVal(n.args[i], env, ins)]
      k == [i \in 1..Len(n.kw) |-> GRefVal(n.kw[i][2], env, ins)]
      all == a \o k
      len == GBroadLen({Len(all[i].v) : i \in 1..Len(all)})
  IN IF \E i \in 1..Len(all) : ~all[i].ok THEN Bad ELSE IF len = -1 THEN Bad
     ELSE Ok([b \in 1..len |-> GApply(n.label, [i \in 1..Len(a) |-> GAt(a[i].v, b)], [i \in 1..Len(k) |-> <<n.kw[i][1], GAt(k[i].v, b)>>])])

RECURSIVE GEval(_, _, _, _)
GEval(g, env, todo, ins) ==
  LET ready == {id \in todo : GDepSet(GNode(g, id)) \cap todo = {}}
  IN IF todo = {} THEN env
     ELSE GEval(g, [id \in DOMAIN env \cup ready |-> IF id \in ready THEN GNodeVal(GNode(g, id), env, ins) ELSE env[id]], todo \ ready, ins)
GEnv0 == [id \in {} |-> Bad]

\* The result of running g: only nodes its outputs depend on run, each once per batch.
\* [err |-> TRUE] or the outputs per batch (a tuple when there are several) and the number of calls per label.
GRun(g, ins) ==
  IF ~GAcyclic(g) \/ ~(GNeeded(g) \subseteq GIds(g)) THEN [err |-> TRUE, out |-> <<>>, calls |-> <<>>]
  ELSE LET env == GEval(g, GEnv0, GNeeded(g), ins)
           o == [i \in 1..Len(g.outs) |-> GRefVal(g.outs[i], env, ins)]
           len == GBroadLen({Len(o[i].v) : i \in 1..Len(o)})
           labels == {GNode(g, id).label : id \in GNeeded(g)}
       IN IF (\E id \in GNeeded(g) : ~env[id].ok) \/ (\E i \in 1..Len(o) : ~o[i].ok) THEN [err |-> TRUE, out |-> <<>>, calls |-> <<>>]
          ELSE IF len = -1 THEN [err |-> TRUE, out |-> <<>>, calls |-> <<>>]
          ELSE [err |-> FALSE,
                out |-> IF g.outs = <<>> THEN <<>> ELSE [b \in 1..len |-> [i \in 1..Len(o) |-> GAt(o[i].v, b)]],
                calls |-> [l \in 1..20 |-> LET ids == {id \in GNeeded(g) : GNode(g, id).label = l}
                                               RECURSIVE Sum(_)
                                               Sum(s) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN Len(env[x].v) + Sum(s \ {x})
                                           IN Sum(ids)]]

(* ---- composition ---- *)
RECURSIVE GRemap(_, _)
\* bind: pairs <<input id, ref>>
GRemap(r, bind) ==
  CASE r[1] = "in" -> IF \E i \in 1..Len(bind) : bind[i][1] = r[2] THEN bind[CHOOSE i \in 1..Len(bind) : bind[i][1] = r[2]][2] ELSE r
    [] r[1] = "attr" -> <<"attr", GRemap(r[2], bind), r[3]>>
    [] OTHER -> r
GRemapNode(n, bind, fold) ==
  [n EXCEPT !.args = [i \in 1..Len(@) |-> GRemap(@[i], bind)], !.kw = [i \in 1..Len(@) |-> <<@[i][1], GRemap(@[i][2], bind)>>],
            !.parent = IF @ = 0 THEN fold ELSE @]

(* ---- hierarchy ---- *)
RECURSIVE GUnder(_, _)
GUnder(g, f) == LET ch == {id \in GIds(g) : GNode(g, id).parent = f} IN ch \cup UNION {GUnder(g, c) : c \in ch}
GLeavesUnder(g, f) == {id \in GUnder(g, f) : ~GNode(g, id).fold}
\* Leaves of a fold read by leaves outside of it or returned by the graph.
GFoldOuts(g, f) == {id \in GLeavesUnder(g, f) :
                      \/ id \in GOutIds(g)
                      \/ \E u \in GUsers(g, id) : u \notin GLeavesUnder(g, f) /\ ~GNode(g, u).fold}
================================================================================
