------------------------------- MODULE QueriesMC -------------------------------
(* All graphs of three nodes (cyclic ones included), the second read through an    *)
(* element: the analyses against independent characterisations, and every question *)
(* that can be asked about each of them.                                           *)
EXTENDS Queries, SequencesExt
CONSTANTS Gen
VARIABLES deps, outs, todo
Ids == 1..3
Ref(j) == IF j = 2 THEN <<"attr", <<"node", 2>>, 1>> ELSE <<"node", j>>
NodeEv(i, d) == [op |-> "node", g |-> 1, id |-> i, label |-> i, args |-> <<<<"in", 9>>>> \o [k \in 1..Cardinality(d) |-> Ref(Sorted(d)[k])],
                 kw |-> <<>>, how |-> IF i = 1 THEN "mod" ELSE "fn", name |-> <<"blk.n1", "blk.sub.n2", "n3">>[i], order |-> <<>>]
Build(d, o) == <<[op |-> "input", g |-> 1, id |-> 9, name |-> "x", order |-> <<>>], NodeEv(3, d[3]), NodeEv(1, d[1]), NodeEv(2, d[2]),
                 [op |-> "output", g |-> 1, refs |-> <<Ref(o)>>, order |-> <<>>]>>
RECURSIVE Do(_, _)
Do(s, es) == IF es = <<>> THEN s ELSE Do(HStep(s, es[1]).st, Tail(es))
G == Do(HInit([graphs |-> 1]), Build(deps, outs))[1]
Subs == SetToSeq((SUBSET Ids) \ {{}})
Questions ==
  [i \in 1..9 |-> [op |-> "ancestors", g |-> 1, node |-> 1 + ((i - 1) % 3), stop |-> 1 + ((i - 1) \div 3), strict |-> TRUE]]
  \o [i \in 1..12 |-> [op |-> "ancestors", g |-> 1, node |-> 1 + ((i - 1) % 3), stop |-> (i - 1) \div 3, strict |-> FALSE]]
  \o [i \in 1..Len(Subs) |-> [op |-> "topo", g |-> 1, of |-> SetToSeq(Subs[i])]]
  \o [i \in 1..Len(Subs) |-> [op |-> "extract", g |-> 1, of |-> SetToSeq(Subs[i]), batches |-> 2, named |-> TRUE]]
  \o [i \in 1..3 |-> [op |-> "bind", g |-> 1, node |-> i, flows |-> <<<<"in", "original", 1>>, <<"out", "any", 0>>>>]]
  \o <<[op |-> "cycle", g |-> 1, edges |-> [i \in 1..3 |-> <<i, Sorted(deps[i])>>]]>>
\* Only the ancestors questions have answers that do not quote the reply.
Answer(q) == IF q.op = "ancestors" THEN q @@ [out |-> QAncestors(G, q)] ELSE q
Init == deps \in [Ids -> SUBSET Ids] /\ outs \in Ids /\ todo = TRUE
Next == todo /\ todo' = FALSE /\ UNCHANGED <<deps, outs>>
Emit == (Gen /\ todo) => PrintT("VFGEN " \o ToJson(Build(deps, outs) \o [i \in 1..Len(Questions) |-> Answer(Questions[i])]))

Acyc == GAcyclic(G) <=> \A i \in Ids : i \notin QDeps(G, i)
Cyc == QCyclic([i \in 1..3 |-> <<i, Sorted(deps[i])>>]) <=> ~GAcyclic(G)
Anc == \A i \in Ids : GBack(G, {i}, {}) = {i} \cup QDeps(G, i)
Star(i) == {i} \cup QDeps(G, i)
Paths == GAcyclic(G) => \A n, s \in Ids :
           LET a == QAncestors(G, [node |-> n, stop |-> s, strict |-> TRUE])
           IN a = (IF s \in Star(n) THEN <<Sorted({x \in Star(n) : s \in Star(x)}), TRUE>> ELSE <<<<>>, FALSE>>)
\* Running an extracted subgraph on what its inputs stand for gives the values its nodes have in the graph.
Extracts == GAcyclic(G) => \A s \in (SUBSET Ids) \ {{}} :
  LET ins == <<<<9, <<5, 6>>>>>>
      env == GEval(G, GEnv0, Ids, ins)
      rs == SelectSeq(QRefs(G, s), LAMBDA r : QOutside(G, s, r))
      h == QSubgraph(G, s, rs)
      henv == GEval(h, GEnv0, s, [k \in 1..Len(rs) |-> <<k, GRefVal(rs[k], env, ins).v>>])
  IN \A id \in s : henv[id].v = env[id].v
================================================================================
