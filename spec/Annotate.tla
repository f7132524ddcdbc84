------------------------------- MODULE Annotate -------------------------------
(* Operator annotation: nodes in execution order, node i is an operator              *)
(* [op, in] or a quantizer [q, in] (in: earlier nodes, 0 is the model's input).       *)
(* A quantizer is "after" the operator that made its input (through quantizers) and   *)
(* "before" every operator that uses its output.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Maker(_, _)
Maker(ns, i) == IF i = 0 THEN 0 ELSE IF ns[i].kind = "op" THEN i ELSE Maker(ns, ns[i].in[1])
UsesOf(ns, i) == {j \in DOMAIN ns : ns[j].kind = "op" /\ \E k \in DOMAIN ns[j].in : ns[j].in[k] = i}
\* quantizers have names; the same quantizer may be used by several nodes
Nodes(ns, q) == {i \in DOMAIN ns : ns[i].kind = "q" /\ ns[i].name = q}
After(ns, q) == {ns[Maker(ns, i)].name : i \in {i \in Nodes(ns, q) : Maker(ns, i) # 0}}
Before(ns, q) == {ns[j].name : j \in UNION {UsesOf(ns, i) : i \in Nodes(ns, q)}}
Has(x) == [i \in DOMAIN x.quants |->
   [k \in DOMAIN x.ops |-> <<IF x.ops[k] \in After(x.nodes, x.quants[i]) THEN 1 ELSE 0, IF x.ops[k] \in Before(x.nodes, x.quants[i]) THEN 1 ELSE 0>>]]
===============================================================================
