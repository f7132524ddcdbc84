-------------------------------- MODULE ReduceMC --------------------------------
(* Graphs of four leaves, some of them in a fold, with one or two requests: the     *)
(* units partition the leaves, contain every request, are as coarse as possible,    *)
(* and can be run one after the other.                                               *)
EXTENDS Reduce, SequencesExt
CONSTANTS Gen, Pairs
VARIABLES deps, inFold, specs, todo
Ids == 1..4
Leaf(i) == [id |-> i, label |-> i, how |-> "mod", outs |-> <<>>, args |-> <<<<"in", 9>>>> \o [k \in 1..Cardinality(deps[i]) |-> <<"node", Sorted(deps[i])[k]>>],
            kw |-> <<>>, parent |-> IF i \in inFold THEN 5 ELSE 0, fold |-> FALSE]
Outside == UNION {deps[i] : i \in inFold} \ inFold
Fold == [id |-> 5, label |-> 5, how |-> "mod", fold |-> TRUE, parent |-> 0, kw |-> <<>>, args |-> [k \in 1..Cardinality(Outside) |-> <<"node", Sorted(Outside)[k]>>],
         outs |-> [k \in 1..Cardinality(inFold) |-> <<"node", Sorted(inFold)[k]>>]]
G == [ins |-> <<<<9, "x">>>>, outs |-> <<<<"node", 4>>>>, nodes |-> (IF inFold = {} THEN <<>> ELSE <<Fold>>) \o [i \in 1..4 |-> Leaf(i)]]
Single == {[kind |-> "mod", mods |-> <<i>>] : i \in 1..6}
            \cup {[kind |-> "span", mods |-> <<i, j>>] : i, j \in Ids}
            \cup UNION {{[kind |-> "group", mods |-> <<i, j>>] : j \in {x \in Ids : x > i}} : i \in Ids}
Init == /\ deps \in {d \in [Ids -> SUBSET Ids] : \A i \in Ids : \A j \in d[i] : j < i}
        /\ inFold \in {{}} \cup {s \in SUBSET Ids : Cardinality(s) = 2}
        /\ specs \in {<<>>} \cup {<<s>> : s \in Single} \cup (IF Pairs THEN {<<s, t>> : s, t \in Single} ELSE {})
        /\ todo = TRUE
Next == todo /\ todo' = FALSE /\ UNCHANGED <<deps, inFold, specs>>
Regions == [i \in 1..Len(specs) |-> RNodes(G, specs[i])]
Units == RUnits(G, Regions)
Partition == RValid(G, specs) =>
  /\ \A id \in GLeaves(G) : Cardinality({u \in Units : id \in RCover(G, u)}) = 1
  /\ \A i \in 1..Len(specs) : Regions[i] \in Units
Coarse == RValid(G, specs) /\ inFold # {} /\ (\A i \in 1..Len(specs) : RCover(G, Regions[i]) \cap inFold = {}) => {5} \in Units
\* Running the units in an order of the quotient visits every leaf after what it reads.
RECURSIVE Run(_, _)
Run(units, done) ==
  LET ready == {u \in units : RUnitDeps(G, u, Units) \cap units = {}} IN
  IF units = {} THEN TRUE
  ELSE LET u == CHOOSE u \in ready : TRUE IN
       ready # {} /\ (\A id \in RCover(G, u) : GDepSet(GNode(G, id)) \subseteq done \cup RCover(G, u)) /\ Run(units \ {u}, done \cup RCover(G, u))
Runs == RValid(G, specs) => Run(Units, {})
Ev(i) == [op |-> "node", g |-> 1, id |-> i, label |-> i, args |-> Leaf(i).args, kw |-> <<>>, how |-> "mod", name |-> <<"n3", "blk.n4", "blk.sub.n5", "n6">>[i], order |-> <<>>]
Emit == (Gen /\ todo /\ inFold = {} /\ Len(specs) = 1) => PrintT("VFGEN " \o ToJson(
  <<[op |-> "input", g |-> 1, id |-> 9, name |-> "x", order |-> <<>>], Ev(2), Ev(1), Ev(4), Ev(3), [op |-> "output", g |-> 1, refs |-> <<<<"node", 4>>>>, order |-> <<>>],
    [op |-> "reduce", g |-> 1, specs |-> specs, ins |-> <<<<"x", <<3, 8>>>>>>, call |-> TRUE], [op |-> "reduce", g |-> 1, specs |-> specs, ins |-> <<<<"x", <<3>>>>>>, call |-> FALSE]>>))
================================================================================
