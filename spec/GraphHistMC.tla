------------------------------ MODULE GraphHistMC ------------------------------
(* All bounded histories over two graphs, the second of which may inline the      *)
(* first.  Running a graph does not depend on the order its nodes were added in,  *)
(* and what an inlined graph returns is what running it on its arguments returns. *)
EXTENDS GraphHist, Json
CONSTANTS Len0, Gen
VARIABLES hist, st, good

Steps0 == <<[op |-> "input", g |-> 1, id |-> 1, name |-> "x", order |-> <<>>],
            [op |-> "node", g |-> 1, id |-> 1, label |-> 1, args |-> <<<<"in", 1>>>>, kw |-> <<>>, how |-> "mod", name |-> "blk.n1", order |-> <<>>],
            [op |-> "output", g |-> 1, refs |-> <<<<"attr", <<"node", 1>>, 1>>>>, order |-> <<>>],
            [op |-> "input", g |-> 2, id |-> 2, name |-> "y", order |-> <<>>]>>
Fix(o) == IF Len(o) = 3 THEN [o EXCEPT ![3] = "ordered"] ELSE o
RECURSIVE Do(_, _, _)
Do(s, h, es) == IF es = <<>> THEN [st |-> s, hist |-> h]
                ELSE LET r == HStep(s, es[1]) IN Do(r.st, Append(h, es[1] @@ [out |-> Fix(r.out)]), Tail(es))
Start == Do(HInit([graphs |-> 2]), <<>>, Steps0)
Init == hist = Start.hist /\ st = Start.st /\ good = TRUE

Id == Len(hist) + 10
Sim(g) == {<<"in", g>>} \cup {<<"node", id>> : id \in GLeaves(st[g])}
Refs(g) == Sim(g) \cup {<<"attr", r, 0>> : r \in Sim(g)}
Events ==
  UNION {
     {[op |-> "node", g |-> g, id |-> Id, label |-> 1 + (Id % 12), args |-> a, kw |-> <<>>, how |-> "fn", name |-> <<"n14", "blk.n15", "n14">>[1], order |-> <<>>] : a \in {<<r>> : r \in Refs(g)} \cup {<<r, <<"const", 3>>>> : r \in Sim(g)} \cup {<<<<"node", Id + 1>>>>}}
     \cup {[op |-> "output", g |-> g, refs |-> <<r>>, order |-> <<>>] : r \in Refs(g)}
     \cup {[op |-> "run", g |-> g, ins |-> [i \in 1..Len(st[g].ins) |-> <<st[g].ins[i][2], s>>], form |-> "pos", bad |-> FALSE, bare |-> TRUE] : s \in {<<4>>, <<4, 9>>}}
     : g \in {1, 2}}
  \cup {[op |-> "sub", g |-> 2, h |-> 1, id |-> Id, orig |-> o, label |-> 13, args |-> <<r>>, kw |-> <<>>, name |-> "s", order |-> <<>>] : o \in BOOLEAN, r \in Refs(2)}

Rev(g) == [g EXCEPT !.nodes = [i \in 1..Len(@) |-> @[Len(@) + 1 - i]]]
In2 == <<<<2, <<4, 9>>>>>>
Composes(e, r) ==
  e.op = "sub" /\ ToJson(r.out[1]) # ToJson("refused") /\ GAcyclic(st[1]) /\ GAcyclic(r.st[2]) =>
    LET g == [r.st[2] EXCEPT !.outs = r.out[1]]
        arg == GRun([st[2] EXCEPT !.outs = e.args], In2)
        argv == IF e.args[1] = <<"in", 2>> THEN <<4, 9>> ELSE GRefVal(e.args[1], GEval(st[2], GEnv0, GLeaves(st[2]), In2), In2).v
    IN GRun(g, In2).out = GRun(st[1], <<<<1, argv>>>>).out
Next ==
  /\ Len(hist) < Len(Steps0) + Len0
  /\ \E e \in Events :
       LET r == HStep(st, e) IN
       /\ st' = r.st
       /\ hist' = Append(hist, e @@ [out |-> Fix(r.out)])
       /\ good' = Composes(e, r)
Composition == good
OrderFree == \A g \in 1..2 : GRun(st[g], <<<<g, <<4, 9>>>>>>) = GRun(Rev(st[g]), <<<<g, <<4, 9>>>>>>)
Emit == (Gen /\ Len(hist) = Len(Steps0) + Len0) => PrintT("VFGEN " \o ToJson(hist))
================================================================================
