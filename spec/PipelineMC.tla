------------------------------- MODULE PipelineMC -------------------------------
(* All short edit histories: edits keep the pipeline runnable, keep the order and     *)
(* the inputs of what they do not mention, and can be undone where that makes sense.   *)
EXTENDS Pipeline
CONSTANTS Depth, Gen
VARIABLES s, hist, prev
Names == {"a", "b", "c", "d"}
Id == Len(hist) + 1
Edits ==
  {[op |-> "register", id |-> Id, fn |-> Id, name |-> n, cap |-> (Id % 2) = 0, ev |-> TRUE] : n \in Names}
  \cup {[op |-> "after", id |-> Id, fn |-> Id, name |-> n, target |-> t, cap |-> TRUE] : n \in Names, t \in Names}
  \cup {[op |-> "before", id |-> Id, fn |-> Id, name |-> n, target |-> t, cap |-> TRUE, explicit |-> FALSE, on |-> <<>>] : n \in Names, t \in Names}
  \cup {[op |-> "replace", id |-> Id, fn |-> Id, name |-> n, target |-> t, keep |-> TRUE, cap |-> FALSE] : n \in Names \cup {""}, t \in Names}
  \cup {[op |-> o, stage |-> n, dep |-> t] : o \in {"add", "remove"}, n \in Names, t \in Names}
Start == <<[op |-> "register", id |-> 1, fn |-> 1, name |-> "a", cap |-> FALSE, ev |-> TRUE],
           [op |-> "register", id |-> 2, fn |-> 2, name |-> "b", cap |-> TRUE, ev |-> TRUE],
           [op |-> "register", id |-> 3, fn |-> 3, name |-> "c", cap |-> TRUE, ev |-> TRUE],
           [op |-> "add", stage |-> "c", dep |-> "b"], [op |-> "add", stage |-> "c", dep |-> "a"]>>
RECURSIVE Play(_, _)
Play(st, es) == IF es = <<>> THEN st ELSE Play(PStep(st, es[1]).st, Tail(es))
Init == s = Play(PInit, Start) /\ hist = Start /\ prev = PInit
Next == /\ Len(hist) < Len(Start) + Depth
        /\ \E e \in Edits : /\ (IF e.op = "register" THEN ~PHas(s, e.name) ELSE TRUE)
                            /\ s' = PStep(s, e).st /\ hist' = Append(hist, e) /\ prev' = s
Last == hist[Len(hist)]
Runnable == PRunnable(s, PRange(s.order))
Distinct == \A i, j \in 1..Len(s.order) : i # j => s.refs[s.order[i]].name # s.refs[s.order[j]].name
Known == s.cap \subseteq PRange(s.order) /\ s.ev \subseteq PRange(s.order)
\* A stage's inputs only change if the edit names it or what it reads; the number of inputs only by add, remove and before.
Wiring == \A x \in PRange(s.order) \cap PRange(prev.order) :
  (prev.refs[x].deps # s.refs[x].deps) =>
     \/ Last.op \in {"add", "remove"} /\ s.refs[x].name = Last.stage
     \/ Last.op = "before" /\ s.refs[x].name = Last.target
     \/ Last.op \in {"after", "replace"} /\ Len(prev.refs[x].deps) = Len(s.refs[x].deps)
          /\ \A i \in 1..Len(s.refs[x].deps) : s.refs[x].deps[i] # prev.refs[x].deps[i] => prev.refs[prev.refs[x].deps[i]].name = Last.target
Positions == \A i, j \in 1..Len(prev.order) : (i < j /\ prev.order[i] \in PRange(s.order) /\ prev.order[j] \in PRange(s.order)) =>
  \E k, l \in 1..Len(s.order) : k < l /\ s.order[k] = prev.order[i] /\ s.order[l] = prev.order[j]
Emit == (Gen /\ Len(hist) = Len(Start) + Depth) => PrintT("VFGEN " \o ToJson(hist))
================================================================================
