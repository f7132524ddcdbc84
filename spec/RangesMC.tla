-------------------------------- MODULE RangesMC --------------------------------
EXTENDS Ranges, Json
CONSTANTS Len0
VARIABLES hist, st, prev, seen
Cfg == [q |-> <<[kind |-> "lin", bits |-> 2], [kind |-> "lin", bits |-> 2], [kind |-> "other", bits |-> 2]>>]
Data == {<< <<0, 4>> >>, << <<-8, 2>> >>, << <<12, 1>> >>}
\* seen[i]: rows that reached quantizer i since scope 1 was opened
Init == hist = <<>> /\ st = InitSt(Cfg) /\ prev = st /\ seen = [i \in 1..3 |-> {}]
Cands == <<[s |-> 4, lo |-> -2], [s |-> 8, lo |-> -1], [s |-> 4, lo |-> 0]>>
Open(id, m, est) == [op |-> "open", id |-> id, members |-> m, est |-> est, gamma |-> 2, disable |-> id = 2, every |-> 1, cands |-> Cands, skip |-> id = 1]
NextId == 1 + Cardinality({k \in DOMAIN hist : hist[k].op = "open"})
Events0 == {[op |-> "batch", q |-> i, data |-> d] : i \in 1..3, d \in Data}
  \cup {Open(NextId, m, est) : m \in {<<1>>, <<1, 2>>, <<2, 3>>}, est \in {"running", "smoothed", "grid"}}
  \cup {[op |-> "close", id |-> st.scopes[k].id] : k \in DOMAIN st.scopes}
Next == Len(hist) < Len0 /\ \E e \in Events0 :
          LET r == Step(st, e) IN st' = r.st /\ hist' = Append(hist, e) /\ prev' = st
             /\ seen' = IF e.op = "batch" /\ st.scopes # <<>> THEN [seen EXCEPT ![e.q] = @ \cup Elems(e.data[1])] ELSE IF e.op = "open" /\ st.scopes = <<>> THEN [i \in 1..3 |-> {}] ELSE seen
L1 == hist[Len(hist)]
Act(s, i) == \E k \in DOMAIN s.scopes : i \in s.scopes[k].members
Fresh == Cardinality({k \in DOMAIN hist : hist[k].op = "open"}) = 1
Inv ==
  /\ hist # <<>> =>
     /\ \A i \in 1..3 : st.q[i].range # prev.q[i].range => L1.op = "batch" /\ L1.q = i /\ Act(prev, i)       \* only participants that see data
     /\ (L1.op = "open" /\ L1.members = <<2, 3>> /\ ~L1.skip) => st = prev
  \* a single estimation by running minimum and maximum yields the extremes of all data
  /\ (Fresh /\ Len(st.scopes) = 1 /\ st.scopes[1].est = "running") =>
       \A i \in st.scopes[1].members : seen[i] # {} => st.q[i].range = << << <<U * MinOf(seen[i]), U * MaxOf(seen[i])>> >> >>
  \* smoothing stays within the extremes
  /\ (Fresh /\ Len(st.scopes) = 1 /\ st.scopes[1].est = "smoothed") =>
       \A i \in st.scopes[1].members : seen[i] # {} => st.q[i].range[1][1][1] >= U * MinOf(seen[i]) /\ st.q[i].range[1][1][2] <= U * MaxOf(seen[i])
  \* the chosen candidate is one with the least total error
  /\ \A k \in DOMAIN st.scopes : st.scopes[k].est = "grid" => \A i \in st.scopes[k].members : st.scopes[k].s[i].errs # <<>> =>
        \A c \in Elems(RangeOf(st.scopes[k], st.scopes[k].s[i], 2)[1]) : \E x \in DOMAIN Cands : c = CandRange(Cands[x], 2) /\ \A y \in DOMAIN Cands : st.scopes[k].s[i].errs[1][x] <= st.scopes[k].s[i].errs[1][y]
================================================================================
