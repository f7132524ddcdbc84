------------------------------- MODULE QuantInitMC -------------------------------
EXTENDS QuantInit, Json
CONSTANTS Len0
VARIABLES hist, st, prev
Cfg == [loc |-> <<[quant |-> TRUE], [quant |-> TRUE], [quant |-> FALSE]>>, uni |-> << <<"a">>, <<"b">> >>, scored |-> "rule"]
P(l, k, t) == [op |-> "put", at |-> l, kind |-> k, has |-> k = 0, tags |-> <<t>>, kw |-> <<>>]
Starts == { <<P(1, 0, <<"a">>), P(2, 0, <<"b">>), P(3, 0, <<"a">>)>>, <<P(1, 0, <<"a">>), P(2, 0, <<"a">>), [op |-> "share", at |-> 3, of |-> 2]>>,
            <<P(1, 0, <<"a">>), P(1, 2, <<"a">>), P(2, 0, <<"b">>), [op |-> "share", at |-> 3, of |-> 1]>> }
RECURSIVE Run(_, _)
Run(s, es) == IF es = <<>> THEN s ELSE Run(QStep(s, Head(es)).st, Tail(es))
Init == hist = <<>> /\ \E s \in Starts : st = Run(QInit(Cfg), s) /\ prev = st
Q == {[locs |-> <<1, 2, 3>>, tags |-> <<>>], [locs |-> <<1, 2, 3>>, tags |-> << <<"a">> >>], [locs |-> <<2>>, tags |-> <<>>]}
Events0 ==
  {[op |-> "rule", locs |-> q.locs, tags |-> q.tags, kind |-> 3 + Len(st.rules), score |-> <<s>>] : q \in Q, s \in {1, 2}}
  \cup {[op |-> "init", policy |-> p, safe |-> TRUE, etype |-> "QuantizationError"] : p \in {"error", "skip", "overwrite"}}
  \cup UNION {{[op |-> "coll", locs |-> q.locs, tags |-> q.tags, found |-> f] : f \in {f \in {<<1>>, <<2>>, <<3>>, <<1, 2>>, <<1, 2, 3>>, <<1, 3>>} : CollOk(st, [locs |-> q.locs, tags |-> q.tags, found |-> f])}} : q \in Q}
  \cup {[op |-> "cinit", c |-> c, policy |-> p, safe |-> sf, kind |-> 9, etype |-> "ValueError"] : c \in DOMAIN st.colls, p \in {"skip", "overwrite"}, sf \in BOOLEAN}
  \cup {P(1, 2, <<"a">>)}
Next == Len(hist) < Len0 /\ \E e \in Events0 : LET r == QStep(st, e) IN st' = r.st /\ hist' = Append(hist, [e |-> e, out |-> r.out]) /\ prev' = st
L1 == hist[Len(hist)]
Loc == 1..3
Inv == hist # <<>> =>
  LET e == L1.e IN
  /\ e.op = "init" =>
     /\ L1.out[1] = "ok" =>
        /\ \A l \in Loc : prev.at[l] # 0 =>
             LET q == prev.at[l] IN
             /\ Candidates(prev, q) = {} => st.at[l] = q                                   \* unselected: untouched
             /\ (Candidates(prev, q) # {} /\ e.policy = "skip" /\ ~IsStub(prev, q)) => st.at[l] = q
             /\ (Candidates(prev, q) # {} /\ (IsStub(prev, q) \/ e.policy = "overwrite")) =>
                  /\ st.at[l] # q
                  /\ \E i \in Candidates(prev, q) : st.quants[st.at[l]].kind = prev.rules[i].kind
                       /\ \A j \in Candidates(prev, q) : prev.rules[j].score[1] <= prev.rules[i].score[1] /\ (prev.rules[j].score[1] = prev.rules[i].score[1] => j <= i)
             /\ Idx(st, MetaAt(st, l), 1) = Idx(prev, MetaAt(prev, l), 1)                    \* tags carry over
        /\ \A l, m \in Loc : prev.at[l] = prev.at[m] <=> st.at[l] = st.at[m]                \* sharing
     /\ L1.out[1] # "ok" => st = prev
     /\ e.policy = "error" => \A l \in Loc : (prev.at[l] # 0 /\ ~IsStub(prev, prev.at[l])) => st.at[l] = prev.at[l]
  /\ (e.op = "cinit" /\ L1.out[1] = "ok") => \A l \in Loc : (\A i \in DOMAIN prev.colls[e.c] : prev.colls[e.c][i].q # prev.at[l] /\ prev.colls[e.c][i].l # l) => st.at[l] = prev.at[l]
  /\ (e.op = "cinit" /\ L1.out[1] # "ok") => st = prev
================================================================================
