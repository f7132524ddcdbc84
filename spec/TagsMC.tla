-------------------------------- MODULE TagsMC --------------------------------
EXTENDS Tags, Json
CONSTANTS Len0
VARIABLES hist, st, prev
T == { <<"a">>, <<"a", "b">>, <<"a", "b", "c">>, <<"b">> }
Cfg == [loc |-> <<[quant |-> TRUE], [quant |-> TRUE], [quant |-> FALSE]>>, uni |-> << <<"a">>, <<"a", "b">>, <<"a", "b", "c">>, <<"b">> >>]
Init == hist = <<>> /\ st = InitSt(Cfg) /\ prev = st
L == 1..3
Events0 == {[op |-> "put", at |-> l, kind |-> k, has |-> k = 0, tags |-> <<t>>, kw |-> <<>>] : l \in L, k \in {0, 1}, t \in {<<"a", "b">>, <<"b">>}}
  \cup {[op |-> o, at |-> l, of |-> m] : o \in {"share", "copy"}, l, m \in L}
  \cup {[op |-> "addtag", at |-> l, tag |-> t] : l \in L, t \in {<<"a", "b", "c">>, <<"b">>}}
  \cup {[op |-> "drop", at |-> l] : l \in L}
Next == Len(hist) < Len0 /\ \E e \in Events0 : LET r == TagStep(st, e) IN st' = r.st /\ hist' = Append(hist, e) /\ prev' = st
Last1 == hist[Len(hist)]
Inv ==
  \* metadata is closed under ancestors: a tag matches whenever one of its descendants does
  /\ \A m \in Elems(st.metas) : Closure(m.tags) = m.tags
  /\ \A t \in T : \A p \in Prefixes(t) : SelReps(st, [locs |-> <<1, 2, 3>>, tags |-> <<t>>]) # <<>> => SelReps(st, [locs |-> <<1, 2, 3>>, tags |-> <<p>>]) # <<>>
  /\ hist # <<>> =>
     \* tags are only ever added, and adding one changes only quantizers with that very metadata
     /\ \A i \in DOMAIN prev.metas : prev.metas[i].tags \subseteq st.metas[i].tags
     /\ Last1.op = "addtag" => \A l \in L : MetaAt(prev, l) # MetaAt(prev, Last1.at) => Idx(st, MetaAt(st, l), 1) = Idx(prev, MetaAt(prev, l), 1)
     \* a quantizer put where another one was gets its tags
     /\ (Last1.op = "put" /\ Cfg.loc[Last1.at].quant /\ prev.at[Last1.at] # 0) => MetaAt(st, Last1.at) = st.slot[Last1.at]
     \* a copy does not share metadata with the original
     /\ (Last1.op = "copy" /\ prev.at[Last1.of] # 0 /\ MetaAt(st, Last1.at) # 0 /\ prev.slot[Last1.at] = 0) => \A l \in L \ {Last1.at} : MetaAt(st, l) # MetaAt(st, Last1.at)
================================================================================
