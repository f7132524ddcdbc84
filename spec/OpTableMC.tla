------------------------------ MODULE OpTableMC ------------------------------
EXTENDS OpTable, Json
CONSTANTS Len0, Gen
VARIABLES n, st, prev, last, res, hist
Cfg == [names |-> [n1 |-> "f1", m1 |-> "f1", n2 |-> "f2", n3 |-> "f3", gone |-> ""], dispatch |-> <<"relu">>, ext |-> <<"fallback", "ident">>]
Universe == [pys |-> <<"f1", "f2", "f3">>, strs |-> <<"n1", "m1", "n2", "n3", "gone", "op:relu", "op:other", "al">>]
AddE(f, i, d, as) == [op |-> "add", id |-> n + 1, fallback |-> f, ident |-> i, dispatch |-> d, aliases |-> as]
Events == {AddE(f, i, d, as) : f \in {"n1", "m1", "n2", "gone"}, i \in {"relu", "other"}, d \in {TRUE}, as \in {<<>>, <<"n2", "n3">>, <<"n3", "gone">>, <<"m1">>}}
          \cup {AddE("n1", i, FALSE, <<>>) : i \in {"relu", "other"}}
          \cup {[op |-> "alias", alias |-> "al", callable |-> c, target |-> t] : c \in {""}, t \in {"n1", "n3", "al"}} \cup {[op |-> "alias", alias |-> "n1", callable |-> "f2", target |-> ""]}
Init == n = 0 /\ st = TInit(Cfg) /\ prev = st /\ last = [op |-> "none"] /\ res = "" /\ hist = <<>>
Next == n < Len0 /\ n' = n + 1 /\ \E e \in Events :
  LET r == TStep(st, e @@ Universe) IN st' = r.st /\ prev' = st /\ last' = e /\ res' = r.out[1] /\ hist' = IF Gen THEN Append(hist, (e @@ Universe) @@ [out |-> r.out]) ELSE <<>>
AllOps(s) == Concat(s.entries)
Inv ==
  /\ res = "refused" => st = prev
  /\ Cardinality(Range(AllOps(st))) = Len(AllOps(st))                                     \* every operator is in the table once
  /\ \A f \in DOMAIN st.index : st.index[f] \in DOMAIN st.entries
  /\ \A f \in DOMAIN prev.index : f \in DOMAIN st.index /\ st.index[f] = prev.index[f]     \* no callable changes sides
  /\ \A i \in DOMAIN prev.entries : SubSeq(st.entries[i], 1, Len(prev.entries[i])) = prev.entries[i]
  /\ \A f, g \in DOMAIN st.index : st.index[f] = st.index[g] \/ Range(Found(st, f)) \cap Range(Found(st, g)) = {}
  /\ (last.op = "add" /\ res = "ok") =>
       /\ Found(st, Cfg.names[last.fallback])[1] = last.id                                 \* latest first
       /\ \A a \in Range(last.aliases) : Cfg.names[a] # "" => Found(st, Cfg.names[a]) = Found(st, Cfg.names[last.fallback]) /\ ByName(st, a) = Found(st, Cfg.names[a])
       /\ ByName(st, last.fallback)[1] = last.id /\ ByName(st, "op:" \o last.ident)[1] = last.id
  /\ (last.op = "alias" /\ res = "ok" /\ last.callable = "" /\ last.target # last.alias) => ByName(st, last.alias) = ByName(st, last.target)
Ps == {<<>>, <<[name |-> "a", default |-> FALSE]>>, <<[name |-> "a", default |-> FALSE], [name |-> "b", default |-> TRUE]>>, <<[name |-> "a", default |-> TRUE], [name |-> "b", default |-> FALSE]>>}
Kws == {<<>>, <<"a">>, <<"b">>, <<"a", "b">>, <<"b", "a">>, <<"q">>, <<"q", "b">>}
ASSUME \A ps \in Ps, k \in 0..3, kws \in Kws :
  /\ Valid(ps, k, kws) => Binds(ps, {"q"}, k, kws)
  /\ Binds(ps, {"q"}, k, kws) => Cardinality(Range(Bound(ps, k, kws))) = k + Len(kws)      \* one parameter per argument
  /\ (Binds(ps, {}, k, kws) /\ k + Len(kws) = Len(ps)) => Valid(ps, k, kws)
Emit == (Gen /\ n = Len0) => PrintT("VFGEN " \o ToJson(hist))
==============================================================================
