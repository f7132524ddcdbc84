------------------------------- MODULE OpTable -------------------------------
(* The table of quantized operators (fastforward._quantops.optable): which     *)
(* operators a callable, a name or an alias stands for after a history of      *)
(* additions, and which calls bind to an operator (…operator, …symtypes).      *)
(*                                                                             *)
(* cfg.names: qualified name -> callable ("" when it cannot be imported)       *)
(* cfg.dispatch: identifiers with a default implementation                     *)
(* cfg.ext: alias extensions in use ("fallback", "ident")                      *)
(* state: entries  sequence of [ops: sequence of operator ids]                 *)
(*        index    callable -> entry, alias  name -> callable                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Range(s) == {s[i] : i \in DOMAIN s}
Put(f, k, v) == (k :> v) @@ f
EmptyF == [k \in {} |-> 0]
TInit(cfg) == [cfg |-> cfg, entries |-> <<>>, index |-> EmptyF, alias |-> EmptyF]

RECURSIVE PutAll(_, _)
PutAll(f, ps) == IF ps = <<>> THEN f ELSE PutAll(Put(f, ps[1][1], ps[1][2]), Tail(ps))

Add(s, e) ==
  LET py == s.cfg.names[e.fallback]
      has == py \in DOMAIN s.index
      slot == IF has THEN s.index[py] ELSE Len(s.entries) + 1
      known == SelectSeq(e.aliases, LAMBDA a : s.cfg.names[a] # "")
      taken == \E a \in Range(known) : s.cfg.names[a] \in DOMAIN s.index /\ s.index[s.cfg.names[a]] # slot
      \* a new fallback is in the table before its aliases
      refused == py = "" \/ (~e.dispatch /\ e.ident \notin Range(s.cfg.dispatch)) \/ taken
      ext == (IF "fallback" \in Range(s.cfg.ext) THEN <<<<e.fallback, py>>>> ELSE <<>>) \o (IF "ident" \in Range(s.cfg.ext) THEN <<<<"op:" \o e.ident, py>>>> ELSE <<>>)
      cals == [i \in DOMAIN known |-> <<known[i], s.cfg.names[known[i]]>>]
  IN IF refused THEN [st |-> s, res |-> "refused"]
     ELSE [st |-> [s EXCEPT !.entries = IF has THEN [@ EXCEPT ![slot] = Append(@, e.id)] ELSE Append(@, <<e.id>>),
                            !.index = PutAll(Put(@, py, slot), [i \in DOMAIN cals |-> <<cals[i][2], slot>>]),
                            !.alias = PutAll(@, ext \o cals)],
           res |-> "ok"]
\* an alias of a callable, or of another alias
Alias(s, e) ==
  LET py == IF e.callable # "" THEN e.callable ELSE IF e.target \in DOMAIN s.alias THEN s.alias[e.target] ELSE "" IN
  IF py = "" THEN [st |-> s, res |-> "refused"] ELSE [st |-> [s EXCEPT !.alias = Put(@, e.alias, py)], res |-> "ok"]

Rev(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
Found(s, py) == IF py \in DOMAIN s.index THEN Rev(s.entries[s.index[py]]) ELSE <<>>
ByName(s, a) == IF a \in DOMAIN s.alias THEN Found(s, s.alias[a]) ELSE <<>>
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Concat(Tail(ss))
\* what lookups return: every callable, every name, and the list of operators
View(s, e) == <<[i \in DOMAIN e.pys |-> Found(s, e.pys[i])], [i \in DOMAIN e.strs |-> ByName(s, e.strs[i])], Concat(s.entries)>>
TStep(s, e) ==
  LET r == IF e.op = "add" THEN Add(s, e) ELSE Alias(s, e) IN
  [st |-> r.st, out |-> <<r.res, View(r.st, e)>>]

(* ------------------------------------------------------------------ binding *)
(* params: sequence of [name, default]; a call has n positional arguments and  *)
(* keyword arguments kws (distinct names).  extra: keyword parameters of the   *)
(* quantized function.                                                         *)
Names(ps) == [i \in DOMAIN ps |-> ps[i].name]
Binds(ps, extra, n, kws) ==
  LET given == {ps[i].name : i \in 1..n} IN
  /\ n <= Len(ps)
  /\ \A k \in Range(kws) : k \in Range(Names(ps)) \cup extra /\ k \notin given
Bound(ps, n, kws) == [i \in 1..n |-> ps[i].name] \o kws
Valid(ps, n, kws) ==
  /\ Binds(ps, {}, n, kws)
  /\ \A i \in DOMAIN ps : ps[i].default \/ i <= n \/ ps[i].name \in Range(kws)
Extra(x) == {"strict_quantization"} \cup (IF x.quantized THEN {"output_quantizer"} ELSE {}) \cup Range(x.inter)

(* -------------------------------------------------------------------- types *)
(* A type is [k |-> "base"|"union"|"optional"|"list"|"tuple", name, args].     *)
RECURSIVE Variants(_), Norm(_)
Variants(t) == IF t.k = "union" THEN UNION {Variants(t.args[i]) : i \in DOMAIN t.args}
               ELSE IF t.k = "optional" THEN Variants(t.args[1]) \cup {Norm([k |-> "base", name |-> "NoneType", args |-> <<>>])}
               ELSE IF t.k = "base" /\ t.name = "MaybeQuantized" THEN {<<"base", "Tensor">>, <<"base", "QuantizedTensor">>}
               ELSE IF t.k = "base" /\ t.name = "Number" THEN {<<"base", "Int">>, <<"base", "Float">>}
               ELSE {Norm(t)}
IsUnion(t) == t.k \in {"union", "optional"} \/ (t.k = "base" /\ t.name \in {"MaybeQuantized", "Number"})
\* types with the same normal form are equal
Norm(t) == IF IsUnion(t) THEN <<"union", Variants(t)>>
           ELSE IF t.k = "base" THEN <<"base", t.name>>
           ELSE <<t.k, [i \in DOMAIN t.args |-> Norm(t.args[i])]>>
In(a, t) == IF IsUnion(t) THEN Variants(a) \subseteq Variants(t) ELSE Norm(a) = Norm(t)
NoneN == Norm([k |-> "base", name |-> "NoneType", args |-> <<>>])
\* does c equal a with b replaced by r, for a union a
Replaced(a, b, r) == IF In(b, a) THEN (Variants(a) \ Variants(b)) \cup Variants(r) ELSE Variants(a)
==============================================================================
