------------------------------ MODULE Overrides ------------------------------
(* Quantizer overrides, disable/enable scopes and copies                       *)
(* (fastforward.forward_override, fastforward.overrides).                      *)
(*                                                                             *)
(* State: per quantizer the sequence of active overrides, oldest first; the    *)
(* enabled bit of every disable-override object; the strictness flag; the      *)
(* stack of open scopes.                                                       *)
(* A quantizer computes 2x+1 on integers; override functions are               *)
(*   wrap k : 3*next(x+1)+k     block k : x+k  (does not call next)            *)
(*   twice k: next(x)+next(x+k)   (calls next twice)                           *)
(*   off o  : x if object o is not enabled, next(x) otherwise                  *)
(* Every override function reports its number (a function may be registered    *)
(* several times), the quantizer reports 0.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

InitSt(cfg) ==
  [q |-> [i \in 1..cfg.n |-> <<>>],     \* sequences of [id, kind, k, obj]
   en |-> <<>>,                          \* enabled bit per disable object
   strict |-> cfg.strict, scopes |-> <<>>, nid |-> 0, cfg |-> cfg,
   models |-> cfg.models, shared |-> <<>>]

RECURSIVE Run(_, _, _, _)
Run(st, ovs, n, x) ==        \* the n oldest overrides are still to be applied
  IF n = 0 THEN [v |-> 2*x + 1, log |-> <<0>>]
  ELSE LET o == ovs[n] IN
    CASE o.kind = "wrap" -> LET r == Run(st, ovs, n-1, x+1) IN [v |-> 3*r.v + o.k, log |-> <<o.fn>> \o r.log]
      [] o.kind = "block" -> [v |-> x + o.k, log |-> <<o.fn>>]
      [] o.kind = "twice" -> LET a == Run(st, ovs, n-1, x)
                                 b == Run(st, ovs, n-1, x + o.k)
                             IN [v |-> a.v + b.v, log |-> <<o.fn>> \o a.log \o b.log]
      [] o.kind = "off" -> IF st.en[o.obj] THEN Run(st, ovs, n-1, x) ELSE [v |-> x, log |-> <<>>]
Call(st, i, x) == Run(st, st.q[i], Len(st.q[i]), x)

Obs(st) == <<[i \in DOMAIN st.q |-> LET r == Call(st, i, 5) IN <<r.v, r.log>>], st.strict>>

Add(st, i, o) == [st EXCEPT !.q[i] = Append(@, o)]
Drop(st, ids) == [st EXCEPT !.q = [i \in DOMAIN @ |-> SelectSeq(@[i], LAMBDA o : ~(<<i, o.id>> \in ids))]]

RECURSIVE AddOffs(_, _)
\* one fresh disabled object per quantizer of the model
AddOffs(st, qs) ==
  IF qs = <<>> THEN st
  ELSE LET obj == Len(st.en) + 1
           s == [st EXCEPT !.en = Append(@, FALSE), !.nid = @ + 1,
                           !.q[qs[1]] = Append(@, [id |-> st.nid + 1, kind |-> "off", fn |-> 0, k |-> 0, obj |-> obj])]
       IN AddOffs(s, Tail(qs))

Range(s) == {s[i] : i \in DOMAIN s}
OffObjs(st, qs) == {o.obj : o \in {x \in UNION {Range(st.q[i]) : i \in Range(qs)} : x.kind = "off"}}

Pop(st) == LET t == st.scopes[Len(st.scopes)]
               s == [st EXCEPT !.scopes = SubSeq(@, 1, Len(@) - 1)]
           IN CASE t.kind = "disable" -> [Drop(s, t.ids) EXCEPT !.strict = t.strict]
                [] t.kind = "enable" -> [s EXCEPT !.en = [o \in DOMAIN @ |-> IF o \in t.objs THEN t.old[o] ELSE @[o]]]
RECURSIVE PopN(_, _)
PopN(st, n) == IF n = 0 THEN st ELSE PopN(Pop(st), n - 1)

RECURSIVE Attach(_, _, _)
Attach(st, obj, qs) ==
  IF qs = <<>> THEN st
  ELSE Attach([st EXCEPT !.nid = @ + 1, !.q[qs[1]] = Append(@, [id |-> st.nid + 1, kind |-> "off", fn |-> 0, k |-> 0, obj |-> obj])],
              obj, Tail(qs))

(* copying a set of quantizers: every copy gets its own disable objects        *)
RECURSIVE CopyAll(_, _)
CopyAll(st, qs) ==
  IF qs = <<>> THEN st
  ELSE LET ovs == st.q[qs[1]]
           objs == {ovs[j].obj : j \in {j \in DOMAIN ovs : ovs[j].kind = "off"}}
           n == Len(st.en)
           ord == [o \in objs |-> n + Cardinality({p \in objs : p <= o})]
           en2 == [x \in 1..(n + Cardinality(objs)) |->
                     IF x <= n THEN st.en[x] ELSE st.en[CHOOSE o \in objs : ord[o] = x]]
           new == [j \in DOMAIN ovs |-> IF ovs[j].kind = "off" THEN [ovs[j] EXCEPT !.obj = ord[ovs[j].obj]] ELSE ovs[j]]
       IN CopyAll([st EXCEPT !.q = Append(@, new), !.en = en2], Tail(qs))

Events(st) == {}
Step(st, e) ==
  CASE e.op = "reg" ->
         LET s == Add([st EXCEPT !.nid = @ + 1], e.q, [id |-> st.nid + 1, kind |-> e.kind, fn |-> e.fn, k |-> e.k, obj |-> 0])
         IN [st |-> s, out |-> Obs(s)]
    [] e.op = "rem" ->                 \* through the handle: only the quantizer it was made for
         LET had == \E j \in DOMAIN st.q[e.q] : st.q[e.q][j].id = e.id
             s == Drop(st, {<<e.q, e.id>>})
         IN [st |-> s, out |-> Obs(s) \o <<IF had THEN "fn" ELSE "none">>]
    [] e.op = "copy" -> LET s == CopyAll(st, <<e.q>>) IN [st |-> s, out |-> Obs(s)]
    [] e.op = "disable" ->
         LET qs == st.models[e.m]
             s == AddOffs(st, qs)
             ids == {<<qs[j], st.nid + j>> : j \in DOMAIN qs}
             s2 == [s EXCEPT !.scopes = Append(@, [kind |-> "disable", ids |-> ids, strict |-> st.strict]), !.strict = FALSE]
         IN [st |-> s2, out |-> Obs(s2)]
    [] e.op = "enable" ->
         LET objs == OffObjs(st, st.models[e.m])
             s2 == [st EXCEPT !.scopes = Append(@, [kind |-> "enable", objs |-> objs, old |-> st.en]),
                              !.en = [o \in DOMAIN @ |-> o \in objs \/ @[o]]]
         IN [st |-> s2, out |-> Obs(s2)]
    [] e.op = "exit" -> LET s == PopN(st, e.n) IN [st |-> s, out |-> Obs(s)]
    [] e.op = "attach" ->              \* a user made disable object attached to several quantizers
         LET obj == Len(st.en) + 1
             s == Attach([st EXCEPT !.en = Append(@, FALSE)], obj, e.qs)
             s2 == [s EXCEPT !.shared = Append(@, [obj |-> obj, ids |-> {<<e.qs[j], st.nid + j>> : j \in DOMAIN e.qs}])]
         IN [st |-> s2, out |-> Obs(s2)]
    [] e.op = "detach" ->
         LET s == Drop(st, st.shared[e.a].ids) IN [st |-> s, out |-> Obs(s)]
    [] e.op = "toggle" ->              \* enable_quantization(v) / disable_quantization() without scope
         LET s == [st EXCEPT !.en[st.shared[e.a].obj] = e.v] IN [st |-> s, out |-> Obs(s)]
    [] e.op = "scoped" ->              \* the same call used as a scope
         LET o == st.shared[e.a].obj
             s2 == [st EXCEPT !.scopes = Append(@, [kind |-> "enable", objs |-> {o}, old |-> st.en]), !.en[o] = e.v]
         IN [st |-> s2, out |-> Obs(s2)]
    [] e.op = "strict" -> LET s == [st EXCEPT !.strict = e.v] IN [st |-> s, out |-> Obs(s)]
===============================================================================
