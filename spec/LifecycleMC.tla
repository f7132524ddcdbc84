----------------------------- MODULE LifecycleMC -----------------------------
EXTENDS Lifecycle, TLC, Json
CONSTANTS Len0, Gen
VARIABLES n, st, prev, last, out, hist
vars == <<n, st, prev, last, out, hist>>
Kinds == {"stub", "sym", "one", "asym", "dynasym"}
New(k) == [op |-> "new", kind |-> k, bits |-> 2, gran |-> "t", dtype |-> "float32"]
Rng(q, lo, hi, f) == [op |-> "range", q |-> q, lo |-> lo, hi |-> hi, form |-> f]
Events(s) ==
  {New(k) : k \in IF Len(s) < 2 THEN Kinds ELSE {}}
  \cup UNION {
     (IF Static(s[q].kind) THEN
        {Rng(q, <<-840>>, <<1680>>, "tensor"), Rng(q, <<0>>, <<840>>, "float"), Rng(q, <<-840, -1680>>, <<840, 840>>, "tensor"),
         Rng(q, <<-840, -840>>, <<840, 840, 840>>, "tensor"), Rng(q, <<-840>>, <<840>>, "single")}
        \cup {[op |-> "reset", q |-> q], [op |-> "bits", q |-> q, bits |-> 3]}
        \cup {[op |-> "load", q |-> q, src |-> p, keys |-> ks, strict |-> TRUE] : p \in {i \in DOMAIN s : Static(s[i].kind) /\ ~Lazy(s[i])}, ks \in {<<"scale">>, <<"scale", "offset">>}}
      ELSE {})
     \cup (IF Len(s) < 3 THEN {[op |-> "copy", qs |-> <<q>>, how |-> h] : h \in {"deepcopy", "pickle"}} ELSE {})
     \cup {[op |-> "quantize", q |-> q, x |-> <<<<-840, 420>>, <<840, 0>>>>], [op |-> "getrange", q |-> q, got |-> <<>>]} : q \in {i \in DOMAIN s : s[i].kind # "stub" \/ TRUE}}
Init == n = 0 /\ st = <<>> /\ prev = <<>> /\ last = [op |-> "none"] /\ out = <<>> /\ hist = <<>>
Next == n < Len0 /\ n' = n + 1 /\ \E e \in Events(st) :
  (e.op = "getrange" => Static(st[e.q].kind)) /\
  LET r == LStep(st, e) IN st' = r.st /\ out' = r.out /\ prev' = st /\ last' = e /\ hist' = IF Gen THEN Append(hist, e @@ [out |-> r.out]) ELSE <<>>
Spec == Init /\ [][Next]_vars
Touched == IF last.op \in {"new", "copy", "none", "quantize", "getrange"} THEN {} ELSE {last.q}
Inv ==
  /\ \A q \in DOMAIN prev \ Touched : st[q] = prev[q]                         \* nothing else changes; copies are independent
  /\ \A q \in DOMAIN st : /\ st[q].kind = "sym" => st[q].offset = <<>>
                          /\ (~Lazy(st[q]) /\ HasOffset(st[q].kind)) => Len(st[q].offset) = Len(st[q].scale)
                          /\ ~Static(st[q].kind) => st[q].scale = <<>>
  /\ (last.op # "none" /\ out[1] = Bad /\ last.op # "load") => st = prev      \* refused operations change nothing
  /\ last.op = "quantize" =>
       LET q == prev[last.q] IN
       /\ q.kind = "stub" => out[1] = <<"identity">>
       /\ Lazy(q) => out[1] = Bad
       /\ out[1][1] = "codes" => \A t \in DOMAIN out[1][2] : \A i \in DOMAIN out[1][2][t] : out[1][2][t][i] \in IntMin(q.bits)..IntMax(q.bits)
  /\ (last.op = "range" /\ out[1] = Ok) =>                                    \* the new range covers the requested one
       LET q == st[last.q] g == GetRange(q) IN
       /\ ~Lazy(q)
       /\ \A t \in DOMAIN g : LET lo == last.lo[IF Len(last.lo) = 1 THEN 1 ELSE t] hi == last.hi[IF Len(last.hi) = 1 THEN 1 ELSE t]
                              IN g[t][1] <= lo * OU /\ g[t][2] >= hi * OU
  /\ (last.op = "range" /\ Lazy(prev[last.q]) /\ prev[last.q].scale = <<>> /\ prev[last.q].offset = <<>>) =>
       (Lazy(st[last.q]) <=> out[1] = Bad)
  /\ last.op = "copy" => st[Len(st)] = prev[last.qs[1]]
  /\ last.op = "reset" => Lazy(st[last.q]) /\ [st[last.q] EXCEPT !.scale = prev[last.q].scale, !.offset = prev[last.q].offset, !.grad = prev[last.q].grad] = prev[last.q]
Emit == (Gen /\ n = Len0) => PrintT("VFGEN " \o ToJson(hist))
==============================================================================
