------------------------------ MODULE Lifecycle ------------------------------
(* The life of quantizers: creation, range setting, loading, resetting,        *)
(* copying, pickling and use (fastforward.nn.quantizer, linear_quantizer,      *)
(* dynamic_linear_quantizer).                                                  *)
(*                                                                             *)
(* A state is a sequence of quantizers, in order of creation:                  *)
(*   kind   "stub" | "sym" | "one" | "asym" (static; "one" may be one-sided)   *)
(*          | "dynsym" | "dynone" | "dynasym"                                  *)
(*   bits, gran ("t": one parameter, "c": one per row), dtype                  *)
(*   scale  <<>> while uninitialized, else per tile in units of 1/D            *)
(*   offset likewise in units of 1/OU; always <<>> for "sym"                   *)
(*   grad   whether parameters are trainable                                   *)
(* Ranges and data are integers in units of 1/D.                               *)
EXTENDS Affine, FiniteSets
OU == 840
Static(k) == k \in {"sym", "one", "asym"}
HasOffset(k) == k \in {"one", "asym"}
Sym(k) == k \in {"sym", "one", "dynsym", "dynone"}
Allow(k) == k \in {"one", "dynone"}
Lazy(q) == Static(q.kind) /\ (q.scale = <<>> \/ (HasOffset(q.kind) /\ q.offset = <<>>))
Fresh(e) == [kind |-> e.kind, bits |-> e.bits, gran |-> e.gran, dtype |-> e.dtype, scale |-> <<>>, offset |-> <<>>, grad |-> TRUE]

Expand(s, n) == IF Len(s) = n THEN s ELSE [i \in 1..n |-> s[1]]
Fits(s, n) == Len(s) \in {1, n}
Max2(a, b) == IF a > b THEN a ELSE b
Exact(r, u) == (r[1] * u) \div r[2]
\* scale (units of 1/D) and offset (units of 1/OU) for a range
Par840(lo, hi, b, kind) ==
  LET p == ParamsForRange(lo, hi, b, Sym(kind), Allow(kind)) IN
  [scale |-> [t \in DOMAIN lo |-> Exact(p.scale[t], 1)],
   offset |-> IF p.offset = <<>> THEN [t \in DOMAIN lo |-> 0] ELSE [t \in DOMAIN lo |-> Exact(p.offset[t], OU)]]

(* ----------------------------------------------------------- range setting *)
\* the number of parameters a range is applied to
Width(q, lo) == IF q.scale # <<>> THEN Len(q.scale) ELSE IF q.offset # <<>> THEN Len(q.offset) ELSE Len(lo)
RangeOk(q, e) ==
  LET m == Max2(Len(e.lo), Len(e.hi)) IN
  /\ e.form \in {"tensor", "float"} /\ Len(e.lo) > 0 /\ Len(e.hi) > 0
  /\ Fits(e.lo, m) /\ Fits(e.hi, m)
  /\ Fits([i \in 1..m |-> 0], Width(q, e.lo))
SetRange(q, e) ==
  LET m == Max2(Len(e.lo), Len(e.hi))
      n == Width(q, e.lo)
      p == Par840(Expand(e.lo, m), Expand(e.hi, m), q.bits, q.kind)
  IN [q EXCEPT !.scale = Expand(p.scale, n), !.offset = IF HasOffset(q.kind) THEN Expand(p.offset, n) ELSE <<>>]
GetRange(q) ==
  IF Lazy(q) THEN <<>>
  ELSE [t \in DOMAIN q.scale |->
          LET o == IF HasOffset(q.kind) THEN q.offset[t] ELSE 0 IN
          <<(IntMin(q.bits) * OU + o) * q.scale[t], (IntMax(q.bits) * OU + o) * q.scale[t]>>]

\* observed bounds are floating point numbers: a few units in the last place off
Near(a, b) == Abs(a - b) <= 8 + (Abs(b) \div 1000000)
Observed(got, g) == IF Len(got) = Len(g) /\ \A t \in DOMAIN g : Near(got[t][1], g[t][1]) /\ Near(got[t][2], g[t][2]) THEN got ELSE g

(* ------------------------------------------------------------------ loading *)
(* e.keys: the parameters taken from quantizer e.src.  Every parameter that is *)
(* present, initialized and fits is loaded; anything else is reported.         *)
Own(q, k) == IF k = "scale" THEN Static(q.kind) ELSE HasOffset(q.kind)
Val(q, k) == IF k = "scale" THEN q.scale ELSE q.offset
Offered(s, e) == {k \in {"scale", "offset"} : k \in {e.keys[i] : i \in DOMAIN e.keys} /\ Own(s[e.src], k)}
Loads(q, s, e, k) == /\ k \in Offered(s, e) /\ Own(q, k) /\ Val(s[e.src], k) # <<>>
                     /\ (Val(q, k) = <<>> \/ Len(Val(q, k)) = Len(Val(s[e.src], k)))
Misfit(q, s, e) == \E k \in Offered(s, e) : Own(q, k) /\ Val(q, k) # <<>> /\ Len(Val(q, k)) # Len(Val(s[e.src], k))
Mismatch(q, s, e) == \E k \in {"scale", "offset"} : Own(q, k) # (k \in Offered(s, e))
LoadOk(q, s, e) == ~Misfit(q, s, e) /\ (e.strict => ~Mismatch(q, s, e))
Load(q, s, e) == [q EXCEPT !.scale = IF Loads(q, s, e, "scale") THEN s[e.src].scale ELSE @,
                           !.offset = IF Loads(q, s, e, "offset") THEN s[e.src].offset ELSE @]

(* -------------------------------------------------------------- quantization *)
(* data: two rows of equal length                                              *)
Row(e, t) == e.x[t]
Lo(r) == CHOOSE v \in {r[i] : i \in DOMAIN r} : \A i \in DOMAIN r : v <= r[i]
Hi(r) == CHOOSE v \in {r[i] : i \in DOMAIN r} : \A i \in DOMAIN r : v >= r[i]
CodeOf(X, S, O, b) == LET ro == RoundHalfEven(O, OU) IN Clamp(RoundHalfEven(X - ro * S, S), IntMin(b), IntMax(b))
Tiles(q, x) == IF q.gran = "c" THEN x ELSE <<x[1] \o x[2]>>
Dynamic(q, x) ==
  LET ts == Tiles(q, x) IN Par840([t \in DOMAIN ts |-> Lo(ts[t])], [t \in DOMAIN ts |-> Hi(ts[t])], q.bits, q.kind)
Applied(q, x) == IF Static(q.kind) THEN [scale |-> q.scale, offset |-> IF HasOffset(q.kind) THEN q.offset ELSE [t \in DOMAIN q.scale |-> 0]]
                 ELSE Dynamic(q, x)
QuantOk(q, x) == ~Lazy(q) /\ (Static(q.kind) => Len(q.scale) \in {1, Len(Tiles(q, x))})
Quantized(q, x) ==
  LET p == Applied(q, x) IN
  [t \in DOMAIN x |-> [i \in DOMAIN x[t] |->
     LET k == IF Len(p.scale) = 1 THEN 1 ELSE t IN CodeOf(x[t][i], p.scale[k], p.offset[k], q.bits)]]

(* ------------------------------------------------------------------- steps *)
(* out: <<result, all quantizers>>                                             *)
LInit(cfg) == <<>>
View(q) == <<q.kind, q.bits, q.gran, q.dtype, q.scale, q.offset, q.grad>>
R(s, res) == [st |-> s, out |-> <<res, [i \in DOMAIN s |-> View(s[i])]>>]
Bad == <<"refused">>
Ok == <<"ok">>
LStep(s, e) ==
  CASE e.op = "new" -> R(Append(s, Fresh(e)), Ok)
    [] e.op = "range" -> IF RangeOk(s[e.q], e) THEN R([s EXCEPT ![e.q] = SetRange(@, e)], Ok) ELSE R(s, Bad)
    [] e.op = "getrange" -> R(s, <<"range", Observed(e.got, GetRange(s[e.q]))>>)
    [] e.op = "reset" -> R([s EXCEPT ![e.q] = [@ EXCEPT !.scale = <<>>, !.offset = <<>>, !.grad = TRUE]], Ok)
    [] e.op = "bits" -> R([s EXCEPT ![e.q].bits = e.bits], Ok)
    [] e.op = "gran" -> R([s EXCEPT ![e.q].gran = e.gran], Ok)
    [] e.op = "train" -> R([s EXCEPT ![e.q].scale = [t \in DOMAIN @ |-> @[t] * e.k]], Ok)
    [] e.op = "freeze" -> R([s EXCEPT ![e.q].grad = e.grad], Ok)
    [] e.op = "copy" -> R(s \o [i \in DOMAIN e.qs |-> s[e.qs[i]]], <<"same", e.qs>>)
    [] e.op = "overridden" -> R(s, Bad)      \* a quantizer with an override is not stored
    [] e.op = "yaml" -> R(Append(s, [s[e.q] EXCEPT !.scale = <<>>, !.offset = <<>>, !.grad = TRUE]), Ok)
    [] e.op = "load" -> R([s EXCEPT ![e.q] = Load(@, s, e)], IF LoadOk(s[e.q], s, e) THEN Ok ELSE Bad)
    [] e.op = "quantize" ->
         IF s[e.q].kind = "stub" THEN R(s, <<"identity">>)
         ELSE IF QuantOk(s[e.q], e.x) THEN R(s, <<"codes", Quantized(s[e.q], e.x)>>) ELSE R(s, Bad)
==============================================================================
