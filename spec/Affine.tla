-------------------------------- MODULE Affine --------------------------------
(* Affine quantization (fastforward.quantization.affine).  Reals are rationals:  *)
(* a tensor holds integers in units of 1/D, a scale is S/D with the same D, an   *)
(* offset is O/Q with Q = OffsetUnit.  All quantities below are exact.           *)
EXTENDS Tiling

FloorDiv(p, q) == IF q > 0 THEN p \div q ELSE (-p) \div (-q)   \* \div floors
(* nearest integer to p/q (q > 0), ties to even                                  *)
RoundHalfEven(p, q) ==
  LET f == FloorDiv(2 * p + q, 2 * q)                \* round half up
      tie == (2 * p + q) % (2 * q) = 0
  IN IF tie /\ f % 2 = 1 THEN f - 1 ELSE f
OffsetUnit == 4
RoundOffset(O) == RoundHalfEven(O, OffsetUnit)

IntMin(b) == -(2 ^ (b - 1))
IntMax(b) == 2 ^ (b - 1) - 1
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v

(* a code: nearest (even on ties) to x/s - ro, clipped                           *)
Unclipped(X, S, O) == RoundHalfEven(X - RoundOffset(O) * S, S)
Code(X, S, O, b) == Clamp(Unclipped(X, S, O), IntMin(b), IntMax(b))
(* the represented value, in units of 1/D                                        *)
Deq(c, S, O) == (c + RoundOffset(O)) * S
Clipped(X, S, O, b) == Unclipped(X, S, O) < IntMin(b) \/ Unclipped(X, S, O) > IntMax(b)

(* ------------------------------------------------------------- whole tensors *)
(* xs: flat data; Ss, Os: parameters per tile                                    *)
Par(ps, t) == IF Len(ps) = 1 THEN ps[1] ELSE ps[t + 1]
Codes(xs, shape, tile, Ss, Os, b) ==
  [k \in DOMAIN xs |-> LET t == TileOf(shape, tile, k - 1) IN Code(xs[k], Par(Ss, t), Par(Os, t), b)]
Deqs(cs, shape, tile, Ss, Os) ==
  [k \in DOMAIN cs |-> LET t == TileOf(shape, tile, k - 1) IN Deq(cs[k], Par(Ss, t), Par(Os, t))]

(* ------------------------------------------------------------------ gradients *)
(* G: output gradients (integers).                                               *)
DataGrad(xs, shape, tile, Ss, Os, b, G) ==
  [k \in DOMAIN xs |-> LET t == TileOf(shape, tile, k - 1) IN
                       IF Clipped(xs[k], Par(Ss, t), Par(Os, t), b) THEN 0 ELSE G[k]]
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))
(* d deq / d scale for one element, times S (so that it is an integer): the code  *)
(* minus the unrounded code inside, the clip bound plus the offset outside        *)
ScaleSlope(X, S, O, b) ==
  IF Clipped(X, S, O, b) THEN (Code(X, S, O, b) + RoundOffset(O)) * S
  ELSE Deq(Code(X, S, O, b), S, O) - X
TileSum(f(_), shape, tile, t) ==
  LET row == Rows(shape, tile)[t] IN SumSeq([w \in DOMAIN row |-> f(row[w] + 1)])
\* per tile, to be divided by the tile's S
ScaleGrad(xs, shape, tile, Ss, Os, b, G) ==
  [t \in 1..NumTiles(shape, tile) |->
     TileSum(LAMBDA k : G[k] * ScaleSlope(xs[k], Par(Ss, t - 1), Par(Os, t - 1), b), shape, tile, t)]
\* per tile, in units of 1/D
OffsetGrad(xs, shape, tile, Ss, Os, b, G) ==
  [t \in 1..NumTiles(shape, tile) |->
     TileSum(LAMBDA k : IF Clipped(xs[k], Par(Ss, t - 1), Par(Os, t - 1), b) THEN G[k] * Par(Ss, t - 1) ELSE 0, shape, tile, t)]

(* ------------------------------------------------------- parameters for ranges *)
(* ranges are lo, hi in units of 1/D per tile.  A rational is <<p, q>> (units of  *)
(* 1/D for scales, plain for offsets); scales of degenerate ranges are <<0, 1>>:  *)
(* the smallest positive scale the library uses.                                  *)
Steps(b) == 2 ^ b - 1
OneSided(lo, allow) == allow /\ \A t \in DOMAIN lo : lo[t] >= 0
Abs(x) == IF x < 0 THEN -x ELSE x
RatMax(a, b) == IF a[1] * b[2] >= b[1] * a[2] THEN a ELSE b
ParamsForRange(lo, hi, b, sym, allow) ==
  LET one == OneSided(lo, allow)
      l(t) == IF sym /\ one THEN 0 ELSE lo[t]
  IN IF sym /\ ~one
     THEN [kind |-> "symmetric",
           scale |-> [t \in DOMAIN lo |-> RatMax(<<Abs(lo[t]), 2 ^ (b - 1)>>, <<Abs(hi[t]), IntMax(b)>>)],
           offset |-> <<>>]
     ELSE [kind |-> IF sym THEN "onesided" ELSE "asymmetric",
           scale |-> [t \in DOMAIN lo |-> <<hi[t] - l(t), Steps(b)>>],
           offset |-> [t \in DOMAIN lo |->
              IF hi[t] = l(t) THEN <<0, 0>>            \* lo / tiny: only its sign matters
              ELSE <<l(t) * Steps(b) - IntMin(b) * (hi[t] - l(t)), hi[t] - l(t)>>]]
(* the interval the parameters represent, as rationals in units of 1/D            *)
RangeOf(p, b) ==
  [t \in DOMAIN p.scale |->
     LET s == p.scale[t] IN
     IF p.kind = "symmetric" THEN <<<<IntMin(b) * s[1], s[2]>>, <<IntMax(b) * s[1], s[2]>>>>
     ELSE IF p.offset[t][2] = 0 THEN <<<<0, 1>>, <<0, 1>>>>
     ELSE LET o == p.offset[t] IN
          <<<<((IntMin(b) * o[2] + o[1]) * s[1]) \div o[2], s[2]>>,
            <<((IntMax(b) * o[2] + o[1]) * s[1]) \div o[2], s[2]>>>>]
===============================================================================
