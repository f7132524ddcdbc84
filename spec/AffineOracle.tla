----------------------------- MODULE AffineOracle -----------------------------
EXTENDS Affine, OracleData
VARIABLE n
(* whether an unrounded quotient is too close to a tie for float arithmetic       *)
NearTie(p, q) == LET m == (2 * p + q) % (2 * q) IN m * 500 < q \/ (2 * q - m) * 500 < q
Static(x) ==
  IF Refuses(x.g, x.shape) THEN Refused
  ELSE LET t == TileSize(x.g, x.shape) IN
       IF ~Compatible(x.shape, t) THEN Refused
       ELSE LET cs == Codes(x.x, x.shape, t, x.S, x.O, x.b) IN <<cs, Deqs(cs, x.shape, t, x.S, x.O)>>
Grad(x) ==
  LET t == TileSize(x.g, x.shape) IN
  <<DataGrad(x.x, x.shape, t, x.S, x.O, x.b, x.G),
    ScaleGrad(x.x, x.shape, t, x.S, x.O, x.b, x.G),
    OffsetGrad(x.x, x.shape, t, x.S, x.O, x.b, x.G)>>
Range(x) == LET p == ParamsForRange(x.lo, x.hi, x.b, x.sym, x.allow) IN <<p.kind, p.scale, p.offset, RangeOf(p, x.b)>>
(* dynamic quantization: the parameters of the observed ranges, then the codes.    *)
(* With scale = p/q (units of 1/D), x/scale - ro = (X*q - ro*p)/p.                  *)
Dynamic(x) ==
  LET t == TileSize(x.g, x.shape)
      rows == Rows(x.shape, t)
      vals(r) == {x.x[rows[r][w] + 1] : w \in DOMAIN rows[r]}
      lo == [r \in DOMAIN rows |-> CHOOSE v \in vals(r) : \A u \in vals(r) : v <= u]
      hi == [r \in DOMAIN rows |-> CHOOSE v \in vals(r) : \A u \in vals(r) : v >= u]
      p == ParamsForRange(lo, hi, x.b, x.sym, x.allow)
      ro(r) == IF p.kind = "symmetric" THEN 0 ELSE RoundHalfEven(p.offset[r][1], p.offset[r][2])
      degenerate(r) == p.scale[r][1] = 0
      badoff(r) == degenerate(r) \/ (p.kind /= "symmetric" /\ NearTie(p.offset[r][1], p.offset[r][2]))
      elem(k) == LET r == TileOf(x.shape, t, k - 1) + 1
                     num == x.x[k] * p.scale[r][2] - ro(r) * p.scale[r][1]
                 IN IF badoff(r) THEN <<>>                      \* not decidable with floats
                    ELSE LET c == Clamp(RoundHalfEven(num, p.scale[r][1]), IntMin(x.b), IntMax(x.b))
                         IN IF NearTie(num, p.scale[r][1]) THEN <<c - 1, c, c + 1>> ELSE <<c>>
  IN <<p.kind, p.scale, p.offset, [r \in DOMAIN rows |-> IF degenerate(r) THEN 0 ELSE ro(r)], [k \in DOMAIN x.x |-> elem(k)]>>
Expect(x) == CASE x.op = "static" -> Static(x)
               [] x.op = "grad" -> Grad(x)
               [] x.op = "range" -> Range(x)
               [] x.op = "dynamic" -> Dynamic(x)
INSTANCE Oracle
================================================================================
