------------------------------- MODULE AffineMC -------------------------------
(* The affine grid, exhaustively for small parameters; emits a column of codes   *)
(* and values per parameter choice.                                              *)
EXTENDS Affine, Json
CONSTANTS XMax, SMax, OMax, BMax, Gen
VARIABLES S, O, b
vars == <<S, O, b>>
Xs == (-XMax)..XMax
Init == S \in 1..SMax /\ O \in (-OMax)..OMax /\ b \in 1..BMax
Next == UNCHANGED vars
C(X) == Code(X, S, O, b)
Inv ==
  /\ \A X \in Xs : C(X) \in IntMin(b)..IntMax(b)
  \* the represented value is a nearest grid point
  /\ \A X \in Xs : \A c \in IntMin(b)..IntMax(b) : Abs(Deq(C(X), S, O) - X) <= Abs(Deq(c, S, O) - X)
  \* at most half a step away when not clipped, and clipped codes are the bounds
  /\ \A X \in Xs : IF Clipped(X, S, O, b) THEN C(X) \in {IntMin(b), IntMax(b)}
                   ELSE 2 * Abs(Deq(C(X), S, O) - X) <= S
  \* values on the grid are fixed points
  /\ \A c \in IntMin(b)..IntMax(b) : C(Deq(c, S, O)) = c
  \* monotone
  /\ \A X \in Xs : X + 1 \in Xs => C(X) <= C(X + 1)
  \* ties go to the even code
  /\ \A X \in Xs : (~Clipped(X, S, O, b) /\ 2 * Abs(Deq(C(X), S, O) - X) = S) => C(X) % 2 = 0
  \* the slope used for clipped elements is the exact derivative of the represented value
  /\ \A X \in Xs : (Clipped(X, S, O, b) /\ Clipped(X, S + 1, O, b) /\ C(X) = Code(X, S + 1, O, b)) =>
       Deq(Code(X, S + 1, O, b), S + 1, O) - Deq(C(X), S, O) = C(X) + RoundOffset(O)
\* integers quantized with a unit scale lose nothing
Rounding == \A p \in -20..20, q \in 1..6 :
  LET r == RoundHalfEven(p, q) IN 2 * Abs(p - r * q) <= q /\ (2 * Abs(p - r * q) = q => r % 2 = 0)
Ranges == \A lo \in -6..6, hi \in -6..6, sym \in BOOLEAN, allow \in BOOLEAN : (lo <= hi /\ b >= 2) =>
  LET p == ParamsForRange(<<lo>>, <<hi>>, b, sym, allow)
      r == RangeOf(p, b)[1]
  IN (lo < hi \/ (sym /\ lo /= 0)) =>
     /\ p.scale[1][1] > 0
     /\ r[1][1] <= lo * r[1][2] /\ r[2][1] >= hi * r[2][2]
     /\ ~sym => r[1][1] = lo * r[1][2] /\ r[2][1] = hi * r[2][2]
Emit == ~Gen \/ PrintT("VFGEN " \o ToJson(<<S, O, b, [i \in 1..(2 * XMax + 1) |-> C(i - 1 - XMax)],
                                            [i \in 1..(2 * XMax + 1) |-> Deq(C(i - 1 - XMax), S, O)]>>))
===============================================================================
