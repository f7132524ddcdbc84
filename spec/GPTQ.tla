---------------------------------- MODULE GPTQ ----------------------------------
(* GPTQ.  Columns are quantized in a given order; the error made on a column is   *)
(* compensated on the columns that follow, weighted by L (unit upper triangular,  *)
(* L = D^-1 U for the Cholesky factor U of the inverse Hessian, H^-1 = U' U).     *)
(*                                                                                *)
(* Part 1: the demanded relation between the weights before and after, the scales *)
(* and the offsets, in fixed point: weights in units of 2^-14, scales 2^-20,      *)
(* L in quarters.  The relation does not mention block sizes.                     *)
(* Part 2: the sequential algorithm and the blocked one (with errors pending per  *)
(* block and group scales recomputed on corrected weights), over integers.        *)
EXTENDS Integers, Sequences

Abs(x) == IF x < 0 THEN -x ELSE x
Div(x, k) == (x + (k \div 2)) \div k
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)

(* ------------------------------------------------------------------- part 1 *)
(* x: rows, cols, order (position -> column), w, q, code, l, bits, sym, one,      *)
(*    rb, cb (tile size), recompute, scale, off (per tile), tol                   *)
Col(x, p) == x.order[p]
\* errors of a row, in order of processing
RECURSIVE Errs(_, _, _)
Errs(x, r, E) ==
  LET p == Len(E) + 1 IN
  IF p > x.cols THEN E
  ELSE LET corr == SumTo([k \in 1..(p - 1) |-> E[k] * x.l[k][p]], p - 1)
           v == x.w[r][Col(x, p)] - Div(corr, 4) IN
       Errs(x, r, Append(E, v - x.q[r][Col(x, p)]))
\* the value column position p of row r has after correction for the first k positions
Corrected(x, r, E, p, k) == x.w[r][Col(x, p)] - Div(SumTo([m \in 1..k |-> E[m] * x.l[m][p]], k), 4)

TileR(x, r) == ((r - 1) \div x.rb) + 1
TileC(x, c) == ((c - 1) \div x.cb) + 1
NTR(x) == x.rows \div x.rb
NTC(x) == x.cols \div x.cb
S(x, r, c) == x.scale[TileR(x, r)][TileC(x, c)]
O(x, r, c) == x.off[TileR(x, r)][TileC(x, c)]
Lo(x) == -(2 ^ (x.bits - 1))
Hi(x) == 2 ^ (x.bits - 1) - 1

\* the weights a tile's scale is computed from
TileVals(x, EE, a, b) ==
  {Corrected(x, r, EE[r], c, IF x.recompute THEN (b - 1) * x.cb ELSE 0) :
     r \in (((a - 1) * x.rb) + 1)..(a * x.rb), c \in (((b - 1) * x.cb) + 1)..(b * x.cb)}
TileVals0(x, a, b) ==
  {x.w[r][c] : r \in (((a - 1) * x.rb) + 1)..(a * x.rb), c \in (((b - 1) * x.cb) + 1)..(b * x.cb)}
\* whether the tiles whose parameters are computed together are one-sided
OneSidedTiles(x, EE, b) ==
  x.one /\ IF x.recompute THEN \A a \in 1..NTR(x) : MinOf(TileVals(x, EE, a, b)) >= 0
           ELSE \A a \in 1..NTR(x) : \A c \in 1..NTC(x) : MinOf(TileVals0(x, a, c)) >= 0
Near(a, b, tol) == Abs(a - b) <= tol
ParamsOk(x, EE, a, b) ==
  LET vals == IF x.recompute THEN TileVals(x, EE, a, b) ELSE TileVals0(x, a, b)
      one == OneSidedTiles(x, EE, b)
      lo == IF x.sym /\ one THEN 0 ELSE MinOf(vals)
      hi == MaxOf(vals)
      s == x.scale[a][b]
      o == x.off[a][b] IN
  IF x.sym /\ ~one
  THEN /\ o = 0
       /\ Near(s * (2 ^ (x.bits - 1)), MaxOf({Abs(lo) * 64, Div(Abs(hi) * 64 * (2 ^ (x.bits - 1)), Hi(x))}), x.tol * 64)
  ELSE /\ Near(s * (2 ^ x.bits - 1), (hi - lo) * 64, x.tol * 64)
       /\ Abs(Div((o + Lo(x)) * s, 64) - lo) <= Div(s, 128) + x.tol + (Abs(o + Lo(x)) \div 64)

\* q is the representable value nearest to the corrected weight
Nearest(x, r, c, v) ==
  LET q == x.q[r][c]
      half == Div(S(x, r, c), 128) + x.tol IN
  \/ Abs(v - q) <= half
  \/ x.code[r][c] = Lo(x) /\ v <= q
  \/ x.code[r][c] = Hi(x) /\ v >= q
OnGrid(x, r, c) ==
  /\ x.code[r][c] \in Lo(x)..Hi(x)
  /\ Near(x.q[r][c], Div(S(x, r, c) * (x.code[r][c] + O(x, r, c)), 64), x.tol + (Abs(x.code[r][c] + O(x, r, c)) \div 64))

Judge(x) ==
  LET EE == [r \in 1..x.rows |-> Errs(x, r, <<>>)] IN
  [grid |-> \A r \in 1..x.rows : \A c \in 1..x.cols : OnGrid(x, r, c),
   params |-> \A a \in 1..NTR(x) : \A b \in 1..NTC(x) : ParamsOk(x, EE, a, b),
   nearest |-> [p \in 1..x.cols |-> \A r \in 1..x.rows : Nearest(x, r, Col(x, p), EE[r][p] + x.q[r][Col(x, p)])]]

(* ------------------------------------------------------------------- part 2 *)
(* one row, integer weights w, integer couplings l; groups of g columns share a   *)
(* scale: with g = 0 the scale is s0, otherwise the largest magnitude of the      *)
(* group's weights at the moment its first column is reached (at least 1).        *)
(* Codes lie in -1..1.                                                            *)
GCode(v, s) == LET c == ((2 * v) + s) \div (2 * s) IN IF c < -1 THEN -1 ELSE IF c > 1 THEN 1 ELSE c
GroupScale(vals) == MaxOf({1} \cup {Abs(vals[k]) : k \in DOMAIN vals})
\* sequential: every correction is applied at once
RECURSIVE Seqn(_, _, _, _, _)
Seqn(w, l, g, s, j) ==
  IF j > Len(w) THEN <<>>
  ELSE LET s2 == IF g > 0 /\ (j - 1) % g = 0 THEN GroupScale(SubSeq(w, j, j + g - 1)) ELSE s
           q == GCode(w[j], s2) * s2
           e == w[j] - q
           w2 == [k \in DOMAIN w |-> IF k > j THEN w[k] - (e * l[j][k]) ELSE w[k]] IN
       <<q>> \o Seqn(w2, l, g, s2, j + 1)
\* blocked: corrections beyond the block's end are pending until the block is done
RECURSIVE Blk(_, _, _, _, _, _, _, _)
Blk(w, l, g, B, s, j, i, errs) ==   \* i: last column before the block, errs: errors of the block so far
  IF j > Len(w) THEN <<>>
  ELSE LET fin == IF i + B < Len(w) THEN i + B ELSE Len(w)
           pend(k) == SumTo([m \in 1..Len(errs) |-> errs[m] * l[i + m][k]], Len(errs))
           view == [k \in DOMAIN w |-> IF k > fin THEN w[k] - pend(k) ELSE w[k]]
           s2 == IF g > 0 /\ (j - 1) % g = 0 THEN GroupScale(SubSeq(view, j, j + g - 1)) ELSE s
           q == GCode(w[j], s2) * s2
           e == w[j] - q
           w2 == [k \in DOMAIN w |-> IF k > j /\ k <= fin THEN w[k] - (e * l[j][k]) ELSE w[k]]
           errs2 == Append(errs, e)
           pend2(k) == SumTo([m \in 1..Len(errs2) |-> errs2[m] * l[i + m][k]], Len(errs2)) IN
       <<q>> \o (IF j = fin THEN Blk([k \in DOMAIN w |-> IF k > fin THEN w2[k] - pend2(k) ELSE w2[k]], l, g, B, s2, j + 1, j, <<>>)
                 ELSE Blk(w2, l, g, B, s2, j + 1, i, errs2))
=================================================================================
