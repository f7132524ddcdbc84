------------------------------- MODULE ExportMC -------------------------------
(* What the formats store, decoded by the formats' own rules, is what the library  *)
(* dequantizes: ONNX (saturate(round(x / scale) + zero) - zero) * scale, GGUF       *)
(* d * (nibble - 8) and d * byte.                                                   *)
EXTENDS Export
VARIABLES q, x
Init == /\ \E sh \in {<<2, 2>>, <<3>>} : \E ti \in {sh, [d \in 1..Len(sh) |-> IF d = 1 THEN 1 ELSE sh[d]]} :
             LET n == EProd([d \in 1..Len(sh) |-> sh[d] \div ti[d]]) IN
             \E sc \in [1..n -> {1, 3}], of \in [1..n -> {-14, -2, 0, 1, 6, 16}] :
               q = [shape |-> sh, tile |-> ti, bits |-> 4, scales |-> sc, offs |-> of]
        /\ x \in {-301, -45, -7, -1, 0, 1, 5, 9, 19, 45, 130, 301}
Next == UNCHANGED <<q, x>>
Sat(v) == EMin(EMax(v, -Half(q)), Half(q) - 1)
Onnx == QDQable(q) => \A t \in 1..Tiles(q) :
  LET p == CHOOSE p \in 1..EProd(q.shape) : TileOf(q, p) = t
      d == [i \in 1..EProd(q.shape) |-> x] zero == -Off(q)[t]
  IN EMod(x, 4 * q.scales[t]) # 2 * q.scales[t] =>
       (Sat(Nearest(x, 4 * q.scales[t]) + zero) - zero) * q.scales[t] = Value(q, d, p)
\* Every code survives its block (Q8_0's documented exception: -128 becomes -127).
C == [j \in 1..32 |-> EMod((x * j) + 8000, 16) - 8]
D == [j \in 1..32 |-> EMod((x * j) + 80000, 256) - 128]
Signed(b) == IF b > 127 THEN b - 256 ELSE b
Nibbles == LET b == GBytes("Q4_0", C) IN \A j \in 1..16 : EMod(b[j], 16) - 8 = C[j] /\ (b[j] \div 16) - 8 = C[j + 16] /\ b[j] \in 0..255
Bytes == LET b == GBytes("Q8_0", D) IN \A j \in 1..32 : b[j] \in 0..255 /\ Signed(b[j]) = EMax(D[j], -127)
\* The rows' order is a permutation.
Rows == \A heads \in {1, 2, 4}, k \in {2, 4, 8} : LET n == heads * k IN {RowOf(heads, n, r) : r \in 1..n} = 1..n
================================================================================
