--------------------------------- MODULE Export ---------------------------------
(* Exported models (C28): codes and values that ONNX Q/DQ graphs and GGUF blocks      *)
(* have to represent.  Quantizer settings are those of Encoding.tla; data are in       *)
(* units of 2^-12, so a code is Nearest(data, 4 * scale) - offset, clamped.  The data  *)
(* are never half way between two codes.                                               *)
EXTENDS Encoding

RECURSIVE Idx(_, _)
\* 1-based row-major position p in an array of the given shape, as 1-based coordinates.
Idx(shape, p) == IF shape = <<>> THEN <<>> ELSE LET n == EProd(Tail(shape)) IN <<((p - 1) \div n) + 1>> \o Idx(Tail(shape), EMod(p - 1, n) + 1)
RECURSIVE Pos(_, _)
Pos(shape, ix) == IF shape = <<>> THEN 1 ELSE ((ix[1] - 1) * EProd(Tail(shape))) + Pos(Tail(shape), Tail(ix))
TileOf(q, p) == LET ix == Idx(q.shape, p) IN Pos(Grid(q), [d \in Dims(q) |-> ((ix[d] - 1) \div q.tile[d]) + 1])
Code(q, data, p) == LET t == TileOf(q, p) IN EMin(EMax(Nearest(data[p], 4 * q.scales[t]) - Off(q)[t], -Half(q)), Half(q) - 1)
Value(q, data, p) == LET t == TileOf(q, p) IN (Code(q, data, p) + Off(q)[t]) * q.scales[t]
Values(q, data) == [p \in 1..Len(data) |-> Value(q, data, p)]

\* --- ONNX Q/DQ: one axis at most, a storage type of that width, offsets that are (negated) codes
OneAxis(q) == \A d \in Dims(q) : q.tile[d] \in {1, q.shape[d]}
QDQable(q) == /\ q.bits \in {4, 8, 16}
              /\ Block(q) = {} /\ Cardinality(Single(q)) <= 1
              /\ \A t \in 1..Tiles(q) : -Off(q)[t] \in -Half(q)..(Half(q) - 1)
\* a linear layer's output: rows of quantized data times rows of quantized weights, in units of 2^-20
LinearOut(l) ==
  LET n == l.qw.shape[1] k == l.qw.shape[2]
      xs == IF l.qx.bits = 0 THEN l.x ELSE Values(l.qx, l.x)
      ws == Values(l.qw, l.w)
      RECURSIVE Dot(_, _, _)
      Dot(r, c, j) == IF j = 0 THEN 0 ELSE (xs[(r - 1) * k + j] * ws[(c - 1) * k + j]) + Dot(r, c, j - 1)
  IN [p \in 1..((Len(l.x) \div k) * n) |-> Dot(((p - 1) \div n) + 1, EMod(p - 1, n) + 1, k)]
QDQ(x) ==
  IF (\A i \in 1..Len(x.parts) : QDQable(x.parts[i].q)) /\ (\A i \in 1..Len(x.linear) : QDQable(x.linear[i].qw) /\ (x.linear[i].qx.bits = 0 \/ QDQable(x.linear[i].qx)))
  THEN <<"ok", [i \in 1..Len(x.parts) |-> Values(x.parts[i].q, x.parts[i].data)], [i \in 1..Len(x.linear) |-> LinearOut(x.linear[i])]>>
  ELSE <<"refused">>

\* --- encodings of an exported model: by name for parameters and inputs
Encodings(x) ==
  LET of(kind) == SelectSeq(x.parts, LAMBDA p : p.kind = kind)
      es(ps) == [i \in 1..Len(ps) |-> <<ps[i].name, Entry(x.schema, <<0, 0>>, ps[i].q)>>]
      all == of("param") \o of("input") \o of("inner")
  IN IF \A i \in 1..Len(all) : Entry(x.schema, <<0, 0>>, all[i].q) # ENone
     THEN <<"ok", es(of("param")), es(of("input")), [i \in 1..Len(of("inner")) |-> es(of("inner"))[i][2]]>> ELSE <<"refused">>

\* --- GGUF: blocks of 32 along the rows, no offsets
GBits(f) == IF f = "Q4_0" THEN 4 ELSE 8
GGUFable(f, q, symmetric) == symmetric /\ q.bits = GBits(f) /\ q.tile = <<1, 32>> /\ q.kind = "block" /\ Symmetric(q)
\* For each weight: per block its scale and its bytes.
GBytes(f, c) == IF f = "Q4_0" THEN [j \in 1..16 |-> (c[j] + 8) + (16 * (c[j + 16] + 8))]
                ELSE [j \in 1..32 |-> EMod(EMax(c[j], -127) + 256, 256)]
\* Rotary embeddings: rows of a head alternate between its halves.
RowOf(heads, rows, r) == IF heads = 0 THEN r ELSE
  LET half == rows \div (2 * heads) h == (r - 1) \div (2 * half) i == EMod(r - 1, 2 * half) IN (h * 2 * half) + (EMod(i, 2) * half) + (i \div 2) + 1
GBlock(w, f, b) ==
  LET rows == w.q.shape[1] per == w.q.shape[2] \div 32
      row == RowOf(w.heads, rows, ((b - 1) \div per) + 1) col == EMod(b - 1, per)
      first == ((row - 1) * w.q.shape[2]) + (col * 32)
      t == ((row - 1) * per) + col + 1
  IN <<w.q.scales[t], GBytes(f, [j \in 1..32 |-> Code(w.q, w.data, first + j)])>>
GGUF(x) ==
  IF \A i \in 1..Len(x.weights) : GGUFable(x.format, x.weights[i].q, x.weights[i].symmetric)
  THEN <<"ok", [i \in 1..Len(x.weights) |-> <<x.weights[i].name, [b \in 1..((x.weights[i].q.shape[1] * x.weights[i].q.shape[2]) \div 32) |-> GBlock(x.weights[i], x.format, b)]>>]>>
  ELSE <<"refused">>
================================================================================
