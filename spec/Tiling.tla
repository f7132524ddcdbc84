-------------------------------- MODULE Tiling --------------------------------
(* Tilings of tensors and granularities (fastforward.quantization.tiled_tensor, *)
(* .granularity).  Shapes and tiles are sequences; tensors are addressed by     *)
(* their row-major flat index, starting from 0.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
Stride(shape, d) == Prod(SubSeq(shape, d + 1, Len(shape)))
Coord(shape, k, d) == (k \div Stride(shape, d)) % shape[d]
RECURSIVE Flat(_, _, _)
Flat(shape, c, d) == IF d = 0 THEN 0 ELSE Flat(shape, c, d - 1) + c[d] * Stride(shape, d)
FlatOf(shape, c) == Flat(shape, c, Len(shape))

Compatible(shape, tile) ==
  Len(shape) = Len(tile) /\ \A d \in DOMAIN shape : tile[d] > 0 /\ shape[d] % tile[d] = 0
Blocks(shape, tile) == [d \in DOMAIN shape |-> shape[d] \div tile[d]]
NumTiles(shape, tile) == Prod(Blocks(shape, tile))

(* the tile an element belongs to, and its place in that tile, from 0           *)
TileOf(shape, tile, k) ==
  FlatOf(Blocks(shape, tile), [d \in DOMAIN shape |-> Coord(shape, k, d) \div tile[d]])
WithinOf(shape, tile, k) ==
  FlatOf(tile, [d \in DOMAIN shape |-> Coord(shape, k, d) % tile[d]])

(* the element at a place of a tile                                              *)
ElementOf(shape, tile, r, w) ==
  LET b == Blocks(shape, tile) IN
  FlatOf(shape, [d \in DOMAIN shape |-> Coord(b, r, d) * tile[d] + Coord(tile, w, d)])

Rows(shape, tile) ==
  [r \in 1..NumTiles(shape, tile) |-> [w \in 1..Prod(tile) |-> ElementOf(shape, tile, r - 1, w - 1)]]

(* ------------------------------------------------------------ granularities *)
Dim(shape, d) == IF d >= 0 THEN d + 1 ELSE Len(shape) + d + 1
ValidDim(shape, d) == d < Len(shape) /\ d >= -Len(shape)
Has(s, x) == \E i \in DOMAIN s : s[i] = x

\* <<"tensor">> <<"channel", dims>> <<"block", dims, sizes, channels, strict>> <<"tile", tile>>
Refused == <<-1>>
Refuses(g, shape) ==
  CASE g[1] = "tensor" -> FALSE
    [] g[1] = "channel" -> \E i \in DOMAIN g[2] : ~ValidDim(shape, g[2][i])
    [] g[1] = "block" -> \/ \E i \in DOMAIN g[2] : ~ValidDim(shape, g[2][i])
                         \/ \E i \in DOMAIN g[4] : ~ValidDim(shape, g[4][i])
                         \/ \E i \in DOMAIN g[2] :
                              LET n == shape[Dim(shape, g[2][i])] IN
                              g[3][i] > n \/ (g[5] /\ n % g[3][i] /= 0)
    [] g[1] = "tile" -> ~Compatible(shape, g[2])
TileSize(g, shape) ==
  CASE g[1] = "tensor" -> shape
    [] g[1] = "channel" ->
         [d \in DOMAIN shape |-> IF \E i \in DOMAIN g[2] : Dim(shape, g[2][i]) = d THEN 1 ELSE shape[d]]
    [] g[1] = "block" ->
         [d \in DOMAIN shape |->
            LET is == {i \in DOMAIN g[2] : Dim(shape, g[2][i]) = d} IN
            IF is /= {} THEN g[3][CHOOSE i \in is : \A j \in is : j <= i]
            ELSE IF \E i \in DOMAIN g[4] : Dim(shape, g[4][i]) = d THEN 1 ELSE shape[d]]
    [] g[1] = "tile" -> g[2]
Params(g, shape) == NumTiles(shape, TileSize(g, shape))
===============================================================================
