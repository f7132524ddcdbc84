------------------------------- MODULE TilingMC -------------------------------
(* Every shape/tile pair up to the bounds: the index functions are mutually     *)
(* inverse bijections; emits the row layout for replay.                          *)
EXTENDS Tiling, Json
CONSTANTS D1, D2, D3, D4, Gen
VARIABLES shape, tile
Shapes == {<<a>> : a \in D1} \cup {<<a, b>> : a, b \in D2} \cup {<<a, b, c>> : a, b, c \in D3}
          \cup {<<a, b, c, d>> : a, b, c, d \in D4}
Init == /\ shape \in Shapes
        /\ tile \in [DOMAIN shape -> 1..7]
        /\ \A d \in DOMAIN shape : tile[d] <= shape[d] + 1
Next == UNCHANGED <<shape, tile>>
N == Prod(shape)
C == Compatible(shape, tile)
Bijection == C => \A k \in 0..(N - 1) :
   /\ ElementOf(shape, tile, TileOf(shape, tile, k), WithinOf(shape, tile, k)) = k
   /\ TileOf(shape, tile, k) \in 0..(NumTiles(shape, tile) - 1)
   /\ WithinOf(shape, tile, k) \in 0..(Prod(tile) - 1)
SameSize == C => NumTiles(shape, tile) * Prod(tile) = N
Emit == Gen => PrintT("VFGEN " \o ToJson(<<shape, tile, IF C THEN Rows(shape, tile) ELSE Refused>>))
===============================================================================
