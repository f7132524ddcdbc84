--------------------------- MODULE GranularityOracle ---------------------------
EXTENDS Tiling, OracleData
VARIABLE n
Expect(x) ==
  CASE x.op = "gran" -> IF Refuses(x.g, x.shape) THEN Refused
                        ELSE LET t == TileSize(x.g, x.shape) IN
                             IF Compatible(x.shape, t) THEN <<t, NumTiles(x.shape, t)>> ELSE <<t, -1>>
    [] x.op = "rows" -> IF Compatible(x.shape, x.tile) THEN Rows(x.shape, x.tile) ELSE Refused
INSTANCE Oracle
================================================================================
