------------------------------- MODULE EncodingMC -------------------------------
(* All small quantizers: every schema's entry, read by the schema's own rules, gives   *)
(* back the quantizer's grid (low power blocks: up to half a step of their scale).     *)
EXTENDS Encoding
CONSTANTS Gen
VARIABLES q
Shapes == {<<4>>, <<2, 4>>, <<4, 2>>, <<2, 2, 2>>}
TilesOf(sh) == {t \in [1..Len(sh) -> {1, 2, 4}] : \A d \in 1..Len(sh) : t[d] <= sh[d]}
Vals(k, S) == {[i \in 1..k |-> IF i = j THEN a ELSE b] : a \in S, b \in S, j \in 1..k}
Init == \E sh \in Shapes : \E ti \in TilesOf(sh) : \E b \in {2, 4} :
          LET n == EProd([d \in 1..Len(sh) |-> sh[d] \div ti[d]]) IN
          \E sc \in Vals(n, {3, 8, 40}) : \E of \in {<<>>} \cup Vals(n, {-3, 0, 1, 4}) :
            q = [shape |-> sh, tile |-> ti, bits |-> b, scales |-> sc, offs |-> of]
Next == UNCHANGED q
T == 1..Tiles(q)
Grid1(t) == {(c + Off(q)[t]) * q.scales[t] : c \in -Half(q)..(Half(q) - 1)}
\* legacy and V1: real = (code + offset) * scale for codes 0..2^bits - 1
FromLegacy == Legacy(q) # ENone => \A t \in T : LET e == Legacy(q)[t] IN
  /\ {(c + e[6]) * e[7] : c \in 0..(EPow(e[1]) - 1)} = Grid1(t)
  /\ e[4] \in Grid1(t) /\ e[5] \in Grid1(t) /\ \A x \in Grid1(t) : e[4] <= x /\ x <= e[5]
FromV1 == LET e == V1(q, <<0, 0>>) IN e # ENone => \A t \in T : {(c + e[6][t]) * e[5][t] : c \in 0..(EPow(e[4]) - 1)} = Grid1(t)
\* V2: signed codes around 0, or unsigned codes and a zero point
FromV2 == LET e == V2(q) IN e # ENone => \A t \in T :
  (IF e[1] = "int" THEN {c * e[6][t] : c \in -EPow(e[2] - 1)..(EPow(e[2] - 1) - 1)}
                   ELSE {(c + e[7][t]) * e[6][t] : c \in 0..(EPow(e[2]) - 1)}) = Grid1(t)
Abs(x) == IF x < 0 THEN -x ELSE x
FromLPBQ == LET e == V1(q, <<q.bits, 8>>) IN (e # ENone /\ e[1] = "LPBQ") =>
  \A t \in T : LET f == GroupMax(q, t) s == q.scales[t] * EPow(q.bits) d == e[7][t] * f IN
    /\ e[7][t] \in 1..EPow(q.bits)
    /\ 2 * Abs(d - s) <= f \/ (e[7][t] = 1 /\ s < f)
    /\ (q.scales[t] = f => d = s)
Refuses == LET blocks == Cardinality(Block(q)) IN (V2(q) # ENone) <=> (PerTensor(q) \/ PerFirst(q) \/ blocks = 1)
Emit == Gen => PrintT("VFGEN " \o ToJson(q))
================================================================================
