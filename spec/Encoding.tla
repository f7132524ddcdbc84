-------------------------------- MODULE Encoding --------------------------------
(* Exported encodings (C27): what each schema's entry says about a quantizer.        *)
(* A quantizer setting q is                                                           *)
(*   shape, tile   sizes; bits; scales: naturals, in units of 2^-10, one per tile     *)
(*   offs          offsets per tile in halves (they are used rounded), or <<>>        *)
(* Reals are given in the unit of the scales.  The quantizer's grid in tile t is      *)
(* (c + offset) * scale for c in -2^(bits-1) .. 2^(bits-1) - 1.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

EMod(a, b) == a - b * (a \div b)
ENone == <<>>
HalfEven(x) == LET f == x \div 2 IN IF EMod(x, 2) = 0 THEN f ELSE IF EMod(f, 2) = 0 THEN f ELSE f + 1
\* a / b to the nearest integer, ties to even.
Nearest(a, b) == LET f == a \div b r == a - b * f IN IF 2 * r < b THEN f ELSE IF 2 * r > b THEN f + 1 ELSE IF EMod(f, 2) = 0 THEN f ELSE f + 1
EPow(k) == 2 ^ k
EMin(a, b) == IF a < b THEN a ELSE b
EMax(a, b) == IF a < b THEN b ELSE a
RECURSIVE EProd(_)
EProd(s) == IF s = <<>> THEN 1 ELSE s[1] * EProd(Tail(s))

\* What a tile does along a dimension: covers it, splits it into single elements, or into blocks.
Dims(q) == 1..Len(q.shape)
Whole(q) == {d \in Dims(q) : q.tile[d] = q.shape[d]}
Single(q) == {d \in Dims(q) : q.tile[d] = 1 /\ q.shape[d] > 1}
Block(q) == Dims(q) \ (Whole(q) \cup Single(q))
Grid(q) == [d \in Dims(q) |-> q.shape[d] \div q.tile[d]]
Tiles(q) == EProd(Grid(q))
Off(q) == IF q.offs = <<>> THEN [t \in 1..Tiles(q) |-> 0] ELSE [t \in 1..Len(q.offs) |-> HalfEven(q.offs[t])]
Half(q) == EPow(q.bits - 1)
Symmetric(q) == \A t \in 1..Tiles(q) : Off(q)[t] = 0
Lowest(q, t) == (Off(q)[t] - Half(q)) * q.scales[t]
Highest(q, t) == (Off(q)[t] + Half(q) - 1) * q.scales[t]
QnnOff(q) == [t \in 1..Tiles(q) |-> Off(q)[t] - Half(q)]
PerTensor(q) == Whole(q) = Dims(q)
PerFirst(q) == Block(q) = {} /\ Single(q) = {1}
Only(S) == CHOOSE x \in S : TRUE

\* --- the schemas: an entry, or refused
Legacy(q) ==
  IF ~(PerTensor(q) \/ PerFirst(q)) THEN ENone
  ELSE [t \in 1..Tiles(q) |-> <<q.bits, "int", Symmetric(q), Lowest(q, t), Highest(q, t), QnnOff(q)[t], q.scales[t]>>]

\* Low power block quantization: a block's scale is a natural (at most 2^bits) times its channel's scale.
Group(q, t) == LET cols == Grid(q)[2] ch == IF 1 \in Single(q) THEN (t - 1) \div cols ELSE EMod(t - 1, cols)
               IN {u \in 1..Tiles(q) : (IF 1 \in Single(q) THEN (u - 1) \div cols ELSE EMod(u - 1, cols)) = ch}
GroupMax(q, t) == LET S == {q.scales[u] : u \in Group(q, t)} IN CHOOSE x \in S : \A y \in S : y <= x
Channels(q) == LET s == CHOOSE d \in Single(q) : TRUE IN [c \in 1..q.shape[s] |-> IF s = 1 THEN (c - 1) * Grid(q)[2] + 1 ELSE c]
LPBQ(q, high) ==
  IF ~Symmetric(q) THEN ENone
  ELSE <<"LPBQ", "INT", TRUE, high, q.bits, q.tile[Only(Block(q))],
         [t \in 1..Tiles(q) |-> EMin(EMax(Nearest(q.scales[t] * EPow(q.bits), GroupMax(q, t)), 1), EPow(q.bits))],
         \* the channels' scales, in units of 2^-10 / 2^bits
         [c \in 1..Len(Channels(q)) |-> GroupMax(q, Channels(q)[c])],
         [c \in 1..Len(Channels(q)) |-> -EPow(high - 1)]>>
\* low, high: the low power configuration, <<0, 0>> without
V1(q, lp) ==
  LET e(type, block) == <<type, "INT", Symmetric(q), q.bits, q.scales, QnnOff(q), block>> IN
  IF PerTensor(q) THEN e("PER_TENSOR", 0)
  ELSE IF PerFirst(q) THEN e("PER_CHANNEL", 0)
  ELSE IF (Block(q) = {2} /\ Single(q) = {1}) \/ (Block(q) = {1} /\ Single(q) = {2})
    THEN IF lp[1] = 0 THEN e("PER_BLOCK", q.tile[Only(Block(q))])
         ELSE IF lp[1] # q.bits THEN ENone ELSE LPBQ(q, lp[2])
  ELSE ENone

\* nested: the sizes of the nested list of scales; zero points only if some tile has one
V2(q) ==
  LET e(axis, block, nested) == <<IF Symmetric(q) THEN "int" ELSE "uint", q.bits, axis, block, nested, q.scales, IF Symmetric(q) THEN <<>> ELSE QnnOff(q)>> IN
  IF PerTensor(q) THEN e(-1, 0, <<>>)
  ELSE IF PerFirst(q) THEN e(0, 0, <<q.shape[1]>>)
  ELSE IF Cardinality(Block(q)) = 1 THEN e(Only(Block(q)) - 1, q.tile[Only(Block(q))], Grid(q))
  ELSE ENone

Entry(schema, lp, q) == IF schema = "legacy" THEN Legacy(q) ELSE IF schema = "v1" THEN V1(q, lp) ELSE V2(q)

\* --- a handler's history: entries by name, parameters apart from activations except in the second schema
EInit(cfg) == [schema |-> cfg.schema, lp |-> cfg.lp, par |-> <<>>, act |-> <<>>]
EHas(seq, name) == \E i \in 1..Len(seq) : seq[i][1] = name
EPut(seq, name, v) == IF EHas(seq, name) THEN seq ELSE Append(seq, <<name, v>>)
EStep(s, e) ==
  IF e.op = "clear" THEN [st |-> [s EXCEPT !.par = <<>>, !.act = <<>>], out |-> <<"ok">>]
  ELSE IF e.op = "build" THEN [st |-> s, out |-> <<"ok", s.par, s.act>>]
  ELSE LET v == Entry(s.schema, s.lp, e.q) IN
    IF v = ENone THEN [st |-> s, out |-> <<"refused">>]
    ELSE [st |-> IF e.param /\ s.schema # "v2" THEN [s EXCEPT !.par = EPut(@, e.name, v)] ELSE [s EXCEPT !.act = EPut(@, e.name, v)],
          out |-> <<"ok">>]
================================================================================
