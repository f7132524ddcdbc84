------------------------------ MODULE QTensorOps ------------------------------
(* What shape and copy operations on quantized tensors denote.  A register holds *)
(* a tensor as <<shape, values>>; every operation appends its results and leaves  *)
(* existing registers alone.                                                      *)
EXTENDS Affine

InitSt(cfg) ==
  [i \in DOMAIN cfg.regs |->
     LET r == cfg.regs[i] IN <<r.shape, Deqs(r.codes, r.shape, TileSize(r.g, r.shape), r.S, r.O)>>]

Gather(src, shape, f(_)) == <<shape, [k \in 1..Prod(shape) |-> src[2][f(k - 1) + 1]]>>
Rank(t) == Len(t[1])
At(shape, d) == Dim(shape, d)                      \* python dimension -> position
Coords(shape, k) == [d \in DOMAIN shape |-> Coord(shape, k, d)]

Reshape(t, shape) ==
  LET unknown == {d \in DOMAIN shape : shape[d] = -1}
      known == Prod([d \in DOMAIN shape |-> IF shape[d] = -1 THEN 1 ELSE shape[d]])
  IN <<[d \in DOMAIN shape |-> IF d \in unknown THEN Prod(t[1]) \div known ELSE shape[d]], t[2]>>
Permute(t, perm) ==                                \* result dim i is source dim perm[i]
  LET p == [i \in DOMAIN perm |-> At(t[1], perm[i])]
      shape == [i \in DOMAIN perm |-> t[1][p[i]]]
  IN Gather(t, shape, LAMBDA k :
       FlatOf(t[1], [d \in DOMAIN t[1] |-> Coord(shape, k, CHOOSE i \in DOMAIN p : p[i] = d)]))
Transpose(t, a, b) ==
  LET x == At(t[1], a)  y == At(t[1], b) IN
  Permute(t, [i \in DOMAIN t[1] |-> IF i = x THEN y - 1 ELSE IF i = y THEN x - 1 ELSE i - 1])
Flatten(t, a, b) ==
  IF t[1] = <<>> THEN <<<<1>>, t[2]>>
  ELSE LET x == At(t[1], a)  y == At(t[1], b) IN
       <<SubSeq(t[1], 1, x - 1) \o <<Prod(SubSeq(t[1], x, y))>> \o SubSeq(t[1], y + 1, Len(t[1])), t[2]>>
Unsqueeze(t, d) ==
  LET x == IF d >= 0 THEN d ELSE Len(t[1]) + d + 1 IN
  <<SubSeq(t[1], 1, x) \o <<1>> \o SubSeq(t[1], x + 1, Len(t[1])), t[2]>>
Squeeze(t, ds) ==
  LET drop(i) == t[1][i] = 1 /\ (ds = <<>> \/ \E j \in DOMAIN ds : At(t[1], ds[j]) = i)
      RECURSIVE Keep(_)
      Keep(i) == IF i > Len(t[1]) THEN <<>> ELSE (IF drop(i) THEN <<>> ELSE <<t[1][i]>>) \o Keep(i + 1)
  IN <<Keep(1), t[2]>>
Expand(t, shape) ==
  LET n == Len(shape) - Len(t[1])
      full == [d \in DOMAIN shape |-> IF shape[d] = -1 THEN t[1][d - n] ELSE shape[d]]
  IN Gather(t, full, LAMBDA k :
       FlatOf(t[1], [d \in DOMAIN t[1] |-> IF t[1][d] = 1 THEN 0 ELSE Coord(full, k, d + n)]))

(* indexing: items <<"int", i>> <<"slice", lo, hi, step>> (lo/hi: <<>> or <<v>>)   *)
(* <<"ell">> <<"new">> <<"list", is>> (at most one)                                *)
Norm(v, n, low, high) == LET w == IF v < 0 THEN v + n ELSE v IN IF w < low THEN low ELSE IF w > high THEN high ELSE w
SliceIdx(item, n) ==
  LET lo == IF item[2] = <<>> THEN 0 ELSE Norm(item[2][1], n, 0, n)
      hi == IF item[3] = <<>> THEN n ELSE Norm(item[3][1], n, 0, n)
      cnt == IF hi <= lo THEN 0 ELSE (hi - lo + item[4] - 1) \div item[4]
  IN [i \in 1..cnt |-> lo + (i - 1) * item[4]]
Consumes(item) == item[1] \in {"int", "slice", "list"}
Items(t, items) ==                                 \* expand the ellipsis, pad with full slices
  LET used == Cardinality({i \in DOMAIN items : Consumes(items[i])})
      fill == [i \in 1..(Rank(t) - used) |-> <<"slice", <<>>, <<>>, 1>>]
      es == {i \in DOMAIN items : items[i][1] = "ell"}
  IN IF es = {} THEN items \o fill
     ELSE LET e == CHOOSE i \in es : TRUE IN SubSeq(items, 1, e - 1) \o fill \o SubSeq(items, e + 1, Len(items))
(* per item: the source positions it selects; new axes select the dummy position   *)
RECURSIVE Plan(_, _, _)
Plan(shape, items, d) ==
  IF items = <<>> THEN <<>>
  ELSE LET it == Head(items)
           n == IF Consumes(it) THEN shape[d] ELSE 1
           sel == CASE it[1] = "int" -> <<IF it[2] < 0 THEN it[2] + n ELSE it[2]>>
                    [] it[1] = "slice" -> SliceIdx(it, n)
                    [] it[1] = "list" -> [i \in DOMAIN it[2] |-> IF it[2][i] < 0 THEN it[2][i] + n ELSE it[2][i]]
                    [] it[1] = "new" -> <<0>>
       IN <<[sel |-> sel, dim |-> IF Consumes(it) THEN d ELSE 0, keep |-> it[1] /= "int"]>>
          \o Plan(shape, Tail(items), IF Consumes(it) THEN d + 1 ELSE d)
Index(t, items0) ==
  LET plan == Plan(t[1], Items(t, items0), 1)
      RECURSIVE Kept(_)
      Kept(i) == IF i > Len(plan) THEN <<>> ELSE (IF plan[i].keep THEN <<i>> ELSE <<>>) \o Kept(i + 1)
      kept == Kept(1)
      shape == [j \in DOMAIN kept |-> Len(plan[kept[j]].sel)]
      src(k) == [d \in DOMAIN t[1] |->
                   LET i == CHOOSE i \in DOMAIN plan : plan[i].dim = d IN
                   IF plan[i].keep THEN plan[i].sel[Coord(shape, k, CHOOSE j \in DOMAIN kept : kept[j] = i) + 1]
                   ELSE plan[i].sel[1]]
  IN Gather(t, shape, LAMBDA k : FlatOf(t[1], src(k)))

RECURSIVE Before(_, _, _)
Before(ts, d, i) == IF i = 1 THEN 0 ELSE ts[i - 1][1][d] + Before(ts, d, i - 1)
Cat(ts, dim) ==
  LET d == At(ts[1][1], dim)
      n == Len(ts)
      total == Before(ts, d, n + 1)
      shape == [ts[1][1] EXCEPT ![d] = total]
      which(c) == CHOOSE i \in 1..n : Before(ts, d, i) <= c /\ c < Before(ts, d, i + 1)
      val(k) == LET c == Coord(shape, k, d)
                    i == which(c)
                    cs == Coords(shape, k)
                IN ts[i][2][FlatOf(ts[i][1], [cs EXCEPT ![d] = c - Before(ts, d, i)]) + 1]
  IN <<shape, [k \in 1..Prod(shape) |-> val(k - 1)]>>
Narrow(t, dim, from, len) ==
  LET d == At(t[1], dim)
      shape == [t[1] EXCEPT ![d] = len]
      f(k) == LET cs == Coords(shape, k) IN FlatOf(t[1], [cs EXCEPT ![d] = cs[d] + from])
  IN Gather(t, shape, f)
Split(t, size, dim) ==
  LET n == t[1][At(t[1], dim)]
      c == (n + size - 1) \div size
  IN [i \in 1..c |-> Narrow(t, dim, (i - 1) * size, IF i * size > n THEN n - (i - 1) * size ELSE size)]
Mul(t, c) == <<t[1], [k \in DOMAIN t[2] |-> c * t[2][k]]>>
Lines(t, dim) ==  \* the 1-d lines along a dimension
  LET d == At(t[1], dim)
      outer == [t[1] EXCEPT ![d] = 1]
  IN [r \in 1..Prod(outer) |-> LET cs == Coords(outer, r - 1) IN
        [i \in 1..t[1][d] |-> t[2][FlatOf(t[1], [cs EXCEPT ![d] = i - 1]) + 1]]]
TopK(t, n, dim, largest) ==
  LET d == At(t[1], dim)
      ls == Lines(t, dim)
      lines == [r \in DOMAIN ls |-> SortSeq(ls[r], LAMBDA a, b : IF largest THEN a > b ELSE a < b)]
      outer == [t[1] EXCEPT ![d] = 1]
      shape == [t[1] EXCEPT ![d] = n]
  IN <<shape, [k \in 1..Prod(shape) |->
        LET cs == Coords(shape, k - 1) IN
        lines[FlatOf(outer, [cs EXCEPT ![d] = 0]) + 1][cs[d] + 1]]>>
TakeAlong(t, ishape, idx, dim) ==
  LET d == At(t[1], dim)
      f(k) == LET cs == Coords(ishape, k) IN FlatOf(t[1], [cs EXCEPT ![d] = idx[k + 1]])
  IN Gather(t, ishape, f)

Results(st, e) ==
  LET t == st[e.a] IN
  CASE e.op \in {"reshape", "view"} -> <<Reshape(t, e.shape)>>
    [] e.op = "transpose" -> <<Transpose(t, e.x, e.y)>>
    [] e.op = "permute" -> <<Permute(t, e.perm)>>
    [] e.op = "flatten" -> <<Flatten(t, e.x, e.y)>>
    [] e.op = "unsqueeze" -> <<Unsqueeze(t, e.x)>>
    [] e.op = "squeeze" -> <<Squeeze(t, e.ds)>>
    [] e.op = "expand" -> <<Expand(t, e.shape)>>
    [] e.op = "index" -> <<Index(t, e.items)>>
    [] e.op = "cat" -> <<Cat([i \in DOMAIN e.as |-> st[e.as[i]]], e.x)>>
    [] e.op = "split" -> Split(t, e.n, e.x)
    [] e.op = "copy" -> <<t>>
    [] e.op = "mul" -> <<Mul(t, e.n)>>
    [] e.op = "topk" -> <<TopK(t, e.n, e.x, e.largest)>>
    [] e.op = "take" -> <<TakeAlong(t, e.shape, e.idx, e.x)>>

(* A tensor that is not per-tensor quantized may refuse an operation (e.g. block   *)
(* quantized tensors cannot be indexed) but never return other values.             *)
MayRefuse(e) == e.gran \in {"channel", "block", "tile"}
Step(st, e) ==
  IF e.refused /\ MayRefuse(e) THEN [st |-> st, out |-> <<"refused", TRUE>>]
  ELSE LET r == Results(st, e) IN [st |-> st \o r, out |-> <<r, TRUE>>]
===============================================================================
