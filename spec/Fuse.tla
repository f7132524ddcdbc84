---------------------------------- MODULE Fuse ----------------------------------
(* Fusing and freezing parameters.  A model is a chain of layers over scalars;   *)
(* a layer maps x to O(I(x) * W(w) + B(b)) with quantizers I, W, B, O at its     *)
(* slots (0: stub).  A "scaled" layer uses W(2 * w): what it quantizes is not a  *)
(* parameter.  Weights may be tied between layers, quantizers shared.            *)
(* Quantizers: kind "linear" (scale, bits), "minus" (v |-> v - 1, not            *)
(* idempotent).                                                                  *)
EXTENDS Affine, FiniteSets

Slots == <<"input", "weight", "bias", "output">>
FInit(cfg) == [layers |-> cfg.layers, w |-> cfg.w, b |-> cfg.b, quants |-> <<>>,
               at |-> [l \in 1..Len(cfg.layers) |-> [input |-> 0, weight |-> 0, bias |-> 0, output |-> 0]]]
Ls(st) == 1..Len(st.layers)
Q(st, q, v) == IF q = 0 THEN v
               ELSE IF st.quants[q].kind = "minus" THEN v - 1
               ELSE Deq(Code(v, st.quants[q].s, 0, st.quants[q].bits), st.quants[q].s, 0)
Scaled(st, l) == st.layers[l].kind = "scaled"

(* ------------------------------------------------------------------- forward *)
Layer(st, l, x, w, b) ==
  LET y == (Q(st, st.at[l].input, x) * w) + b IN Q(st, st.at[l].output, y)
QW(st, l) == LET w == st.w[st.layers[l].w] IN IF Scaled(st, l) THEN Q(st, st.at[l].weight, 2 * w) ELSE Q(st, st.at[l].weight, w)
QB(st, l) == Q(st, st.at[l].bias, st.b[l])
RECURSIVE Forward(_, _, _)
Forward(st, visits, x) ==
  IF visits = <<>> THEN x ELSE Forward(st, Tail(visits), Layer(st, visits[1], x, QW(st, visits[1]), QB(st, visits[1])))

(* -------------------------------------------------------------------- fusing *)
\* layers whose weight (or bias) quantizer is fused
Targets(st, par, sel) == {l \in Ls(st) : (st.layers[l].kind = "linear" \/ par = "bias") /\ st.at[l][par] # 0 /\ l \in sel}
Val(st, par, l) == IF par = "weight" THEN st.w[st.layers[l].w] ELSE st.b[l]
QVal(st, par, l) == Q(st, st.at[l][par], Val(st, par, l))
SamePar(st, par, l, m) == l = m \/ (par = "weight" /\ st.layers[l].w = st.layers[m].w)
\* others that use the same weight, but are not known to quantize it alike
Others(st, par, T, l) ==
  {m \in Ls(st) \ T : SamePar(st, par, l, m) /\ ~\E k \in T : SamePar(st, par, k, l) /\ \E s \in {"input", "weight", "bias", "output"} : st.at[m][s] = st.at[k][par]}
Conflict(st, par, T) ==
  \E l \in T : LET group == {m \in T : SamePar(st, par, l, m)}
                   vals == {QVal(st, par, m) : m \in group} \cup (IF Others(st, par, T, l) # {} THEN {Val(st, par, l)} ELSE {}) IN
               Cardinality(vals) > 1
Stubbed(st, par, T) == [l \in Ls(st) |-> IF l \in T THEN [st.at[l] EXCEPT ![par] = 0] ELSE st.at[l]]
Fuse(st, par, T, stub) ==
  LET w2 == [i \in 1..Len(st.w) |-> LET U == {l \in T : st.layers[l].w = i} IN IF par # "weight" \/ U = {} THEN st.w[i] ELSE QVal(st, par, CHOOSE l \in U : TRUE)]
      b2 == [l \in Ls(st) |-> IF par = "bias" /\ l \in T THEN QVal(st, par, l) ELSE st.b[l]] IN
  [st EXCEPT !.w = w2, !.b = b2, !.at = IF stub THEN Stubbed(st, par, T) ELSE st.at]

(* ------------------------------------------------------------------ freezing *)
(* A: quantizers of something that is not a parameter; these are kept            *)
(* F: the parameters frozen so far: <<"w", i, quantizer>> or <<"b", layer, quantizer>> *)
Over(st, sel, q) == q # 0 /\ \E l \in sel : \E s \in {"input", "weight", "bias", "output"} : st.at[l][s] = q
OwnsW(st, sel, i) == \E l \in sel : st.layers[l].w = i
FreezeW(f, sel, l) ==
  LET st == f.st
      i == st.layers[l].w
      q == st.at[l].weight IN
  IF Scaled(st, l) \/ ~Over(st, sel, q) \/ ~OwnsW(st, sel, i) THEN f
  ELSE IF <<"w", i, q>> \in f.F THEN f
  ELSE [f EXCEPT !.st.w[i] = Q(st, q, st.w[i]), !.F = @ \cup {<<"w", i, q>>}]
FreezeB(f, sel, l) ==
  LET q == f.st.at[l].bias IN
  IF ~Over(f.st, sel, q) \/ l \notin sel \/ <<"b", l, q>> \in f.F THEN f
  ELSE [f EXCEPT !.st.b[l] = Q(f.st, q, @), !.F = @ \cup {<<"b", l, q>>}]
\* the values a layer computes with while parameters are frozen
FW(f, l) == IF <<"w", f.st.layers[l].w, f.st.at[l].weight>> \in f.F /\ ~Scaled(f.st, l) THEN f.st.w[f.st.layers[l].w] ELSE QW(f.st, l)
FB(f, l) == IF <<"b", l, f.st.at[l].bias>> \in f.F THEN f.st.b[l] ELSE QB(f.st, l)
RECURSIVE FreezeForward(_, _, _, _)
FreezeForward(f, sel, visits, x) ==
  IF visits = <<>> THEN [f |-> f, y |-> x]
  ELSE LET l == visits[1]
           a == {f.st.at[l].input, f.st.at[l].output} \cup (IF Scaled(f.st, l) THEN {f.st.at[l].weight} ELSE {})
           g == [FreezeB(FreezeW(f, sel, l), sel, l) EXCEPT !.A = @ \cup a] IN
       FreezeForward(g, sel, Tail(visits), Layer(g.st, l, x, FW(g, l), FB(g, l)))
RECURSIVE Freeze(_, _, _, _)
Freeze(f, sel, passes, ys) ==
  IF passes = <<>> THEN [f |-> f, ys |-> ys]
  ELSE LET r == FreezeForward(f, sel, passes[1].visits, passes[1].x) IN Freeze(r.f, sel, Tail(passes), Append(ys, r.y))
Thawed(f, sel) ==
  [l \in Ls(f.st) |->
     IF l \notin sel THEN f.st.at[l]
     ELSE [s \in {"input", "weight", "bias", "output"} |->
            LET q == f.st.at[l][s] IN
            IF q # 0 /\ q \notin f.A /\ (<<"w", f.st.layers[l].w, q>> \in f.F \/ <<"b", l, q>> \in f.F) THEN 0 ELSE f.st.at[l][s]]]

(* ---------------------------------------------------------------------- steps *)
Range2(s) == {s[i] : i \in DOMAIN s}
\* which quantizer is where: the first location of the same object
Locations(st) == [k \in 1..(4 * Len(st.layers)) |-> LET l == (k - 1) \div 4 + 1 IN st.at[l][Slots[((k - 1) % 4) + 1]]]
View(st) ==
  LET loc == Locations(st) IN
  <<st.w, st.b, [k \in DOMAIN loc |-> IF loc[k] = 0 THEN 0 ELSE CHOOSE j \in DOMAIN loc : loc[j] = loc[k] /\ \A i \in 1..(j - 1) : loc[i] # loc[k]],
    [k \in DOMAIN loc |-> IF loc[k] = 0 THEN <<>> ELSE <<st.quants[loc[k]].s, st.quants[loc[k]].bits>>], 0>>

FStep(st, e) ==
  LET Res(s, o) == [st |-> s, out |-> <<o, View(s)>>] IN
  CASE e.op = "put" -> Res([st EXCEPT !.quants = Append(@, [kind |-> e.kind, s |-> e.s, bits |-> e.bits]), !.at[e.l][e.slot] = Len(st.quants) + 1], "ok")
    [] e.op = "share" -> Res([st EXCEPT !.at[e.l][e.slot] = st.at[e.m][e.src]], "ok")
    [] e.op = "stub" -> Res([st EXCEPT !.at[e.l][e.slot] = 0], "ok")
    [] e.op = "setw" -> Res([st EXCEPT !.w[e.i] = e.v], "ok")
    [] e.op = "forward" -> Res(st, Forward(IF e.disabled THEN [st EXCEPT !.at = [l \in Ls(st) |-> [s \in {"input", "weight", "bias", "output"} |-> 0]]] ELSE st, e.visits, e.x))
    [] e.op = "find" -> Res(st, [i \in 1..Cardinality(Targets(st, "weight", Ls(st))) |-> CHOOSE l \in Targets(st, "weight", Ls(st)) : Cardinality({m \in Targets(st, "weight", Ls(st)) : m < l}) = i - 1])
    [] e.op = "fuse" ->
         LET T == Targets(st, e.par, Range2(e.sel)) IN
         IF e.disabled THEN Res(st, "ok")
         ELSE IF Conflict(st, e.par, T) THEN Res(st, "QuantizationError")
         ELSE Res(Fuse(st, e.par, T, e.stub), "ok")
    [] e.op = "stubw" -> Res([st EXCEPT !.at = Stubbed(st, e.par, Targets(st, e.par, Range2(e.sel)))], "ok")
    [] e.op = "freeze" ->
         LET sel == Range2(e.sel)
             none == [st EXCEPT !.at = [l \in Ls(st) |-> [s \in {"input", "weight", "bias", "output"} |-> 0]]]
             r == Freeze([st |-> IF e.disabled THEN none ELSE st, F |-> {}, A |-> {}], sel, e.passes, <<>>)
             done == IF e.disabled THEN st ELSE IF e.remove THEN [r.f.st EXCEPT !.at = Thawed(r.f, sel)] ELSE r.f.st IN
         Res(done, r.ys)
==================================================================================
