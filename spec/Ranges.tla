-------------------------------- MODULE Ranges --------------------------------
(* Range estimation.  Values are integers (units of 1/4096 of a data step).         *)
(*   q[i] = [kind, bits, range]   range: <<>> or per tile the admissible <<min,max>>  *)
(*   scopes : open estimations, oldest first: [id, members, est, .., s]; s[i] is the  *)
(*            state of the estimation for quantizer i                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
U == 4096
Elems(s) == {s[i] : i \in DOMAIN s}
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
RoundHE(n, d) == LET f == n \div d  r == n % d IN IF 2 * r < d THEN f ELSE IF 2 * r > d THEN f + 1 ELSE IF f % 2 = 0 THEN f ELSE f + 1
Pow2(k) == 2 ^ k
\* squared error of quantizing x with step s on the codes lo .. lo + 2^bits - 1
Err(x, s, lo, bits) == LET c == RoundHE(x, s)
                           k == IF c < lo THEN lo ELSE IF c > lo + Pow2(bits) - 1 THEN lo + Pow2(bits) - 1 ELSE c
                       IN (x - k * s) * (x - k * s)
RowMin(row) == U * MinOf(Elems(row))
RowMax(row) == U * MaxOf(Elems(row))
\* one step of an estimator: new estimator state (per tile) from old one and the data
Init1(range) == [mm |-> [t \in DOMAIN range |-> CHOOSE p \in Elems(range[t]) : TRUE], errs |-> <<>>, steps |-> 0]
StepEst(sc, es, data, bits) ==
  CASE sc.est = "running" ->
         [es EXCEPT !.mm = [t \in DOMAIN data |-> IF es.mm = <<>> THEN <<RowMin(data[t]), RowMax(data[t])>>
                              ELSE <<MinOf({es.mm[t][1], RowMin(data[t])}), MaxOf({es.mm[t][2], RowMax(data[t])})>>], !.steps = @ + 1]
    [] sc.est = "smoothed" ->
         [es EXCEPT !.mm = [t \in DOMAIN data |-> IF es.mm = <<>> THEN <<RowMin(data[t]), RowMax(data[t])>>
                              ELSE <<(sc.gamma * RowMin(data[t]) + (4 - sc.gamma) * es.mm[t][1]) \div 4, (sc.gamma * RowMax(data[t]) + (4 - sc.gamma) * es.mm[t][2]) \div 4>>], !.steps = @ + 1]
    [] sc.est = "grid" ->
         [es EXCEPT !.errs = [t \in DOMAIN data |-> [k \in DOMAIN sc.cands |->
              (IF es.errs = <<>> THEN 0 ELSE es.errs[t][k]) + SumSeq([j \in DOMAIN data[t] |-> Err(data[t][j], sc.cands[k].s, sc.cands[k].lo, bits)])]], !.steps = @ + 1]
CandRange(c, bits) == <<U * c.s * c.lo, U * c.s * (c.lo + Pow2(bits) - 1)>>
RangeOf(sc, es, bits) ==
  IF sc.est = "grid"
  THEN [t \in DOMAIN es.errs |-> LET best == {k \in DOMAIN sc.cands : es.errs[t][k] = MinOf(Elems(es.errs[t]))} IN
            IF Cardinality(best) = 1 THEN <<CandRange(sc.cands[CHOOSE k \in best : TRUE], bits)>>
            ELSE [k \in 1..Cardinality(best) |-> CandRange(sc.cands[CHOOSE b \in best : Cardinality({c \in best : c < b}) = k - 1], bits)]]
  ELSE [t \in DOMAIN es.mm |-> <<es.mm[t]>>]
Updates(sc, es) == sc.est # "grid" \/ es.steps % sc.every = 0
\* the estimations of quantizer i run newest first; one that disables quantization ends the pass
RECURSIVE Pass(_, _, _, _)
Pass(st, i, data, k) ==
  IF k = 0 THEN [st |-> st, out |-> IF st.q[i].kind = "lin" THEN IF st.q[i].range = <<>> THEN "uninitialized" ELSE "quantized" ELSE st.q[i].kind]
  ELSE LET sc == st.scopes[k] IN
       IF i \notin sc.members THEN Pass(st, i, data, k - 1)
       ELSE LET es == StepEst(sc, sc.s[i], data, st.q[i].bits)
                s1 == [st EXCEPT !.scopes[k].s[i] = es]
                s2 == IF Updates(sc, es) THEN [s1 EXCEPT !.q[i].range = RangeOf(sc, es, st.q[i].bits)] ELSE s1
            IN IF sc.disable THEN [st |-> s2, out |-> "data"] ELSE Pass(s2, i, data, k - 1)
InitSt(cfg) == [q |-> [i \in DOMAIN cfg.q |-> [kind |-> cfg.q[i].kind, bits |-> cfg.q[i].bits, range |-> <<>>]], scopes |-> <<>>]
Step(st, e) ==
  CASE e.op = "setrange" -> [st |-> [st EXCEPT !.q[e.q].range = [t \in DOMAIN e.range |-> <<e.range[t]>>]], out |-> "ok"]
    [] e.op = "open" ->
         LET all == {i \in Elems(e.members) : st.q[i].kind # "stub"}
             bad == {i \in all : st.q[i].kind # "lin"}
             mem == all \ bad
         IN IF bad # {} /\ ~e.skip THEN [st |-> st, out |-> "TypeError"]
            ELSE [st |-> [st EXCEPT !.scopes = Append(@, [id |-> e.id, members |-> mem, est |-> e.est, gamma |-> e.gamma, disable |-> e.disable, every |-> e.every, cands |-> e.cands,
                                        s |-> [i \in mem |-> Init1(st.q[i].range)]])], out |-> "ok"]
    [] e.op = "close" -> [st |-> [st EXCEPT !.scopes = SelectSeq(@, LAMBDA sc : sc.id # e.id)], out |-> "ok"]
    [] e.op = "batch" -> Pass(st, e.q, e.data, Len(st.scopes))
View(st) == [i \in DOMAIN st.q |-> [range |-> st.q[i].range, active |-> \E k \in DOMAIN st.scopes : i \in st.scopes[k].members]]
===============================================================================
