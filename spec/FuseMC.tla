--------------------------------- MODULE FuseMC ---------------------------------
EXTENDS Fuse
CONSTANTS Len0
VARIABLES n, st, prev, last, out
L(k, w) == [kind |-> k, w |-> w]
Cfgs == { [layers |-> <<L("linear", 1), L("linear", 2)>>, w |-> <<5, -3>>, b |-> <<1, 2>>],
          [layers |-> <<L("linear", 1), L("linear", 1)>>, w |-> <<5>>, b |-> <<1, 2>>],
          [layers |-> <<L("linear", 1), L("scaled", 2)>>, w |-> <<3, 3>>, b |-> <<1, 0>>] }
All == <<1, 2>>
Init == n = 0 /\ \E c \in Cfgs : st = FInit(c) /\ prev = st /\ last = [op |-> "none"] /\ out = <<>>
P(l, s, k, sc) == [op |-> "put", l |-> l, slot |-> s, kind |-> k, s |-> sc, bits |-> 3]
Events ==
  {P(l, s, "linear", sc) : l \in {1, 2}, s \in {"input", "weight", "bias"}, sc \in {2, 4}} \cup {P(1, "weight", "minus", 0)}
  \cup {[op |-> "share", l |-> 2, m |-> 1, slot |-> "weight", src |-> s] : s \in {"weight", "input"}}
  \cup {[op |-> "fuse", par |-> p, sel |-> s, stub |-> b, disabled |-> FALSE] : p \in {"weight", "bias"}, s \in {All, <<1>>}, b \in BOOLEAN}
  \cup {[op |-> "freeze", sel |-> s, remove |-> b, disabled |-> FALSE, passes |-> << [visits |-> All, x |-> 3] >>] : s \in {All, <<2>>}, b \in BOOLEAN}
Next == n < Len0 /\ n' = n + 1 /\ \E e \in Events : LET r == FStep(st, e) IN st' = r.st /\ out' = r.out /\ prev' = st /\ last' = e
Idem(s) == \A l \in Ls(s) : \A sl \in {"weight", "bias"} : s.at[l][sl] # 0 => s.quants[s.at[l][sl]].kind # "minus"
Xs == {-3, 2, 5}
\* weights used by several layers are quantized alike by all of them
TiesAgree(s) == \A l, m \in Ls(s) : s.layers[l].w = s.layers[m].w => s.at[l].weight = s.at[m].weight
\* no quantizer is used at different slots
OwnSlots(s) == \A l, m \in Ls(s), a, b \in {"input", "weight", "bias"} : (s.at[l][a] = s.at[m][b] /\ s.at[l][a] # 0) => a = b
Inv ==
  /\ (last.op = "fuse" /\ out[1] = "ok" /\ OwnSlots(prev)) =>
       LET T == Targets(prev, last.par, Range2(last.sel)) IN
       /\ (last.stub /\ TiesAgree(prev) /\ \A l \in T : \A m \in Ls(st) \ T : ~SamePar(prev, last.par, l, m)) \/ Idem(prev) =>
            (T = Targets(prev, last.par, {l \in Ls(st) : \E m \in T : SamePar(prev, last.par, l, m)}) =>
               \A x \in Xs : Forward(st, All, x) = Forward(prev, All, x))                  \* the function is kept
       /\ \A l \in Ls(st) : (\A m \in T : ~SamePar(st, last.par, l, m)) => Val(st, last.par, l) = Val(prev, last.par, l)
       /\ \A l \in Ls(st), s \in {"input", "weight", "bias", "output"} : st.at[l][s] = (IF last.stub /\ s = last.par /\ l \in T THEN 0 ELSE prev.at[l][s])
       /\ (Idem(prev) \/ last.stub) => FStep(st, last).st = st \/ FStep(st, last).out[1] # "ok"     \* doing it again changes nothing
  /\ (last.op = "fuse" /\ out[1] # "ok") => st = prev
  /\ last.op = "freeze" =>
       /\ (TiesAgree(prev) /\ \A l \in Range2(last.sel), m \in Ls(st) \ Range2(last.sel) : prev.layers[l].w # prev.layers[m].w) =>
            /\ out[1] = <<Forward(prev, All, 3)>>
            /\ ((last.remove /\ \A l, m \in Ls(st) : prev.at[l].weight = prev.at[m].weight => Scaled(st, l) = Scaled(st, m)) \/ Idem(prev)) => \A x \in Xs : Forward(st, All, x) = Forward(prev, All, x)
       /\ \A l \in Ls(st) : st.at[l].input = prev.at[l].input /\ st.at[l].output = prev.at[l].output
       /\ \A l \in Ls(st) \ Range2(last.sel) : st.at[l] = prev.at[l] /\ st.b[l] = prev.b[l]
       /\ ~last.remove => st.at = prev.at
       /\ \A l \in Range2(last.sel) : last.remove => 
            /\ st.at[l].bias = 0
            /\ ~Scaled(st, l) => st.at[l].weight = 0 \/ \E m \in Ls(prev) : st.at[l].weight \in {prev.at[m].input, prev.at[m].output, IF Scaled(prev, m) THEN prev.at[m].weight ELSE 0}
==================================================================================
