----------------------------- MODULE QTensorOpsMC -----------------------------
(* Algebraic laws of the operations on every small tensor, and all short programs *)
(* over a menu of operations, for replay.                                          *)
EXTENDS QTensorOps, Json
CONSTANTS Depth, Gen, Shapes
VARIABLES hist, st, cur
LawShapes == {<<2>>, <<2, 3>>, <<3, 2, 2>>}
QuickShapes == {<<3>>, <<2, 3>>}
FullShapes == {<<3>>, <<2, 3>>, <<3, 2>>, <<2, 2, 2>>}
T0(shape) == <<shape, [k \in 1..Prod(shape) |-> k]>>
Init == \E s \in Shapes : st = <<T0(s)>> /\ hist = <<s>> /\ cur = 1

Dims(t) == (-Rank(t))..(Rank(t) - 1)
FullS == <<"slice", <<>>, <<>>, 1>>
Menu(t, a) ==
  {[op |-> "transpose", a |-> a, x |-> x, y |-> y] : x, y \in {d \in Dims(t) : d >= 0 \/ d = -1}}
  \cup {[op |-> "unsqueeze", a |-> a, x |-> x] : x \in (-Rank(t) - 1)..Rank(t)}
  \cup {[op |-> "squeeze", a |-> a, ds |-> <<>>]}
  \cup {[op |-> "flatten", a |-> a, x |-> 0, y |-> -1]}
  \cup {[op |-> "reshape", a |-> a, shape |-> <<-1>>], [op |-> "reshape", a |-> a, shape |-> <<2, -1>>]}
  \cup {[op |-> "copy", a |-> a, how |-> "clone"]}
  \cup {[op |-> "index", a |-> a, items |-> <<i>>] : i \in {<<"int", 0>>, <<"int", -1>>, <<"new">>, <<"ell">>,
            <<"slice", <<1>>, <<>>, 1>>, <<"slice", <<>>, <<-1>>, 1>>, <<"slice", <<>>, <<>>, 2>>, <<"list", <<1, 0>>>>, <<"list", <<-1, -1, 0>>>>}}
  \cup (IF Rank(t) < 2 THEN {} ELSE
        {[op |-> "index", a |-> a, items |-> <<i, j>>] : i \in {FullS, <<"int", 1>>, <<"ell">>, <<"new">>, <<"slice", <<1>>, <<>>, 1>>},
            j \in {<<"int", 0>>, <<"slice", <<1>>, <<>>, 1>>, <<"list", <<1, 0>>>>}})
  \cup {[op |-> "cat", a |-> a, as |-> <<a, a>>, x |-> x] : x \in {0, -1}}
  \cup {[op |-> "split", a |-> a, n |-> 1, x |-> x] : x \in {0, -1}}
  \cup {[op |-> "topk", a |-> a, n |-> 1, x |-> -1, largest |-> l] : l \in BOOLEAN}
  \cup {[op |-> "mul", a |-> a, n |-> -1]}
Valid(t) == Rank(t) \in 1..3 /\ \A d \in DOMAIN t[1] : t[1][d] >= 2
Next ==
  /\ Len(hist) <= Depth
  /\ \E i \in {cur} : LET t == st[i] IN
     /\ Valid(t)
     /\ \E e0 \in {m \in Menu(t, i) : m.op = "reshape" /\ Len(m.shape) = 2 => Prod(t[1]) % 2 = 0} :
         LET e == e0 @@ [gran |-> "?", refused |-> FALSE]
             r == Step(st, e) IN
         /\ st' = r.st /\ cur' = Len(r.st)
         /\ hist' = Append(hist, e @@ [out |-> r.out])
Shape(t) == t[1]
Laws == \A i \in DOMAIN st : LET t == st[i] IN
  /\ Len(t[2]) = Prod(t[1])
  /\ Valid(t) => \A x \in Dims(t), y \in Dims(t) :
       /\ Transpose(Transpose(t, x, y), x, y) = t
       /\ Transpose(t, x, y) = Transpose(t, y, x)
       /\ Cat(Split(t, 1, x), x) = t
       /\ Split(Cat(<<t, t>>, x), t[1][At(t[1], x)], x) = <<t, t>>
       /\ Squeeze(Unsqueeze(t, x), <<x>>) = t
       /\ Index(t, <<<<"ell">>>>) = t
       /\ Index(Unsqueeze(t, 0), <<<<"int", 0>>>>) = t
       /\ Index(t, <<<<"new">>>>) = Unsqueeze(t, 0)
       /\ Index(t, <<<<"slice", <<1>>, <<>>, 1>>>>) = Narrow(t, 0, 1, t[1][1] - 1)
       /\ Index(t, <<<<"list", <<0>>>>>>) = Narrow(t, 0, 0, 1)
       /\ Reshape(Flatten(t, 0, -1), t[1]) = t
       /\ TopK(t, 1, x, TRUE)[2] = Mul(TopK(Mul(t, -1), 1, x, FALSE), -1)[2]
Emit == (~Gen \/ (Len(hist) <= Depth /\ Valid(st[cur])) \/ Len(hist) = 1) \/ PrintT("VFGEN " \o ToJson(hist))
===============================================================================
