-------------------------------- MODULE MPathMC --------------------------------
EXTENDS MPath, Json
CONSTANTS Len0, Gen
VARIABLES m, q
Models == {
  [edges |-> <<<<0, "a", 1>>, <<1, "b", 2>>, <<2, "a", 3>>, <<0, "b", 4>>, <<4, "a", 5>>>>,
   classes |-> <<<<"X">>, <<"X", "Y">>, <<"X">>, <<"Z">>, <<"X", "Y">>>>, tags |-> <<<<>>, <<>>, <<>>, <<>>, <<>>>>],
  [edges |-> <<<<0, "a", 1>>, <<0, "b", 1>>, <<1, "a", 2>>, <<1, "b", 3>>, <<3, "b", 2>>>>,
   classes |-> <<<<"X">>, <<"X", "Y">>, <<"Z">>>>, tags |-> <<<<>>, <<>>, <<>>>>],
  [edges |-> <<<<0, "a", 1>>, <<1, "a", 2>>, <<2, "a", 3>>, <<2, "b", 4>>, <<3, "b", 4>>>>,
   classes |-> <<<<"Z">>, <<"Z">>, <<"X">>, <<"X", "Y">>>>, tags |-> <<<<>>, <<>>, <<>>, <<>>>>]}
A == <<"name", "a">>
B == <<"name", "b">>
D == <<"deep">>
Items == {A, B, <<"any">>, D, <<"not", A>>, <<"cls", "Y">>,
          <<"alt", <<<<A>>, <<D>>>>>>, <<"alt", <<<<D>>>>>>, <<"alt", <<<<A, B>>, <<D, B>>>>>>, <<"alt", <<<<D, A>>, <<D, B>>>>>>,
          <<"alt", <<<<B>>, <<A, D>>>>>>}
Queries == UNION {[1..k -> Items] : k \in 1..Len0}
Init == m \in Models /\ q \in Queries
Next == UNCHANGED <<m, q>>
Inv ==
  LET S == Select(m, q) IN
  /\ 0 \notin S
  \* splitting at any point
  /\ \A k \in 0..Len(q) : Sel(m, q, {0}) = Sel(m, SubSeq(q, k + 1, Len(q)), Sel(m, SubSeq(q, 1, k), {0}))
  \* ** absorbs: repeated ** is one **, and one more ** only adds modules
  /\ Select(m, <<D>> \o q) = Select(m, <<D, D>> \o q)
  /\ S \subseteq Select(m, <<D>> \o q) /\ S \subseteq Select(m, q \o <<D>>)
  \* alternatives distribute
  /\ \A k \in DOMAIN q : q[k][1] = "alt" =>
       S = UNION {Select(m, SubSeq(q, 1, k - 1) \o q[k][2][i] \o SubSeq(q, k + 1, Len(q))) : i \in DOMAIN q[k][2]}
Emit == Gen => PrintT("VFGEN " \o ToJson(<<m, q, Sorted(Select(m, q))>>))
================================================================================
