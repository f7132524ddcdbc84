--------------------------------- MODULE MPath ---------------------------------
(* What a module path query denotes.                                              *)
(*   model: root 0, modules 1..n; edges <<parent, name, child>>; classes and tags  *)
(*          of every module                                                        *)
(*   query: sequence of items                                                      *)
(*     <<"name", s>>  <<"any">>  <<"deep">> (zero or more modules)                  *)
(*     <<"re", names>> (the names the expression fully matches)  <<"cls", c>>       *)
(*     <<"tag", t>>  <<"not", f>>  <<"and", f, g>>  <<"or", f, g>>                   *)
(*     <<"alt", queries>>                                                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Elems(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Fits(_, _, _, _)
Fits(m, f, name, node) ==
  CASE f[1] = "name" -> name = f[2]
    [] f[1] = "any" -> TRUE
    [] f[1] = "re" -> name \in Elems(f[2])
    [] f[1] = "cls" -> f[2] \in Elems(m.classes[node])
    [] f[1] = "tag" -> f[2] \in Elems(m.tags[node])
    [] f[1] = "not" -> ~Fits(m, f[2], name, node)
    [] f[1] = "and" -> Fits(m, f[2], name, node) /\ Fits(m, f[3], name, node)
    [] f[1] = "or" -> Fits(m, f[2], name, node) \/ Fits(m, f[3], name, node)
RECURSIVE Below(_, _)
Below(m, S) == LET T == S \cup {e[3] : e \in {e \in Elems(m.edges) : e[1] \in S}} IN IF T = S THEN S ELSE Below(m, T)
(* the modules reached from the modules in S by paths that spell a word of q       *)
RECURSIVE Sel(_, _, _)
One(m, f, S) ==
  CASE f[1] = "deep" -> Below(m, S)
    [] f[1] = "alt" -> UNION {Sel(m, f[2][i], S) : i \in DOMAIN f[2]}
    [] OTHER -> {e[3] : e \in {e \in Elems(m.edges) : e[1] \in S /\ Fits(m, f, e[2], e[3])}}
Sel(m, q, S) == IF q = <<>> THEN S ELSE Sel(m, Tail(q), One(m, q[1], S))
Select(m, q) == Sel(m, q, {0}) \ {0}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Sorted(S \ {x})
===============================================================================
