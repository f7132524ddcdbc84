------------------------------ MODULE Collections ------------------------------
(* Collections of search results and updates of the model through them.           *)
(*   child : <<parent module, attribute>> -> module (0 is the root)                *)
(*   colls : collections, each a set of results [name, mod, par, attr]             *)
(* Modules are numbered; replacements get fresh numbers.  A result is reported as   *)
(* 1000 * position of its name + number of its module.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Elems(s) == {s[i] : i \in DOMAIN s}
\* names: cfg.names[i] = <<name of parent (position, 0 for root), attribute>>
RECURSIVE ModAt(_, _)
ModAt(st, i) == IF i = 0 THEN 0
                ELSE LET p == ModAt(st, st.names[i][1]) IN
                     IF p = -1 \/ <<p, st.names[i][2]>> \notin DOMAIN st.child THEN -1 ELSE st.child[<<p, st.names[i][2]>>]
Results(st) == {[name |-> i, mod |-> ModAt(st, i), par |-> ModAt(st, st.names[i][1]), attr |-> st.names[i][2]] : i \in {i \in DOMAIN st.names : ModAt(st, i) # -1}}
Code(r) == 1000 * r.name + r.mod
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Sorted(S \ {x})
Codes(C) == Sorted({Code(r) : r \in C})
InitSt(cfg) ==
  LET n == Len(cfg.names) IN
  [names |-> cfg.names, child |-> [k \in {<<cfg.names[i][1], cfg.names[i][2]>> : i \in 1..n} |->
       CHOOSE i \in 1..n : <<cfg.names[i][1], cfg.names[i][2]>> = k], colls |-> <<>>, fresh |-> n]
Put(st, C) == [st EXCEPT !.colls = Append(@, C)]
Model(st) == [i \in DOMAIN st.names |-> ModAt(st, i)]

(* apply: one result after the other; a result is refused if its location does not  *)
(* hold its module any more                                                          *)
RECURSIVE Apply(_, _, _, _, _)
Apply(st, C, e, k, calls) ==
  IF k > Len(e.order) THEN [st |-> st, C |-> C, calls |-> calls, end |-> "ok"]
  ELSE LET r == CHOOSE r \in C : Code(r) = e.order[k]
           c2 == Append(calls, Code(r))
           key == <<r.par, r.attr>>
           new == st.fresh + 1
       IN IF e.fail = r.name THEN [st |-> st, C |-> C, calls |-> c2, end |-> "raised"]
          ELSE IF ~e.update \/ r.name \notin Elems(e.change) THEN Apply(st, C, e, k + 1, c2)
          ELSE IF e.safe /\ ~(key \in DOMAIN st.child /\ st.child[key] = r.mod) THEN [st |-> [st EXCEPT !.fresh = new], C |-> C, calls |-> c2, end |-> "refused"]
          ELSE Apply([st EXCEPT !.fresh = new, !.child = [x \in DOMAIN @ \cup {key} |-> IF x = key THEN new ELSE @[x]]],
                     (C \ {r}) \cup {[r EXCEPT !.mod = new]}, e, k + 1, c2)
Binary(st, op, A, B) ==
  CASE op = "union" -> A \cup B [] op = "intersection" -> A \cap B
    [] op = "difference" -> A \ B [] op = "symmetric_difference" -> (A \ B) \cup (B \ A)
Step(st, e) ==
  CASE e.op = "search" -> LET C == {r \in Results(st) : r.name \in Elems(e.sel)} IN [st |-> Put(st, C), out |-> Codes(C)]
    [] e.op \in {"union", "intersection", "difference", "symmetric_difference"} ->
         LET C == Binary(st, e.op, st.colls[e.a], st.colls[e.b]) IN [st |-> Put(st, C), out |-> <<Codes(C), Codes(st.colls[e.a]), Codes(st.colls[e.b])>>]
    [] e.op = "apply" ->
         IF {Code(r) : r \in st.colls[e.a]} # Elems(e.order) THEN [st |-> st, out |-> "other members"]
         ELSE LET a == Apply(st, st.colls[e.a], e, 1, <<>>)
                  s == [a.st EXCEPT !.colls[e.a] = a.C]
              IN [st |-> s, out |-> <<a.end, a.calls, Codes(a.C), Model(s)>>]
    [] e.op = "map" -> [st |-> st, out |-> Codes(st.colls[e.a])]
    [] e.op = "set" ->               \* the model is changed otherwise
         LET p == ModAt(st, st.names[e.name][1])
             key == <<p, st.names[e.name][2]>>
             s == IF p = -1 THEN st ELSE [st EXCEPT !.fresh = @ + 1, !.child = [x \in DOMAIN @ \cup {key} |-> IF x = key THEN st.fresh + 1 ELSE @[x]]]
         IN [st |-> s, out |-> Model(s)]
    [] e.op = "take" ->              \* slice or deletion of members, given by code
         LET C == {r \in st.colls[e.a] : Code(r) \in Elems(e.keep)} IN [st |-> [st EXCEPT !.colls[e.a] = C], out |-> Codes(C)]
===============================================================================
