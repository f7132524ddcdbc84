--------------------------------- MODULE GPTQMC ---------------------------------
(* The block size is immaterial, the result is the relation of part 1, and without*)
(* coupling it is rounding.                                                       *)
EXTENDS GPTQ, TLC
CONSTANTS N, WMax, Neg
VARIABLES w, l, g, s0
vars == <<w, l, g, s0>>
Pairs == {p \in (1..N) \X (1..N) : p[1] < p[2]}
MCInit == /\ w \in [1..N -> (-WMax)..WMax]
          /\ \E f \in [Pairs -> IF Neg THEN {-1, 0, 1} ELSE {0, 1}] : l = [j \in 1..N |-> [k \in 1..N |-> IF j < k THEN f[<<j, k>>] ELSE IF j = k THEN 1 ELSE 0]]
          /\ g \in {k \in 0..N : k = 0 \/ N % k = 0}
          /\ s0 \in IF g = 0 THEN {1, 2} ELSE {1}
MCNext == UNCHANGED vars
AsSeq == [k \in 1..N |-> w[k]]
Ref == Seqn(AsSeq, l, g, s0, 1)
BlockFree == \A B \in 1..(N + 1) : Blk(AsSeq, l, g, B, s0, 1, 0, <<>>) = Ref
\* the relation: corrected values in terms of the final weights only
RECURSIVE Rel(_, _)
Rel(q, E) == IF Len(E) = N THEN E
             ELSE LET p == Len(E) + 1 IN Rel(q, Append(E, w[p] - SumTo([k \in 1..(p - 1) |-> E[k] * l[k][p]], p - 1) - q[p]))
Relation ==
  LET E == Rel(Ref, <<>>)
      v(p, k) == w[p] - SumTo([m \in 1..k |-> E[m] * l[m][p]], k)
      sc(p) == IF g = 0 THEN s0 ELSE LET b == ((p - 1) \div g) * g IN GroupScale([k \in 1..g |-> v(b + k, b)]) IN
  \A p \in 1..N : Ref[p] = GCode(v(p, p - 1), sc(p)) * sc(p)
Rounding == (\A j, k \in 1..N : j < k => l[j][k] = 0) /\ g = 0 => \A p \in 1..N : Ref[p] = GCode(w[p], s0) * s0
=================================================================================
