------------------------------- MODULE Listing -------------------------------
(* The quantizers of a model: listings, quantizer states and summaries          *)
(* (fastforward.nn.quantized_module).                                           *)
(* A model is a DAG of modules, module 1 the root.  m.kind[i] is "plain",       *)
(* "quant" or "stub"; m.kids[i] the sequence of [name, to] (to = 0: nothing      *)
(* there); m.set[i] the settings of a quantizer (a number), m.state[i] its       *)
(* state: a sequence of [name, value], m.ready[i] whether it has its state.  Paths are sequences of names.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))

\* all locations below module i, in the order of registration
RECURSIVE Paths(_, _)
Paths(m, i) ==
  <<[path |-> <<>>, at |-> i]>> \o
  Flat([j \in DOMAIN m.kids[i] |->
     IF m.kids[i][j].to = 0 THEN <<>>
     ELSE LET sub == Paths(m, m.kids[i][j].to)
          IN [x \in DOMAIN sub |-> [path |-> <<m.kids[i][j].name>> \o sub[x].path, at |-> sub[x].at]]])
Direct(m, i) ==
  Flat([j \in DOMAIN m.kids[i] |-> IF m.kids[i][j].to = 0 THEN <<>> ELSE <<[path |-> <<m.kids[i][j].name>>, at |-> m.kids[i][j].to]>>])
\* only the first location of each module
First(s) ==
  LET keep == {j \in DOMAIN s : \A x \in 1..(j - 1) : s[x].at # s[j].at}
  IN Flat([j \in DOMAIN s |-> IF j \in keep THEN <<s[j]>> ELSE <<>>])

Listed(m, prefix, recurse, dedup, skip) ==
  LET all == IF recurse THEN Paths(m, 1) ELSE Direct(m, 1)
      some == IF dedup THEN First(all) ELSE all
      qs == SelectSeq(some, LAMBDA x : m.kind[x.at] = "quant" \/ (m.kind[x.at] = "stub" /\ ~skip))
  IN [j \in DOMAIN qs |-> [path |-> prefix \o qs[j].path, at |-> qs[j].at]]

\* the state of every initialized quantizer under its first name, and of the quantizers it contains
Below(m, i) == {Paths(m, i)[y].at : y \in DOMAIN Paths(m, i)}
State(m) ==
  LET qs == SelectSeq(Listed(m, <<>>, TRUE, TRUE, TRUE), LAMBDA p : \A b \in Below(m, p.at) : m.ready[b])
  IN UNION {UNION {{<<qs[j].path \o p.path \o <<m.state[p.at][x].name>>, m.state[p.at][x].value>> : x \in DOMAIN m.state[p.at]}
                   : p \in {Paths(m, qs[j].at)[y] : y \in DOMAIN Paths(m, qs[j].at)}} : j \in DOMAIN qs}
\* number of values that have a place in the state
InState(m, i) == \E s \in State(m) : \E p \in {Paths(m, 1)[y] : y \in DOMAIN Paths(m, 1)} :
  p.at = i /\ \E x \in DOMAIN m.state[i] : s[1] = p.path \o <<m.state[i][x].name>>

\* groups of a sequence by key, largest first and otherwise in order of appearance
Groups(s, Key(_)) ==
  LET heads == SelectSeq([j \in DOMAIN s |-> j], LAMBDA j : \A x \in 1..(j - 1) : Key(s[x]) # Key(s[j]))
      grp(j) == SelectSeq(s, LAMBDA x : Key(x) = Key(s[j]))
      before(a, b) == Len(grp(a)) > Len(grp(b)) \/ (Len(grp(a)) = Len(grp(b)) /\ a < b)
      rank(j) == Cardinality({a \in {heads[x] : x \in DOMAIN heads} : before(a, j)}) + 1
  IN [r \in DOMAIN heads |-> grp(CHOOSE j \in {heads[x] : x \in DOMAIN heads} : rank(j) = r)]
Number(m, n) == n \in {m.digits[i] : i \in DOMAIN m.digits}
Summary(m) ==
  LET pattern(p) == [i \in DOMAIN p.path |-> IF Number(m, p.path[i]) THEN "[]" ELSE p.path[i]]
      gs == Groups(Listed(m, <<>>, TRUE, TRUE, TRUE), LAMBDA p : m.set[p.at])
  IN [g \in DOMAIN gs |->
        LET ls == Groups(gs[g], pattern)
        IN [set |-> m.set[gs[g][1].at], names |-> [j \in DOMAIN gs[g] |-> gs[g][j].path],
            lines |-> [l \in DOMAIN ls |-> <<IF Len(ls[l]) = 1 THEN ls[l][1].path ELSE pattern(ls[l][1]), Len(ls[l])>>]]]
===============================================================================
