--------------------------------- MODULE Offload ---------------------------------
(* Moving modules and values around the calls of a run, and leaving out transfers    *)
(* that change nothing (C23).                                                         *)
(*                                                                                    *)
(* The run is a sequence of steps <<module, reads, writes>>; two modules may share a  *)
(* parameter, which then moves with either.  The full program moves every module to   *)
(* storage first, to compute and back around each call, and home at the end; values   *)
(* are moved to compute before, and to storage after a call.  Any transfer that the   *)
(* preceding instructions prove to be void may be left out; so may two adjacent        *)
(* transfers of one module that end where it already is.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Steps, Shared
VARIABLES prog, pc, dev, val, known
Mods == {"A", "B"}
Vals == {0, 1, 2}
Params(m) == IF m = "A" THEN {"a", "s"} ELSE IF Shared THEN {"b", "s"} ELSE {"b"}
AllParams == {"a", "b", "s"}
Homes == {"compute", "storage", "other"}

Calls == UNION {[1..n -> Mods \X {0, 1}] : n \in 0..Steps}
Around(i, c) == <<<<"mod", c[1], "compute">>, <<"val", c[2], "compute">>, <<"call", c[1], c[2], (i % 2) + 1>>, <<"val", (i % 2) + 1, "storage">>, <<"mod", c[1], "storage">>>>
RECURSIVE Full(_, _)
Full(cs, i) == IF cs = <<>> THEN <<>> ELSE Around(i, cs[1]) \o Full(Tail(cs), i + 1)
Program(cs) == <<<<"mod", "A", "storage">>, <<"mod", "B", "storage">>>> \o Full(cs, 1) \o <<<<"home">>>>

Init == /\ \E cs \in Calls : prog = Program(cs)
        /\ pc = 1
        /\ dev \in [now : [AllParams -> Homes], home : [AllParams -> Homes]] /\ dev.now = dev.home
        /\ val = [v \in Vals |-> "storage"]
        /\ known = [m \in Mods |-> "unknown"]
Cur == prog[pc]
Put(m, d) == [dev EXCEPT !.now = [p \in AllParams |-> IF p \in Params(m) THEN d ELSE @[p]]]
\* A shared parameter moves with the other module.
Forget(m, d) == [x \in Mods |-> IF x = m THEN d ELSE IF Shared /\ known[x] # d THEN "unknown" ELSE known[x]]
Do == /\ pc <= Len(prog)
      /\ pc' = pc + 1 /\ UNCHANGED prog
      /\ CASE Cur[1] = "mod" -> dev' = Put(Cur[2], Cur[3]) /\ known' = Forget(Cur[2], Cur[3]) /\ UNCHANGED val
           [] Cur[1] = "val" -> val' = [val EXCEPT ![Cur[2]] = Cur[3]] /\ UNCHANGED <<dev, known>>
           [] Cur[1] = "call" -> /\ val' = [val EXCEPT ![Cur[4]] = "compute"]
                                 /\ known' = known /\ UNCHANGED dev
           [] OTHER -> dev' = [dev EXCEPT !.now = dev.home] /\ UNCHANGED <<val, known>>
\* Leave out a pair that ends where the module is, or a value transfer to where the value is.
SkipPair == /\ pc < Len(prog) /\ Cur[1] = "mod" /\ prog[pc + 1][1] = "mod" /\ Cur[2] = prog[pc + 1][2]
            /\ known[Cur[2]] = prog[pc + 1][3]
            /\ pc' = pc + 2 /\ UNCHANGED <<prog, dev, val, known>>
SkipVal == /\ pc <= Len(prog) /\ Cur[1] = "val" /\ val[Cur[2]] = Cur[3] /\ pc' = pc + 1 /\ UNCHANGED <<prog, dev, val, known>>
\* A transfer of a value that is moved again before it is read.
Later == {i \in (pc + 1)..Len(prog) : prog[i][1] \in {"call", "val"} /\ prog[i][IF prog[i][1] = "call" THEN 3 ELSE 2] = Cur[2]}
SkipOverridden == /\ pc <= Len(prog) /\ Cur[1] = "val" /\ Later # {} /\ prog[CHOOSE i \in Later : \A j \in Later : i <= j][1] = "val"
                  /\ pc' = pc + 1 /\ UNCHANGED <<prog, dev, val, known>>
Next == Do \/ SkipPair \/ SkipVal \/ SkipOverridden
Placed == (pc <= Len(prog) /\ Cur[1] = "call") => /\ \A p \in Params(Cur[2]) : dev.now[p] = "compute"
                                                  /\ val[Cur[3]] = "compute"
Home == pc > Len(prog) => dev.now = dev.home
================================================================================
