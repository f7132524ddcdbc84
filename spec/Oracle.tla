-------------------------------- MODULE Oracle --------------------------------
(* Evaluates what a specification demands for inputs chosen by the harness:      *)
(* one initial state per input, one printed expectation per input.               *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Expect(_), VFInputs
VARIABLE n
OracleInit == n \in 1..Len(VFInputs) /\ PrintT("VFEXP " \o ToJson(<<n, Expect(VFInputs[n])>>))
OracleNext == UNCHANGED n
===============================================================================
