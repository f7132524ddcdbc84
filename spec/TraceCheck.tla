------------------------------ MODULE TraceCheck ------------------------------
(* Generic validator of traces recorded from the real code against a          *)
(* specification given as a deterministic step function.                       *)
(*                                                                             *)
(*   InitSt(cfg)   the specification's initial state for a trace configuration *)
(*   Step(st, e)   [st |-> next state, out |-> observation the specification   *)
(*                  allows for event e]                                        *)
(*                                                                             *)
(* A trace is [id, cfg, events]; every event carries the observation `out` the *)
(* implementation produced.  Every trace gets a verdict: VFDONE if all of its  *)
(* events are behaviours of the specification, VFBAD with the first offending  *)
(* event and the observation the specification demands otherwise.              *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS InitSt(_), Step(_, _), VFTraces
VARIABLES tid, pos, st, ok

Same(a, b) == ToJson(a) = ToJson(b)

TraceInit ==
  /\ tid \in 1..Len(VFTraces)
  /\ pos = 0
  /\ st = InitSt(VFTraces[tid].cfg)
  /\ ok = TRUE

TraceNext ==
  /\ ok
  /\ LET evs == VFTraces[tid].events IN
     \/ /\ pos < Len(evs)
        /\ LET e == evs[pos + 1]
               r == Step(st, e)
               good == Same(e.out, r.out)
           IN /\ st' = r.st
              /\ ok' = good
              /\ pos' = pos + 1
              /\ IF good THEN TRUE ELSE PrintT("VFBAD " \o ToJson(<<tid, pos + 1, r.out>>))
     \/ /\ pos = Len(evs)
        /\ PrintT("VFDONE " \o ToString(tid))
        /\ pos' = pos + 1
        /\ UNCHANGED <<st, ok>>
  /\ UNCHANGED tid
===============================================================================
