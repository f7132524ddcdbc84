----------------------------- MODULE StrictModules -----------------------------
(* Per-module strictness (strict_quantization_for_module).                       *)
(*                                                                               *)
(* State: the ambient flag, per module the sequence of attached settings, oldest *)
(* first (<<handle, value>>).  cfg.body[m] is module m's forward: a sequence of  *)
(*   <<"see">>        record the flag                                            *)
(*   <<"call", c>>    call module c (exceptions propagate)                       *)
(*   <<"try", c>>     call module c, swallow its exception                       *)
(*   <<"set", v>>     set the global flag from within                            *)
(*   <<"raise">>      raise                                                      *)
(* calls nest at most cfg.depth deep (recursion allowed).                        *)
EXTENDS Integers, Sequences, TLC

InitSt(cfg) == [flag |-> cfg.flag, on |-> [m \in DOMAIN cfg.body |-> <<>>], cfg |-> cfg]

RECURSIVE Forward(_, _, _, _), Body(_, _, _, _)
(* result: [flag, log, exc] *)
Forward(st, m, flag, d) ==
  LET at == st.on[m]
      inner == IF at = <<>> THEN flag ELSE at[Len(at)][2]
      r == Body(st, st.cfg.body[m], [flag |-> inner, log |-> <<>>, exc |-> FALSE], d)
  IN [r EXCEPT !.flag = IF at = <<>> THEN @ ELSE flag]
Body(st, b, acc, d) ==
  IF b = <<>> \/ acc.exc THEN acc
  ELSE LET a == b[1] IN
    CASE a[1] = "see" -> Body(st, Tail(b), [acc EXCEPT !.log = Append(@, acc.flag)], d)
      [] a[1] = "set" -> Body(st, Tail(b), [acc EXCEPT !.flag = a[2]], d)
      [] a[1] = "raise" -> [acc EXCEPT !.exc = TRUE]
      [] a[1] \in {"call", "try"} ->
           IF d = 0 THEN Body(st, Tail(b), acc, d)
           ELSE LET r == Forward(st, a[2], acc.flag, d - 1)
                IN Body(st, Tail(b), [flag |-> r.flag, log |-> acc.log \o r.log,
                                      exc |-> r.exc /\ a[1] = "call"], d)

Step(st, e) ==
  CASE e.op = "attach" ->
         LET s == [st EXCEPT !.on = [m \in DOMAIN @ |->
                      @[m] \o [j \in 1..Len(SelectSeq(e.ms, LAMBDA x : x = m)) |-> <<e.h, e.v>>]]]
         IN [st |-> s, out |-> <<s.flag>>]
    [] e.op = "remove" ->
         LET s == [st EXCEPT !.on = [m \in DOMAIN @ |-> SelectSeq(@[m], LAMBDA x : x[1] /= e.h)]]
         IN [st |-> s, out |-> <<s.flag>>]
    [] e.op = "flag" -> [st |-> [st EXCEPT !.flag = e.v], out |-> <<e.v>>]
    [] e.op = "run" ->
         LET r == Forward(st, e.m, st.flag, st.cfg.depth)
         IN [st |-> [st EXCEPT !.flag = r.flag], out |-> <<r.log, r.exc, r.flag>>]
================================================================================
