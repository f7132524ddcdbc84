-------------------------------- MODULE Flags --------------------------------
(* Global boolean flags (fastforward.flags) with scoped settings.              *)
(* State: the value of each flag and the stack of open scopes with the value   *)
(* each of them will restore.                                                  *)
EXTENDS Integers, Sequences, TLC

InitSt(cfg) == [val |-> cfg.init, stack |-> <<>>]

Set(s, f, v) == [s EXCEPT !.val[f] = v]
Push(s, f, v) == [val |-> [s.val EXCEPT ![f] = v], stack |-> Append(s.stack, <<f, s.val[f]>>)]
Pop(s) == LET t == s.stack[Len(s.stack)] IN
          [val |-> [s.val EXCEPT ![t[1]] = t[2]], stack |-> SubSeq(s.stack, 1, Len(s.stack) - 1)]

RECURSIVE PushAll(_, _), PopN(_, _), SetAll(_, _)
PushAll(s, d) == IF d = <<>> THEN s ELSE PushAll(Push(s, d[1][1], d[1][2]), Tail(d))
PopN(s, n) == IF n = 0 THEN s ELSE PopN(Pop(s), n - 1)
SetAll(s, d) == IF d = <<>> THEN s ELSE SetAll(Set(s, d[1][1], d[1][2]), Tail(d))

(* A decorated function `depth` levels recursive: each level enters the        *)
(* decorators' scopes (outermost first), observes the flags, performs its plain *)
(* sets, recurses, observes again and leaves (returning or raising).            *)
RECURSIVE Call(_, _, _, _)
Call(s, decs, inner, depth) ==
  LET a == PushAll(s, decs)
      b == SetAll(a, inner)
      c == IF depth <= 1 THEN [st |-> b, log |-> <<>>] ELSE Call(b, decs, inner, depth - 1)
  IN [st |-> PopN(c.st, Len(decs)), log |-> <<a.val>> \o c.log \o <<c.st.val>>]

(* Events: set f v | enter f v | exit (n scopes at once, e.g. by an exception) *)
(*         | call decs inner depth                                              *)
Step(st, e) ==
  CASE e.op = "set" -> LET s == Set(st, e.f, e.v) IN [st |-> s, out |-> <<s.val>>]
    [] e.op = "enter" -> LET s == Push(st, e.f, e.v) IN [st |-> s, out |-> <<s.val>>]
    [] e.op = "exit" -> LET s == PopN(st, e.n) IN [st |-> s, out |-> <<s.val>>]
    [] e.op = "call" -> LET r == Call(st, e.decs, e.inner, e.depth) IN
                        [st |-> r.st, out |-> Append(r.log, r.st.val)]
===============================================================================
