-------------------------------- MODULE Strict --------------------------------
(* When an operation on (possibly) quantized tensors raises, what it computes and *)
(* whether the result is quantized.                                               *)
(*   ambient    the ambient strictness flag                                        *)
(*   call       "unset", "on" or "off": the per-call option                        *)
(*   args       sequence of <<role, kind>>:                                        *)
(*                roles: "Q" quantized, "QO" quantized or absent, "QS" quantized    *)
(*                or a number, "M" anything or absent, "T" an ordinary tensor       *)
(*                kinds: "q" quantized, "p" plain tensor, "s" number, "n" absent    *)
(*   out        output quantizer: "none", "stub" or "real"                         *)
(*   kernel     a quantized implementation for exactly these operands exists       *)
EXTENDS Naturals, Sequences
Effective(x) == IF x.call = "unset" THEN x.ambient ELSE x.call = "on"
Offends(a) ==
  CASE a[1] = "Q" -> a[2] # "q"
    [] a[1] = "QO" -> a[2] \notin {"q", "n"}
    [] a[1] = "QS" -> a[2] \notin {"q", "s"}
    [] OTHER -> FALSE
Operator(x) ==
  IF x.kernel THEN <<"value", "quantized">>
  ELSE IF Effective(x) /\ (x.out = "none" \/ \E i \in DOMAIN x.args : Offends(x.args[i])) THEN <<"error">>
  ELSE <<"value", IF x.out = "real" THEN "quantized" ELSE "plain">>
(* operations of torch itself: quantized exactly if a kernel exists                *)
Torch(x) ==
  IF \A i \in DOMAIN x.args : x.args[i][2] # "q" THEN <<"value", "plain">>
  ELSE IF x.kernel THEN <<"value", "quantized">>
  ELSE IF x.inplace THEN <<"unsupported">>
  ELSE IF x.ambient THEN <<"error">> ELSE <<"value", "plain">>
(* a quantized module: its quantizers turn operands into quantized ones            *)
Module(x) ==
  LET after(i) == IF x.quantizers[i] = "real" THEN "q" ELSE x.args[i][2]
      y == [x EXCEPT !.args = [i \in DOMAIN x.args |-> <<x.args[i][1], after(i)>>]]
  IN Operator(y)
Decide(x) == CASE x.op = "operator" -> Operator(x) [] x.op = "torch" -> Torch(x) [] x.op = "module" -> Module(x)
===============================================================================
