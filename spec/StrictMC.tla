------------------------------- MODULE StrictMC -------------------------------
EXTENDS Strict, TLC
VARIABLE x
Roles == {"Q", "QO", "QS", "M", "T"}
Kinds == {"q", "p", "s", "n"}
Init == x \in [ambient : BOOLEAN, call : {"unset", "on", "off"}, args : [1..2 -> Roles \X Kinds],
               out : {"none", "stub", "real"}, kernel : BOOLEAN, inplace : {FALSE}]
Next == UNCHANGED x
Raises(y) == Operator(y) = <<"error">>
Inv ==
  \* without strictness nothing is refused; the per-call option overrides the flag
  /\ ~Effective(x) => ~Raises(x)
  /\ (x.call = "on") => Operator(x) = Operator([x EXCEPT !.ambient = TRUE, !.call = "unset"])
  /\ (x.call = "off") => Operator(x) = Operator([x EXCEPT !.ambient = FALSE, !.call = "unset"])
  \* strictness only ever refuses; it never changes what is returned
  /\ ~Raises(x) => Operator(x) = Operator([x EXCEPT !.call = "off"])
  \* quantizing an operand or giving an output quantizer never makes a call refused
  /\ \A i \in 1..2 : Raises([x EXCEPT !.args[i] = <<@[1], "q">>]) => Raises(x)
  /\ (Raises([x EXCEPT !.out = "real"])) => Raises(x)
  \* under strictness no ordinary tensor enters a quantized operand
  /\ (Effective(x) /\ ~Raises(x) /\ ~x.kernel) => \A i \in 1..2 : x.args[i][1] = "Q" => x.args[i][2] = "q"
===============================================================================
