---------------------------- MODULE OpTableOracle ----------------------------
EXTENDS OpTable, OracleData
VARIABLE n
Bool(b) == IF b THEN 1 ELSE 0
Bind(x) == <<IF Binds(x.params, Extra(x), x.n, x.kws) THEN Bound(x.params, x.n, x.kws) ELSE <<"refused">>, Bool(Valid(x.params, x.n, x.kws))>>
\* an operator written as a signature: positional-only, ordinary and keyword-only parameters
Spec(x) ==
  LET ps == x.pos \o x.normal \o x.kw IN
  <<[i \in DOMAIN ps |-> <<ps[i].name, ps[i].default, Bool(In([k |-> "base", name |-> "QuantizedTensor", args |-> <<>>], ps[i].type)), Cardinality(Variants(ps[i].type))>>],
    IF x.returns = <<>> THEN 0 ELSE Bool(In([k |-> "base", name |-> "QuantizedTensor", args |-> <<>>], x.returns[1]))>>
Types(x) ==
  LET r == Replaced(x.a, x.b, x.c)
      u == Variants(x.a) \ {NoneN} IN
  <<Bool(Norm(x.a) = Norm(x.b)), Bool(In(x.b, x.a)), Cardinality(Variants(x.a)),
    IF ~IsUnion(x.a) THEN <<>> ELSE [i \in DOMAIN x.probes |-> Bool(Norm(x.probes[i]) \in r)],
    [i \in DOMAIN x.probes |-> Bool(IF IsUnion(x.a) THEN Norm(x.probes[i]) \in u ELSE Norm(x.probes[i]) = Norm(x.a))]>>
\* the parameters of the function behind an operator
Signature(x) == <<[i \in DOMAIN x.params |-> <<x.params[i].name, x.params[i].default>>], x.inter \o (IF x.quantized THEN <<"output_quantizer">> ELSE <<>>) \o <<"strict_quantization">>>>
Expect(x) == CASE x.op = "bind" -> Bind(x) [] x.op = "spec" -> Spec(x) [] x.op = "types" -> Types(x) [] x.op = "signature" -> Signature(x)
INSTANCE Oracle
==============================================================================
