----------------------------- MODULE AnnotateOracle -----------------------------
EXTENDS Annotate, OracleData, Json
VARIABLE n
Expect(x) == Has(x)
INSTANCE Oracle
=================================================================================
