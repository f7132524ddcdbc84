------------------------------ MODULE MPathOracle ------------------------------
EXTENDS MPath, OracleData, Json
VARIABLE n
Expect(x) == Sorted(Select(x.model, x.query))
INSTANCE Oracle
================================================================================
