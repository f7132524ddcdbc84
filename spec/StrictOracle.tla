----------------------------- MODULE StrictOracle -----------------------------
EXTENDS Strict, OracleData, TLC, Json
VARIABLE n
Expect(x) == Decide(x)
INSTANCE Oracle
================================================================================
