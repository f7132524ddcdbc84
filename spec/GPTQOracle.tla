------------------------------- MODULE GPTQOracle -------------------------------
EXTENDS GPTQ, OracleData
VARIABLE n
Expect(x) == Judge(x)
INSTANCE Oracle
=================================================================================
