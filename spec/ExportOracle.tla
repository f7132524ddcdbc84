------------------------------ MODULE ExportOracle ------------------------------
EXTENDS Export, OracleData
VARIABLE n
Expect(x) == IF x.what = "qdq" THEN QDQ(x) ELSE IF x.what = "enc" THEN Encodings(x) ELSE GGUF(x)
INSTANCE Oracle
================================================================================
