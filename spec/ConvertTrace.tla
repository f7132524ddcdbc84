------------------------------ MODULE ConvertTrace ------------------------------
EXTENDS Convert, TraceData
VARIABLES tid, pos, st, ok
INSTANCE TraceCheck
=================================================================================
