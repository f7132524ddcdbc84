------------------------------ MODULE FlagsTrace ------------------------------
EXTENDS Flags, TraceData
VARIABLES tid, pos, st, ok
INSTANCE TraceCheck
================================================================================
