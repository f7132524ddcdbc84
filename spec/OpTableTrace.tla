---------------------------- MODULE OpTableTrace ----------------------------
EXTENDS OpTable, TraceData
VARIABLES tid, pos, st, ok
INSTANCE TraceCheck WITH InitSt <- TInit, Step <- TStep
=============================================================================
