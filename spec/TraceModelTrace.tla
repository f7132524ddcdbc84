--------------------------- MODULE TraceModelTrace ---------------------------
EXTENDS TraceModel, TraceData
VARIABLES tid, pos, st, ok
INSTANCE TraceCheck WITH InitSt <- TInit, Step <- TStep
=============================================================================
