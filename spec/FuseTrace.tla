------------------------------- MODULE FuseTrace -------------------------------
EXTENDS Fuse, TraceData
VARIABLES tid, pos, st, ok
INSTANCE TraceCheck WITH InitSt <- FInit, Step <- FStep
=================================================================================
