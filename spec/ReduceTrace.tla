----------------------------- MODULE ReduceTrace -----------------------------
EXTENDS Reduce, TraceData
VARIABLES tid, pos, st, ok
INSTANCE TraceCheck WITH InitSt <- HInit, Step <- RStep
================================================================================
