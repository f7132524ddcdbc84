----------------------------- MODULE QuantInitTrace -----------------------------
EXTENDS QuantInit, TraceData
VARIABLES tid, pos, st, ok
INSTANCE TraceCheck WITH InitSt <- QInit, Step <- QStep
=================================================================================
