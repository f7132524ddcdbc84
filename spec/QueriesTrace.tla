---------------------------- MODULE QueriesTrace ----------------------------
EXTENDS Queries, TraceData
VARIABLES tid, pos, st, ok
INSTANCE TraceCheck WITH InitSt <- HInit, Step <- QStep
================================================================================
