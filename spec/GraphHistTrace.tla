---------------------------- MODULE GraphHistTrace ----------------------------
EXTENDS GraphHist, TraceData
VARIABLES tid, pos, st, ok
INSTANCE TraceCheck WITH InitSt <- HInit, Step <- HStep
================================================================================
