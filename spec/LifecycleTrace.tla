---------------------------- MODULE LifecycleTrace ----------------------------
EXTENDS Lifecycle, TraceData
VARIABLES tid, pos, st, ok
INSTANCE TraceCheck WITH InitSt <- LInit, Step <- LStep
===============================================================================
