---------------------------- MODULE QTensorOpsTrace ----------------------------
EXTENDS QTensorOps, TraceData
VARIABLES tid, pos, st, ok
INSTANCE TraceCheck
================================================================================
