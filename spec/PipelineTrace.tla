---------------------------- MODULE PipelineTrace ----------------------------
EXTENDS Pipeline, TraceData
VARIABLES tid, pos, st, ok
Start(cfg) == PInit
INSTANCE TraceCheck WITH InitSt <- Start, Step <- PStep
================================================================================
