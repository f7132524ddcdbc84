---------------------------- MODULE ScheduleTrace ----------------------------
EXTENDS Schedule, TraceData
VARIABLES tid, pos, st, ok
INSTANCE TraceCheck WITH InitSt <- SInit, Step <- SStep
================================================================================
