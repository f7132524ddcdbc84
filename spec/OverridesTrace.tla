---------------------------- MODULE OverridesTrace ----------------------------
EXTENDS Overrides, TraceData
VARIABLES tid, pos, st, ok
INSTANCE TraceCheck
================================================================================
