---------------------------- MODULE DispatcherTrace ----------------------------
EXTENDS Dispatcher, TraceData
VARIABLES tid, pos, st, ok
INSTANCE TraceCheck
================================================================================
