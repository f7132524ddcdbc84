---------------------------- MODULE CollectionsTrace ----------------------------
EXTENDS Collections, TraceData
VARIABLES tid, pos, st, ok
INSTANCE TraceCheck
=================================================================================
