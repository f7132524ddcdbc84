-------------------------- MODULE StrictModulesTrace --------------------------
EXTENDS StrictModules, TraceData
VARIABLES tid, pos, st, ok
INSTANCE TraceCheck
================================================================================
