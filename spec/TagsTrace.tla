------------------------------- MODULE TagsTrace -------------------------------
EXTENDS Tags, TraceData
VARIABLES tid, pos, st, ok
Step(s, e) == TagStep(s, e)
INSTANCE TraceCheck
=================================================================================
