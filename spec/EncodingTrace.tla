---------------------------- MODULE EncodingTrace ----------------------------
EXTENDS Encoding, TraceData
VARIABLES tid, pos, st, ok
INSTANCE TraceCheck WITH InitSt <- EInit, Step <- EStep
================================================================================
