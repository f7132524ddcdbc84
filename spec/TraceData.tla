------------------------------- MODULE TraceData -------------------------------
(* The recorded traces under validation; a constant, read once.                 *)
EXTENDS Json, IOUtils
VFTraces == JsonDeserialize(IOEnv.VF_TRACES)
=================================================================================
