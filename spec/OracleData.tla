------------------------------ MODULE OracleData ------------------------------
EXTENDS Json, IOUtils
VFInputs == JsonDeserialize(IOEnv.VF_INPUTS)
===============================================================================
