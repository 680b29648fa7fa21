------------------------------ MODULE ConfigGen ------------------------------
EXTENDS Config, Json, CSV, IOUtils, TLC
Emit == Len(loads) < MaxLoads \/ CSVWrite("%1$s", <<ToJson(loads)>>, IOEnv.GEN_OUT)
=============================================================================
