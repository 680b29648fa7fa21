--------------------------- MODULE ContainersGen ---------------------------
EXTENDS Containers, Json, CSV, IOUtils
Emit == src = "" \/ ~Complete \/ CSVWrite("%1$s", <<ToJson([src |-> src, exp |-> Final])>>, IOEnv.GEN_OUT)
=============================================================================
