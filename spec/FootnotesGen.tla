---------------------------- MODULE FootnotesGen ----------------------------
EXTENDS Footnotes, Json, CSV, IOUtils
Emit == src = "" \/ CSVWrite("%1$s", <<ToJson([src |-> src, exp |-> Final])>>, IOEnv.GEN_OUT)
=============================================================================
