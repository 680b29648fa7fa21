----------------------------- MODULE LiteralGen -----------------------------
EXTENDS Literal, Json, CSV, IOUtils
Emit == ~Complete \/ CSVWrite("%1$s", <<ToJson([src |-> Src, exp |-> Final])>>, IOEnv.GEN_OUT)
=============================================================================
