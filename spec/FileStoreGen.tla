---------------------------- MODULE FileStoreGen -----------------------------
EXTENDS FileStore, Json, CSV, IOUtils, TLC
Emit == Len(ops) < MaxOps \/ CSVWrite("%1$s", <<ToJson(ops)>>, IOEnv.GEN_OUT)
=============================================================================
