---- MODULE LocalityGen ----
EXTENDS Locality, Json, CSV, IOUtils
Emit == ~(cur = "" /\ Len(parts) = MaxParts) \/ CSVWrite("%1$s", <<ToJson([parts |-> parts, sep |-> sep])>>, IOEnv.GEN_OUT)
====
