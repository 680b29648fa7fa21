----------------------------- MODULE TablesGen -----------------------------
EXTENDS Tables, Json, CSV, IOUtils
(* A one-column row cannot be shortened. *)
InDomain == ~(dev = "shortrow" /\ Len(head) = 1)
Emit == ~Complete \/ ~InDomain \/ CSVWrite("%1$s", <<ToJson([src |-> Src, exp |-> Final])>>, IOEnv.GEN_OUT)
=============================================================================
