---- MODULE TargetsGen ----
EXTENDS Targets, Json, CSV, IOUtils
Emit == ps = <<>> \/ (Mode = "benign" /\ ~Benign) \/
        CSVWrite("%1$s", <<ToJson([src |-> Src, exp |-> IF Definite THEN Final ELSE <<"?">>])>>, IOEnv.GEN_OUT)
====
