---------------------------- MODULE PipelineGen -----------------------------
EXTENDS Pipeline, Json, CSV, IOUtils
Emit == Ended => CSVWrite("%1$s", <<ToJson([steps |-> steps, status |-> [p \in Runs |-> status[p]], world |-> world])>>, IOEnv.GEN_OUT)
=============================================================================
