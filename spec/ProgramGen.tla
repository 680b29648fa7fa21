----------------------------- MODULE ProgramGen ------------------------------
EXTENDS Program, Json, CSV, IOUtils
(* A behaviour is emitted when it is complete and its last step is a run. *)
Emit == ~(Len(ops) = MaxOps /\ Ran(MaxOps)) \/
        CSVWrite("%1$s", <<ToJson([name |-> name, dir |-> dir, ops |-> ops])>>, IOEnv.GEN_OUT)
=============================================================================
