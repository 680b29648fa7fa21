------------------------------- MODULE Purity -------------------------------
(* Histories of rendering calls.  Threads render documents, alone or at the  *)
(* same time, while the log level changes; whatever happened before, a call  *)
(* for document d returns R(d).  `answers` is what the calls returned.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Threads, Docs, LogLevels, MaxSteps

VARIABLES level, pending, steps, answers
vars == <<level, pending, steps, answers>>

N == Cardinality(Threads)
Idle == [i \in 1..N |-> -1]
R(d) == <<"html of", d>>

Init == level = "Off" /\ pending = Idle /\ steps = <<>> /\ answers = <<>>

SetLevel == \E l \in LogLevels \ {level} :
              /\ pending = Idle
              /\ level' = l /\ steps' = Append(steps, [level |-> l, calls |-> <<>>]) /\ UNCHANGED <<answers, pending>>

(* Thread t begins to render d; the calls that have begun run together (the  *)
(* threads begin in the order of their numbers, which loses no combination). *)
Begin == \E t \in 1..N, d \in Docs :
           /\ \A u \in t..N : pending[u] = -1
           /\ pending' = [pending EXCEPT ![t] = d]
           /\ UNCHANGED <<level, steps, answers>>

(* All of them have returned. *)
Return == /\ pending # Idle
          /\ steps' = Append(steps, [level |-> "", calls |-> pending])
          /\ answers' = Append(answers, [i \in 1..N |-> IF pending[i] = -1 THEN <<>> ELSE R(pending[i])])
          /\ pending' = Idle
          /\ UNCHANGED level

Next == Len(steps) < MaxSteps /\ (SetLevel \/ Begin \/ Return)
Spec == Init /\ [][Next]_vars

(* Equal documents, equal answers, at every point of every history. *)
Rounds == SelectSeq(steps, LAMBDA s : s.level = "")
Pure == LET r == Rounds IN
        \A i \in 1..Len(answers), t \in 1..N :
          r[i].calls[t] # -1 => answers[i][t] = R(r[i].calls[t])

EmitFull == Len(steps) < MaxSteps \/ CSVWrite("%1$s", <<ToJson([steps |-> steps])>>, IOEnv.GEN_OUT)
=============================================================================
