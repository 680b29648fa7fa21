------------------------------- MODULE Config -------------------------------
(* The configuration: two keys, each with a value in the environment, in the *)
(* file or from the defaults. A history changes both and loads.              *)
EXTENDS Naturals, Sequences

CONSTANTS Forms,     \* ways the file is written; "none": there is no file
          Actions,   \* values of parse.on_parse_error in the file, "unset" included
          Keeps,     \* values of parse.keep_temp_files in the file
          EnvActions, EnvKeeps,
          Noises,    \* variables that mean nothing
          MaxLoads

Good == {"abort", "skip", "serialize", "true", "false"}   \* the rest are invalid
Unparsable == {"malformed", "binary", "twice", "isdir"}

VARIABLES form, file, env, noise, loads
vars == <<form, file, env, noise, loads>>

Init ==
  /\ form \in Forms
  /\ file \in [action : Actions, keep : Keeps]
  /\ env \in [action : EnvActions, keep : EnvKeeps]
  /\ noise \in Noises
  /\ loads = <<>>

(* What the file says: nothing if it is missing or says nothing. *)
Said == IF form \in {"none", "empty", "comment", "elsewhere"} THEN [action |-> "unset", keep |-> "unset"] ELSE file

Layered(e, f, d) == IF e # "unset" THEN e ELSE IF f # "unset" THEN f ELSE d

Effective == [action |-> Layered(env.action, Said.action, "serialize"),
              keep |-> Layered(env.keep, Said.keep, "false")]

Result ==
  IF form \in Unparsable THEN [ok |-> FALSE, action |-> "", keep |-> ""]
  ELSE IF Effective.action \in Good /\ Effective.keep \in Good
       THEN [ok |-> TRUE, action |-> Effective.action, keep |-> Effective.keep]
       ELSE [ok |-> FALSE, action |-> "", keep |-> ""]

Load ==
  /\ Len(loads) < MaxLoads
  /\ loads' = Append(loads, [form |-> form, file |-> file, env |-> env, noise |-> noise, result |-> Result])
  /\ UNCHANGED <<form, file, env, noise>>

Change ==
  /\ Len(loads) \in 1..(MaxLoads - 1)
  /\ \/ form' \in Forms /\ UNCHANGED <<file, env, noise>>
     \/ file' \in [action : Actions, keep : Keeps] /\ UNCHANGED <<form, env, noise>>
     \/ env' \in [action : EnvActions, keep : EnvKeeps] /\ UNCHANGED <<form, file, noise>>
  /\ UNCHANGED loads

Next == Load \/ Change
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Each key is decided by itself, whatever the other one is. *)
Last == loads[Len(loads)]
Independent == loads # <<>> /\ Last.result.ok =>
  /\ Last.env.action # "unset" => Last.result.action = Last.env.action
  /\ Last.env.keep # "unset" => Last.result.keep = Last.env.keep
  /\ (Last.env.action = "unset" /\ Last.form \in {"none", "empty"}) => Last.result.action = "serialize"
  /\ (Last.env.keep = "unset" /\ Last.form \in {"none", "empty"}) => Last.result.keep = "false"
(* A load depends on the layers alone, not on earlier loads. *)
Memoryless == \A i, j \in DOMAIN loads :
  (loads[i].form = loads[j].form /\ loads[i].file = loads[j].file /\ loads[i].env = loads[j].env) => loads[i].result = loads[j].result
(* Success only with values that mean something. *)
Sound == \A i \in DOMAIN loads : loads[i].result.ok => loads[i].result.action \in Good /\ loads[i].result.keep \in Good
=============================================================================
