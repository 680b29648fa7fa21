------------------------------- MODULE Logging -------------------------------
(* What the verbosity of a run may change: which messages are shown. A run   *)
(* of a command produces messages of different weight; the setting decides   *)
(* how heavy a message must be to be shown; nothing else depends on it.      *)
(* Runs recorded from the real program are checked against this: Recorded    *)
(* holds, per command, the messages of its most verbose run and what it      *)
(* did, and then every other run of the command.                             *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Commands,   \* per command: full (its messages, <<weight, id>>), result
          Runs        \* recorded runs: command, v, env, shown (messages), result, exact

(* Weights: 1 error, 2 warning, 3 information, 4 debug, 5 trace. *)
Levels == [off |-> 0, error |-> 1, warn |-> 2, info |-> 3, debug |-> 4, trace |-> 5]

(* -v means debug and -vv trace; otherwise RUST_LOG decides; without it,     *)
(* information is shown. "some" settings concern single modules.             *)
Threshold(v, env) ==
  IF v = 1 THEN 4 ELSE IF v > 1 THEN 5
  ELSE IF env = "unset" THEN 3 ELSE IF env = "some" THEN 9 ELSE Levels[env]

Visible(ms, t) == SelectSeq(ms, LAMBDA m : m[1] <= t)

RECURSIVE Subseq(_, _)
Subseq(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
                ELSE IF Head(a) = Head(b) THEN Subseq(Tail(a), Tail(b)) ELSE Subseq(a, Tail(b))

VARIABLE i
Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1
Spec == Init /\ [][Next]_i

R == Runs[i]
C == Commands[R.command]

(* The verbosity changes neither status, nor files, nor standard output. *)
SameResult == i > 0 => R.result = C.result

(* Shown are exactly the messages heavy enough, in order; with settings for  *)
(* single modules, some of all messages.                                     *)
RightMessages == i > 0 =>
  LET t == Threshold(R.v, R.env)
  IN CASE t = 9 -> Subseq(R.shown, C.full)
       [] ~R.exact -> t >= 1 => (\A m \in {C.full[k] : k \in DOMAIN C.full} : m[1] = 1 => \E k \in DOMAIN R.shown : R.shown[k] = m)
       [] OTHER -> R.shown = Visible(C.full, t)

(* A failure is reported whenever errors are shown. *)
Reported == i > 0 /\ R.result[1] # 0 /\ Threshold(R.v, R.env) \in 1..5 => \E k \in DOMAIN R.shown : R.shown[k][1] <= 1

(* More verbose settings only add messages: a fact of the specification. *)
Monotone == \A c \in DOMAIN Commands : \A s, t \in 0..5 : s <= t => Subseq(Visible(Commands[c].full, s), Visible(Commands[c].full, t))
=============================================================================
