------------------------------- MODULE Events -------------------------------
(* The observable vocabulary of rendered HTML: a rendering is a sequence of  *)
(* events, written as strings so that the same encoding serves TLC and the   *)
(* projection of real output (harness/gfm-probe/src/html.rs):                *)
(*   "+name|attr=value|..."   an element is opened (or a void one appears)   *)
(*   "-name"                  an element is closed                           *)
(*   "=text"                  text, entities decoded                         *)
(* Only attributes that are part of the meaning are kept, in a fixed order:  *)
(* href title src alt id checked lang align.                                 *)
EXTENDS Naturals, Sequences, TLC

Open(n)      == "+" \o n
Attr(e, a, v) == e \o "|" \o a \o "=" \o v
Close(n)     == "-" \o n
Text(s)      == "=" \o s

In(n, evs)   == <<Open(n)>> \o evs \o <<Close(n)>>     \* an element around events

(* Text events of a fixed piece of text. *)
Txt(s)       == <<Text(s)>>

IsOpen(e)    == SubSeq(e, 1, 1) = "+"
IsClose(e)   == SubSeq(e, 1, 1) = "-"
IsText(e)    == SubSeq(e, 1, 1) = "="

RECURSIVE NameEnd(_, _)
NameEnd(e, i) == IF i > Len(e) \/ SubSeq(e, i, i) = "|" THEN i - 1 ELSE NameEnd(e, i + 1)
Name(e)      == SubSeq(e, 2, NameEnd(e, 2))

Void == {"img", "hr", "br", "input"}

(* The stack of open elements after a sequence of events, or <<"!">> as the  *)
(* bottom element if a close did not match.                                  *)
RECURSIVE OpenAfter(_, _, _)
OpenAfter(evs, i, st) ==
  IF i > Len(evs) THEN st
  ELSE LET e == evs[i] IN
       CASE IsOpen(e) /\ Name(e) \notin Void -> OpenAfter(evs, i + 1, Append(st, Name(e)))
         [] IsClose(e) ->
              IF st # <<>> /\ st[Len(st)] = Name(e)
              THEN OpenAfter(evs, i + 1, SubSeq(st, 1, Len(st) - 1))
              ELSE <<"!">>
         [] OTHER -> OpenAfter(evs, i + 1, st)

Balanced(evs) == OpenAfter(evs, 1, <<>>) = <<>>

W(k) == "w" \o ToString(k) \o "w"                      \* the k-th word of a document

RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE s \o Rep(s, n - 1)

(* The texts of a sequence of events, concatenated. *)
RECURSIVE AllText(_, _)
AllText(evs, i) ==
  IF i > Len(evs) THEN ""
  ELSE (IF IsText(evs[i]) THEN SubSeq(evs[i], 2, Len(evs[i])) ELSE "") \o AllText(evs, i + 1)

(* Does text t contain s at position i or later?  Returns the position or 0. *)
RECURSIVE Find(_, _, _)
Find(t, s, i) == IF i + Len(s) - 1 > Len(t) THEN 0
                 ELSE IF SubSeq(t, i, i + Len(s) - 1) = s THEN i ELSE Find(t, s, i + 1)

(* Words 1..n occur in the text in this order, each exactly once. *)
RECURSIVE InOrderOnce(_, _, _, _)
InOrderOnce(t, k, n, from) ==
  IF k > n THEN TRUE
  ELSE LET p == Find(t, W(k), 1) IN
       /\ p >= from
       /\ Find(t, W(k), p + 1) = 0
       /\ InOrderOnce(t, k + 1, n, p + 1)
=============================================================================
