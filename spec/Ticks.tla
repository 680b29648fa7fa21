-------------------------------- MODULE Ticks --------------------------------
(* Runs of backticks, wherever they stand in a line: a run opens a code span  *)
(* if a run of the same length follows, and the span ends at the first such;  *)
(* any other run is text.                                                     *)
EXTENDS Events

CONSTANTS Hosts, Words, Lens, MaxPieces

VARIABLES host, p
vars == <<host, p>>

Init == host \in Hosts /\ p = <<>>
AddRun  == \E n \in Lens : (IF p = <<>> THEN TRUE ELSE p[Len(p)].n = 0) /\ p' = Append(p, [n |-> n, s |-> Rep("`", n)])
AddWord == \E w \in Words : (p # <<>> /\ p[Len(p)].n > 0) /\ p' = Append(p, [n |-> 0, s |-> w])
Next == Len(p) < MaxPieces /\ (AddRun \/ AddWord) /\ UNCHANGED host
Spec == Init /\ [][Next]_vars

RECURSIVE Join(_, _)
Join(i, j) == IF i > j THEN "" ELSE p[i].s \o Join(i + 1, j)

(* The piece that closes the run i, or 0. *)
RECURSIVE Closing(_, _)
Closing(i, j) == IF j > Len(p) THEN 0 ELSE IF p[j].n = p[i].n THEN j ELSE Closing(i, j + 1)

RECURSIVE Blank(_, _)
Blank(s, i) == i > Len(s) \/ (SubSeq(s, i, i) = " " /\ Blank(s, i + 1))
Strip(s) == IF Len(s) > 1 /\ SubSeq(s, 1, 1) = " " /\ SubSeq(s, Len(s), Len(s)) = " " /\ ~Blank(s, 1) THEN SubSeq(s, 2, Len(s) - 1) ELSE s

(* What a reader gets from piece i on, with the text t before it. *)
RECURSIVE Read(_, _)
Read(i, t) ==
  IF i > Len(p) THEN Txt(t \o " y")
  ELSE IF p[i].n = 0 \/ Closing(i, i + 1) = 0 THEN Read(i + 1, t \o p[i].s)
  ELSE (IF t = "" THEN <<>> ELSE Txt(t)) \o In("code", Txt(Strip(Join(i + 1, Closing(i, i + 1) - 1)))) \o Read(Closing(i, i + 1) + 1, "")

Line == "x " \o Join(1, Len(p)) \o " y"
Events_ == Read(1, "x ")

Complete == p # <<>>
Src ==
  CASE host = "para"    -> Line \o "\n"
    [] host = "bullet"  -> "- " \o Line \o "\n"
    [] host = "quote"   -> "> " \o Line \o "\n"
    [] host = "heading" -> "# " \o Line \o "\n"
    [] host = "cell"    -> "| H |\n|---|\n| " \o Line \o " |\n"
Final ==
  CASE host = "para"    -> In("p", Events_)
    [] host = "bullet"  -> In("ul", In("li", Events_))
    [] host = "quote"   -> In("blockquote", Events_)
    [] host = "heading" -> In("h1", Events_)
    [] host = "cell"    -> In("table", In("thead", In("tr", <<"+th|align=left", "=H", "-th">>))
                                  \o In("tbody", In("tr", <<"+td|align=left">> \o Events_ \o <<"-td">>)))

WellNested == Balanced(Final)
=============================================================================
