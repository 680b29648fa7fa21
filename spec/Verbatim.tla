------------------------------ MODULE Verbatim ------------------------------
(* Code is written piece by piece, most pieces being Markdown or HTML syntax; *)
(* the reader gets exactly these characters, as code.                         *)
EXTENDS Events

CONSTANTS Hosts, Pieces, MaxPieces,
          Ticks   \* how many backticks delimit a span

VARIABLES host, body, n, tick
vars == <<host, body, n, tick>>

Init == host \in Hosts /\ body = "" /\ n = 0 /\ tick \in Ticks
Add == /\ n < MaxPieces
       /\ \E p \in Pieces : body' = body \o p
       /\ n' = n + 1 /\ UNCHANGED <<host, tick>>
(* A fenced block may have several lines. *)
NewLine == host = "fenced" /\ n < MaxPieces /\ body' = body \o "\n" /\ n' = n + 1 /\ UNCHANGED <<host, tick>>
Next == Add \/ NewLine
Spec == Init /\ [][Next]_vars

First == SubSeq(body, 1, 1)
Last  == SubSeq(body, Len(body), Len(body))
Blanks == {" ", "\t", "\n"}

RECURSIVE AllBlank(_, _)
AllBlank(s, i) == i > Len(s) \/ (SubSeq(s, i, i) \in Blanks /\ AllBlank(s, i + 1))
Has(s) == Find(body, s, 1) > 0

(* The lengths of the runs of backticks in the body. *)
RECURSIVE Runs(_, _)
Runs(i, r) == IF i > Len(body) THEN {r} ELSE IF SubSeq(body, i, i) = "`" THEN Runs(i + 1, r + 1) ELSE {r} \cup Runs(i + 1, 0)

(* The domain: a span ends at the first run as long as the opening one; it   *)
(* neither starts nor ends with a backtick; an indented line is not blank.   *)
Span == host \notin {"fenced", "indented"}
Complete ==
  /\ body # ""
  /\ (Span => First # "`" /\ Last # "`" /\ tick \notin Runs(1, 0))
  /\ (host = "spancell" => ~Has("|"))
  /\ (host = "indented" => ~AllBlank(body, 1))
  /\ (host = "fenced" => ~AllBlank(body, 1))

Fence == IF Has("```") THEN "````````````" ELSE "```"

(* Code that starts or ends with a backtick is set off by a blank on both    *)
(* sides, which is not part of it.                                           *)
Shown == IF First = " " /\ Last = " " /\ ~AllBlank(body, 1) THEN SubSeq(body, 2, Len(body) - 1) ELSE body

Code == Rep("`", tick) \o body \o Rep("`", tick)
CodeEv == Txt("x ") \o In("code", Txt(Shown)) \o Txt(" y")

Src ==
  CASE host = "span"        -> "x " \o Code \o " y\n"
    [] host = "spanbullet"  -> "- x " \o Code \o " y\n"
    [] host = "spanordered" -> "1. x " \o Code \o " y\n"
    [] host = "spanquote"   -> "> x " \o Code \o " y\n"
    [] host = "spanheading" -> "# x " \o Code \o " y\n"
    [] host = "spancell"    -> "| H |\n|---|\n| x " \o Code \o " y |\n"
    [] host = "fenced"      -> Fence \o "rs\n" \o body \o "\n" \o Fence \o "\nz\n"
    [] host = "indented"    -> "    " \o body \o "\n\nz\n"

Final ==
  CASE host = "span"        -> In("p", CodeEv)
    [] host = "spanbullet"  -> In("ul", In("li", CodeEv))
    [] host = "spanordered" -> In("ol", In("li", CodeEv))
    [] host = "spanquote"   -> In("blockquote", CodeEv)
    [] host = "spanheading" -> In("h1", CodeEv)
    [] host = "spancell"    -> In("table", In("thead", In("tr", <<"+th|align=left", "=H", "-th">>))
                                  \o In("tbody", In("tr", <<"+td|align=left">> \o CodeEv \o <<"-td">>)))
    [] host = "fenced"      -> In("pre", <<"+code|lang=rs">> \o Txt(body \o "\n") \o <<"-code">>) \o In("p", Txt("z"))
    [] host = "indented"    -> In("pre", In("code", Txt(body \o "\n"))) \o In("p", Txt("z"))

(* The text of the code is the body, whatever it contains. *)
Verbatim == Complete => Find(AllText(Final, 1), IF Span THEN Shown ELSE body, 1) > 0
=============================================================================
