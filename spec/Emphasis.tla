------------------------------ MODULE Emphasis ------------------------------
(* Marked text, piece by piece: exactly the text between the markers is      *)
(* marked, and the text around it is not.  Marks are pairs of an opening and *)
(* a closing run; runs of different length are no pair and stay text, except *)
(* that a single marker ends at the first marker of a longer run.            *)
EXTENDS Events

CONSTANTS Marks, Pieces, MaxPieces, Hosts

VARIABLES host, mark, ps, tail
vars == <<host, mark, ps, tail>>

Tails == {"", " y", ". z", ","}
Init == host \in Hosts /\ mark \in Marks /\ ps = <<>> /\ tail \in Tails
Next == Len(ps) < MaxPieces /\ (\E p \in Pieces : ps' = Append(ps, p)) /\ UNCHANGED <<host, mark, tail>>
Spec == Init /\ [][Next]_vars

RECURSIVE Cat(_, _)
Cat(s, i) == IF i > Len(s) THEN "" ELSE s[i] \o Cat(s, i + 1)
T == Cat(ps, 1)
Shown(c) == IF Len(c) = 2 /\ SubSeq(c, 1, 1) = "\\" /\ c # "\\q" THEN SubSeq(c, 2, 2) ELSE c
RECURSIVE CatShown(_, _)
CatShown(s, i) == IF i > Len(s) THEN "" ELSE Shown(s[i]) \o CatShown(s, i + 1)
V == CatShown(ps, 1)

Complete == /\ ps # <<>> /\ SubSeq(T, 1, 1) # " "
            /\ (host = "cell" => Find(T, "|", 1) = 0)
            /\ Find(T, "[x](", 1) = 0

Opening  == mark[1]
Closing == mark[2]
Some(t) == IF t = "" THEN <<>> ELSE Txt(t)
Run == "x " \o Opening \o T \o Closing \o tail
Ev == CASE Opening \in {"*", "_"} -> Txt("x ") \o In("em", Txt(V)) \o Some(SubSeq(Closing, 2, Len(Closing)) \o tail)
        [] Opening \in {"**", "__"} /\ Closing = Opening -> Txt("x ") \o In("strong", Txt(V)) \o Some(tail)
        [] Opening \in {"***", "___"} /\ Closing = Opening -> Txt("x ") \o In("strong", In("em", Txt(V))) \o Some(tail)
        [] Opening = "~~" /\ Closing = Opening -> Txt("x ") \o In("strike", Txt(V)) \o Some(tail)
        [] OTHER -> Txt("x " \o Opening \o V \o Closing \o tail)

Src == CASE host = "para" -> Run \o "\n" [] host = "bullet" -> "- " \o Run \o "\n" [] host = "heading" -> "# " \o Run \o "\n"
         [] host = "quote" -> "> " \o Run \o "\n" [] host = "cell" -> "| H |\n|---|\n| " \o Run \o " |\n"
Final == CASE host = "para" -> In("p", Ev) [] host = "bullet" -> In("ul", In("li", Ev)) [] host = "heading" -> In("h1", Ev)
           [] host = "quote" -> In("blockquote", Ev)
           [] host = "cell" -> In("table", In("thead", In("tr", <<"+th|align=left", "=H", "-th">>))
                                  \o In("tbody", In("tr", <<"+td|align=left">> \o Ev \o <<"-td">>)))
Faithful == Balanced(Final)
=============================================================================
