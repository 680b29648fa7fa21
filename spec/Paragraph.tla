----------------------------- MODULE Paragraph -----------------------------
(* One run of inline content, built construct by construct inside a host     *)
(* block.  The state is the source of the run and the events it must give;   *)
(* the host decides how the run is wrapped.                                  *)
EXTENDS Inlines

CONSTANTS Kinds, Hosts, Joins, MaxItems

VARIABLES host, run, ev, kinds, k

vars == <<host, run, ev, kinds, k>>

Init == host \in Hosts /\ run = "" /\ ev = <<>> /\ kinds = <<>> /\ k = 1

(* Directly adjacent constructs must not share marker characters. *)
JoinOK(j, a, b) ==
  /\ Compatible(a, b)
  /\ (j = "" => Marks(a) \cap Marks(b) = {})
  /\ (j = "\n" => host = "para" /\ ~(b \in LineStartSpecial))

Add(kind, j) ==
  LET x == Inline(kind, k) IN
  /\ Len(kinds) < MaxItems
  /\ \A i \in 1..Len(kinds) : Compatible(kinds[i], kind)
  /\ IF kinds = <<>> THEN j = CHOOSE first \in Joins : TRUE ELSE JoinOK(j, kinds[Len(kinds)], kind)
  /\ ~(host \in {"cell", "head"} /\ kind \in NotInCell)
  /\ (kinds = <<>> /\ kind \in LineStartSpecial => host \in {"heading", "cell", "head"})
  /\ run' = run \o (IF kinds = <<>> THEN "" ELSE j) \o x.s
  /\ ev' = ev \o (IF kinds = <<>> \/ j = "" THEN <<>> ELSE Txt(j)) \o x.e
  /\ kinds' = Append(kinds, kind) /\ k' = k + x.n
  /\ UNCHANGED host

Next == \E kind \in Kinds, j \in Joins : Add(kind, j)
Spec == Init /\ [][Next]_vars

HeadCell(e) == In("table",
             In("thead", In("tr", <<"+th|align=left">> \o e \o <<"-th">>))
          \o In("tbody", In("tr", <<"+td|align=left">> \o Txt("B") \o <<"-td">>)))
Cell(e) == In("table",
             In("thead", In("tr", <<"+th|align=left">> \o Txt("H") \o <<"-th">>))
          \o In("tbody", In("tr", <<"+td|align=left">> \o e \o <<"-td">>)))

Src ==
  CASE host = "para"    -> run \o "\n"
    [] host = "heading" -> "## " \o run \o "\n"
    [] host = "bullet"  -> "- " \o run \o "\n"
    [] host = "ordered" -> "1. " \o run \o "\n"
    [] host = "task"    -> "- [x] " \o run \o "\n"
    [] host = "quote"   -> "> " \o run \o "\n"
    [] host = "cell"    -> "| H |\n|---|\n| " \o run \o " |\n"
    [] host = "head"    -> "| " \o run \o " |\n|---|\n| B |\n"
    [] host = "nested"  -> "- o\n  - " \o run \o "\n"

Final ==
  CASE host = "para"    -> In("p", ev)
    [] host = "heading" -> In("h2", ev)
    [] host = "bullet"  -> In("ul", In("li", ev))
    [] host = "ordered" -> In("ol", In("li", ev))
    [] host = "task"    -> In("ul", In("li", <<"+input|checked=">> \o ev))
    [] host = "quote"   -> In("blockquote", ev)
    [] host = "cell"    -> Cell(ev)
    [] host = "head"    -> HeadCell(ev)
    [] host = "nested"  -> In("ul", In("li", Txt("o") \o In("ul", In("li", ev))))

---------------------------------------------------------------------------
WellNested == Balanced(Final)

(* Markup never nests an element inside itself, and text stays in order. *)
AttrWords == {"img", "imgabs"}
Conserved == (\A i \in 1..Len(kinds) : kinds[i] \notin AttrWords)
             => InOrderOnce(AllText(Final, 1), 1, k - 1, 1)

(* Later constructs never change what earlier ones mean. *)
AppendOnly == [][SubSeq(ev', 1, Len(ev)) = ev]_vars
=============================================================================
