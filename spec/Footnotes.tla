----------------------------- MODULE Footnotes -----------------------------
(* References and definitions of footnotes in any order.  The state records  *)
(* which labels have been cited, in order of first use, and the definitions. *)
EXTENDS Inlines

CONSTANTS Labels, MaxSteps, Forms,
          Texts,  \* texts of definitions; "" stands for a text of its own, "none" for no text
          Inds,   \* indents of a further line of a definition; "" for none
          Blocks, \* other blocks that stand next to definitions
          Gaps    \* blank lines

VARIABLES src, ev, cited, defs, k, steps, open
vars == <<src, ev, cited, defs, k, steps, open>>

Init == src = "" /\ ev = <<>> /\ cited = <<>> /\ defs = <<>> /\ k = 1 /\ steps = 0 /\ open = ""

RECURSIVE Pos(_, _, _)
Pos(s, x, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = x THEN i ELSE Pos(s, x, i + 1)
Cite(c, l) == IF Pos(c, l, 1) > 0 THEN c ELSE Append(c, l)

Ref(l, n) == <<"+sup|id=fnref:" \o l, "+a|href=#fn:" \o l, Text(ToString(n)), "-a", "-sup">>
(* The block that further lines may still belong to. *)
Elem_(b) == IF b = "task" THEN "ul" ELSE b
Close_(e) == IF open = "" THEN e ELSE e \o <<"-" \o Elem_(open)>>

(* A line of text with references: form is a sequence of pieces. *)
Para == \E f \in Forms, l \in Labels, m \in Labels, new \in BOOLEAN :
  LET w == W(k)  v == W(k + 1)
      two == f \in {"two", "adjacent"}
      c1 == Cite(cited, l)
      c2 == IF two THEN Cite(c1, m) ELSE c1
      r1 == "[^" \o l \o "]"
      r2 == "[^" \o m \o "]"
      e1 == Ref(l, Pos(c1, l, 1))
      e2 == Ref(m, Pos(c2, m, 1))
      s == CASE f = "end"   -> w \o r1
             [] f = "mid"   -> w \o r1 \o " " \o v
             [] f = "start" -> r1 \o " " \o w
             [] f = "two"   -> w \o r1 \o " " \o v \o r2 \o "."
             [] f = "adjacent" -> w \o r1 \o r2
             [] f = "em"    -> "*" \o w \o "*" \o r1 \o " `" \o v \o "`"
             [] f = "none"  -> w
      e == CASE f = "end"   -> Txt(w) \o e1
             [] f = "mid"   -> Txt(w) \o e1 \o Txt(" " \o v)
             [] f = "start" -> e1 \o Txt(" " \o w)
             [] f = "two"   -> Txt(w) \o e1 \o Txt(" " \o v) \o e2 \o Txt(".")
             [] f = "adjacent" -> Txt(w) \o e1 \o e2
             [] f = "em"    -> In("em", Txt(w)) \o e1 \o Txt(" ") \o In("code", Txt(v))
             [] f = "none"  -> Txt(w) IN
  /\ steps < MaxSteps
  /\ (~two => m = l)
  /\ (f = "none" => l = CHOOSE x \in Labels : TRUE)
  /\ (~new => open = "p")
  /\ src' = src \o (IF new /\ src # "" THEN "\n" ELSE "") \o s \o "\n"
  /\ ev' = IF new THEN Close_(ev) \o <<"+p">> \o e ELSE ev \o <<"=\n">> \o e
  /\ open' = "p"
  /\ cited' = IF f = "none" THEN cited ELSE c2
  /\ k' = k + 2 /\ steps' = steps + 1 /\ UNCHANGED defs

(* A definition stands on lines of its own, anywhere. *)
Def == \E l \in Labels, t \in Texts, ind \in Inds, gap \in Gaps \cup {""} :
  LET first == IF t = "" THEN W(k) \o " & <i>" ELSE IF t = "none" THEN "" ELSE t IN
  /\ steps < MaxSteps
  /\ \A i \in 1..Len(defs) : defs[i].l # l
  /\ (t # "" => ind = "")
  /\ (ind \notin {"", "    "} => gap # "")
  /\ src' = src \o (IF src # "" THEN gap ELSE "") \o "[^" \o l \o "]: " \o first
            \o (IF ind # "" THEN "\n" \o ind \o W(k + 1) ELSE "") \o "\n"
  /\ defs' = Append(defs, [l |-> l, t |-> first \o (IF ind # "" THEN "\n" \o W(k + 1) ELSE "")])
  /\ ev' = Close_(ev) /\ open' = ""
  /\ k' = k + 2 /\ steps' = steps + 1 /\ UNCHANGED cited

(* Another block: a definition above or below it is no part of it, and ends   *)
(* it.  An item or a line of a quotation goes on with the one above it.       *)
Block == \E b \in Blocks, l \in Labels :
  LET w == W(k)
      cites == b \in {"bullet", "ordered", "quote", "heading", "item", "task", "section"}
      c == IF cites THEN Cite(cited, l) ELSE cited
      r == "[^" \o l \o "]"
      e == Txt(w) \o Ref(l, Pos(c, l, 1))
      box == CASE b \in {"bullet", "item"} -> "ul" [] b = "task" -> "task" [] b = "ordered" -> "ol" [] b = "quote" -> "blockquote" [] OTHER -> ""
      inner == IF b = "quote" THEN e ELSE In("li", IF b = "task" THEN <<"+input">> \o e ELSE IF b = "item" THEN In("strong", Txt(w)) \o Ref(l, Pos(c, l, 1)) ELSE e)
      same == box # "" /\ box = open
      s == CASE b = "bullet"  -> "- " \o w \o r
             [] b = "item"    -> "* **" \o w \o "**" \o r
             [] b = "task"    -> "- [ ] " \o w \o r
             [] b = "section" -> "<details>\n<summary>s</summary>\n\n" \o w \o r \o "\n\n</details>"
             [] b = "ordered" -> ToString(k) \o ". " \o w \o r
             [] b = "quote"   -> "> " \o w \o r
             [] b = "heading" -> "## " \o w \o r
             [] b = "rule"    -> "***"
             [] b = "fence"   -> "```\n" \o w \o r \o "\n```"
             [] b = "icode"   -> "    " \o w \o r
             [] b = "table"   -> "| " \o w \o " |\n|---|\n| x |"
      solo == CASE b = "heading" -> In("h2", e)
                [] b = "section" -> In("details", In("summary", Txt("s")) \o In("p", e))
                [] b = "rule"    -> <<"+hr">>
                [] b \in {"fence", "icode"} -> In("pre", In("code", Txt(w \o r \o "\n")))
                [] b = "table"   -> In("table", In("thead", In("tr", <<"+th|align=left">> \o Txt(w) \o <<"-th">>))
                                             \o In("tbody", In("tr", <<"+td|align=left", "=x", "-td">>))) IN
  /\ steps < MaxSteps
  /\ (~cites => l = CHOOSE x \in Labels : TRUE)
  \* an indented line belongs to the definition or the item above it
  /\ (b = "icode" => open = "p" \/ src = "")
  /\ src' = src \o (IF (open # "" /\ ~same) \/ (src # "" /\ b = "table") THEN "\n" ELSE "") \o s \o "\n"
  /\ ev' = IF box = "" THEN Close_(ev) \o solo
           ELSE IF same THEN ev \o (IF b = "quote" THEN <<"=\n">> ELSE <<>>) \o inner
           ELSE Close_(ev) \o <<"+" \o Elem_(box)>> \o inner
  /\ open' = box
  /\ cited' = c
  /\ k' = k + 2 /\ steps' = steps + 1 /\ UNCHANGED defs

Next == Para \/ Def \/ Block
Spec == Init /\ [][Next]_vars

RECURSIVE Notes(_)
Notes(i) == IF i > Len(defs) THEN <<>>
  ELSE <<"+li|id=fn:" \o defs[i].l>> \o Txt(defs[i].t) \o <<"+a|href=#fnref:" \o defs[i].l>> \o Txt("↩") \o <<"-a", "-li">> \o Notes(i + 1)

Final == Close_(ev) \o (IF defs = <<>> THEN <<>> ELSE In("div", In("ol", Notes(1))))

---------------------------------------------------------------------------
WellNested == Balanced(Final)
(* Numbers are stable: a label keeps its number for ever. *)
Stable == [][SubSeq(cited', 1, Len(cited)) = cited /\ SubSeq(defs', 1, Len(defs)) = defs]_vars
(* Different labels have different numbers. *)
Distinct == \A i, j \in 1..Len(cited) : cited[i] = cited[j] => i = j
=============================================================================
