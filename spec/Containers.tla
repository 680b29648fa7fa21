----------------------------- MODULE Containers -----------------------------
(* Blocks inside blocks.  A document is written from top to bottom; the state *)
(* holds the containers (list items, quotations) that are open, each with the *)
(* prefix that every further line inside it must carry, and the events a      *)
(* reader gets.  Leaves (text, headings, rules, code, tables) are written in  *)
(* the innermost container.  Guards delimit the domain: inside list items     *)
(* there are no blank lines, no indented code, and a list is not the first    *)
(* block of an item; blocks that would merge with the one before are left out.*)
EXTENDS Inlines

CONSTANTS
  Opens,     \* containers: ul ol task quote
  Leaves,    \* leaves: text heading rule fence table icode
  Inl,       \* inline kinds of text
  Bodies,    \* contents of fenced blocks (sequences of lines)
  Indents,   \* how list content is indented: fit four tab
  Bullets, Boxes, \* markers of items, marks of tasks
  Firsts,    \* first numbers of ordered lists
  MaxDepth, MaxLeaves

VARIABLES
  src, ev,
  st,      \* open containers, outermost first
  pend,    \* prefix of the next line
  last,    \* what precedes in the innermost container: none para head fence table icode, or a closed container
  gap,     \* a blank line precedes
  k, n, style

vars == <<src, ev, st, pend, last, gap, k, n, style>>

Init == /\ src = "" /\ ev = <<>> /\ st = <<>> /\ pend = "" /\ last = "none" /\ gap = FALSE
        /\ k = 1 /\ n = 0 /\ style \in Indents

RECURSIVE Prefix(_)
Prefix(s) == IF s = <<>> THEN "" ELSE s[1].cont \o Prefix(Tail(s))
RECURSIVE RTrim(_)
RTrim(s) == IF s # "" /\ SubSeq(s, Len(s), Len(s)) \in {" ", "\t"} THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s

InList == \E i \in 1..Len(st) : st[i].t # "quote"
Top == st[Len(st)]
Rest == SubSeq(st, 1, Len(st) - 1)

(* Blank lines are possible outside containers and directly in a quotation. *)
GapIn(s) == IF s = <<>> THEN TRUE ELSE s[Len(s)].t = "quote"

EndPara == IF last = "para" THEN <<"-p">> ELSE <<>>
CloseTop == IF Top.t = "quote" THEN <<"-blockquote">>
            ELSE <<"-li", IF Top.t = "ol" THEN "-ol" ELSE "-ul">>
RECURSIVE CloseAll(_)
CloseAll(s) == IF s = <<>> THEN <<>>
               ELSE (IF s[Len(s)].t = "quote" THEN <<"-blockquote">> ELSE <<"-li", IF s[Len(s)].t = "ol" THEN "-ol" ELSE "-ul">>)
                    \o CloseAll(SubSeq(s, 1, Len(s) - 1))
Final == ev \o EndPara \o CloseAll(st)

(* Nothing precedes that text could continue. *)
Fresh == gap \/ last \in {"none", "head", "fence"}

RTrimIfEmpty(p, l) == IF l = "" THEN RTrim(p) ELSE p
RECURSIVE Lines(_, _)
Lines(ls, i) == IF i > Len(ls) THEN ""
                ELSE (IF i = 1 THEN pend ELSE RTrimIfEmpty(Prefix(st), ls[i])) \o ls[i] \o "\n" \o Lines(ls, i + 1)

Leaf(ls, e, what, words) ==
  /\ n < MaxLeaves
  /\ src' = src \o Lines(ls, 1)
  /\ ev' = ev \o e /\ last' = what /\ gap' = FALSE
  /\ pend' = Prefix(st) /\ k' = k + words /\ n' = n + 1
  /\ UNCHANGED <<st, style>>

NeedsText == st # <<>> /\ Top.t = "task" /\ last = "none"

TextL == "text" \in Leaves /\ \E i \in Inl :
  LET x == Inline(i, k) IN
  IF last = "para" /\ ~gap THEN Leaf(<<x.s>>, <<"=\n">> \o x.e, "para", x.n)
  ELSE Fresh /\ Leaf(<<x.s>>, EndPara \o <<"+p">> \o x.e, "para", x.n)

HeadL == "heading" \in Leaves /\ ~NeedsText /\
  Leaf(<<"## " \o W(k)>>, EndPara \o In("h2", Txt(W(k))), "head", 1)

RuleL == "rule" \in Leaves /\ ~NeedsText /\ Leaf(<<"***">>, EndPara \o <<"+hr">>, "head", 0)

RECURSIVE Joined(_, _)
Joined(ls, i) == IF i > Len(ls) THEN "" ELSE ls[i] \o "\n" \o Joined(ls, i + 1)
FenceL == "fence" \in Leaves /\ ~NeedsText /\ \E b \in Bodies :
  /\ (InList => \A i \in 1..Len(b) : b[i] # "")
  /\ Leaf(<<"```rs">> \o b \o <<"```">>,
          EndPara \o In("pre", <<"+code|lang=rs">> \o Txt(Joined(b, 1)) \o <<"-code">>), "fence", 0)

TableL == "table" \in Leaves /\ ~NeedsText /\ (last = "table" => gap) /\ last # "table" /\
  LET a == W(k)  b == W(k + 1)  c == W(k + 2)  d == W(k + 3) IN
  Leaf(<<"| " \o a \o " | " \o b \o " |", "| --- | --: |", "| " \o c \o " | " \o d \o " |">>,
       EndPara \o In("table",
         In("thead", In("tr", <<"+th|align=left">> \o Txt(a) \o <<"-th", "+th|align=right">> \o Txt(b) \o <<"-th">>))
         \o In("tbody", In("tr", <<"+td|align=left">> \o Txt(c) \o <<"-td", "+td|align=right">> \o Txt(d) \o <<"-td">>))),
       "table", 4)

ICodeL == "icode" \in Leaves /\ ~InList /\ last \notin {"icode", "ul", "ol", "task"} /\ Fresh /\
  Leaf(<<"    *" \o W(k) \o "*", "      <b>">>,
       EndPara \o In("pre", In("code", Txt("*" \o W(k) \o "*\n  <b>\n"))), "icode", 1)

(* A container is opened; its first line carries its marker. *)
Fit(m) == Rep(" ", Len(m))
Cont(m) == IF style = "fit" \/ Len(m) > 4 THEN Fit(m) ELSE IF style = "four" THEN "    " ELSE "\t"

Push(c, marker, e) ==
  /\ st' = Append(st, c) /\ pend' = pend \o marker
  /\ ev' = ev \o EndPara \o e /\ last' = "none" /\ gap' = FALSE
  /\ UNCHANGED <<src, k, n, style>>

CanOpen(t) == /\ t \in Opens /\ Len(st) < MaxDepth /\ n < MaxLeaves /\ ~NeedsText /\ last # t
FirstInItem == st # <<>> /\ Top.t # "quote" /\ last = "none"

OpenQuote == CanOpen("quote") /\ Push([t |-> "quote", cont |-> "> ", mk |-> "", no |-> 0], "> ", <<"+blockquote">>)

OpenBullets == CanOpen("ul") /\ ~FirstInItem /\ \E m \in Bullets :
  /\ (last \in {"task"} => FALSE)
  /\ Push([t |-> "ul", cont |-> Cont(m), mk |-> m, no |-> 0], m, <<"+ul", "+li">>)

Box(c) == IF c = " " THEN "+input" ELSE "+input|checked="
OpenTasks == CanOpen("task") /\ ~FirstInItem /\ last # "ul" /\ \E m \in Bullets, c \in Boxes :
  Push([t |-> "task", cont |-> Cont(m), mk |-> m, no |-> 0], m \o "[" \o c \o "] ", <<"+ul", "+li", Box(c)>>)

Number(f, i) == IF i = 0 THEN f ELSE IF f = "1" THEN ToString(1 + i) ELSE f    \* only the first number matters
OpenNumbers == CanOpen("ol") /\ ~FirstInItem /\ \E f \in Firsts :
  LET m == f \o ". " IN
  /\ (f # "1" => Fresh)
  /\ Push([t |-> "ol", cont |-> Cont(m), mk |-> f, no |-> 0], m, <<"+ol", "+li">>)

(* The next item of the innermost list, possibly after a blank line. *)
NextItem == /\ st # <<>> /\ Top.t # "quote" /\ last # "none" /\ n < MaxLeaves
            /\ \E loose \in BOOLEAN, c \in Boxes :
                 /\ (loose => GapIn(Rest))
                 /\ (Top.t # "task" => c = CHOOSE x \in Boxes : TRUE)
                 /\ LET m == CASE Top.t = "ul" -> Top.mk
                               [] Top.t = "task" -> Top.mk \o "[" \o c \o "] "
                               [] Top.t = "ol" -> Number(Top.mk, Top.no + 1) \o ". " IN
                    /\ src' = IF loose THEN src \o RTrim(Prefix(Rest)) \o "\n" ELSE src
                    /\ pend' = Prefix(Rest) \o m
                    /\ st' = Append(Rest, [Top EXCEPT !.no = @ + 1,
                                           !.cont = IF Top.t = "ol" THEN Cont(m) ELSE @])
                    /\ ev' = ev \o EndPara \o <<"-li", "+li">> \o (IF Top.t = "task" THEN <<Box(c)>> ELSE <<>>)
            /\ last' = "none" /\ gap' = FALSE /\ UNCHANGED <<k, n, style>>

CloseC == /\ st # <<>> /\ last # "none" /\ n < MaxLeaves
          /\ ev' = ev \o EndPara \o CloseTop
          /\ st' = Rest /\ pend' = Prefix(Rest) /\ last' = Top.t /\ gap' = FALSE
          /\ UNCHANGED <<src, k, n, style>>

Gap == /\ GapIn(st) /\ last # "none" /\ ~gap /\ n < MaxLeaves
       /\ src' = src \o RTrim(Prefix(st)) \o "\n" /\ gap' = TRUE
       /\ UNCHANGED <<ev, st, pend, last, k, n, style>>

Next == TextL \/ HeadL \/ RuleL \/ FenceL \/ TableL \/ ICodeL
        \/ OpenQuote \/ OpenBullets \/ OpenTasks \/ OpenNumbers \/ NextItem \/ CloseC \/ Gap
Spec == Init /\ [][Next]_vars

(* A document is complete when every opened container has content. *)
Complete == last # "none"
---------------------------------------------------------------------------
WellNested == Complete => Balanced(Final)
Conserved == Inl \cap {"img", "imgabs"} = {} => InOrderOnce(AllText(Final, 1), 1, k - 1, 1)
AppendOnly == [][SubSeq(ev', 1, Len(ev)) = ev /\ SubSeq(src', 1, Len(src)) = src]_vars
(* The items of a list and the paragraphs of a document are never lost: every *)
(* list item holds something.                                                 *)
RECURSIVE EmptyItem(_, _)
EmptyItem(e, i) == IF i >= Len(e) THEN FALSE ELSE (e[i] = "+li" /\ e[i+1] = "-li") \/ EmptyItem(e, i + 1)
NoEmptyItem == Complete => ~EmptyItem(Final, 1)
=============================================================================
