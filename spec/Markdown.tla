----------------------------- MODULE Markdown -----------------------------
(* A document is written line by line.  The state is the source so far, the  *)
(* events a reader must get for it, and which blocks are open; every action  *)
(* appends one line (or one self-contained block) and says what it means.    *)
(* Guards delimit the specified domain: combinations whose meaning GitHub    *)
(* Flavored Markdown leaves to lazy-continuation rules that smd does not     *)
(* implement are not in it.                                                  *)
EXTENDS Inlines, FiniteSets

CONSTANTS
  Acts,        \* names of the enabled actions
  LineInl,     \* inline kinds that lines may carry
  Levels,      \* heading levels
  CodeLines,   \* lines of code
  FenceBodies, \* contents of fenced blocks
  QDepths,     \* quote depths
  HSeps,       \* what follows the # of a heading
  HEmpty,      \* how a heading without text goes on after its #
  HTails,      \* <<how a heading line ends, the id it thereby gets or "">>
  Rules,       \* rules
  NoRules,     \* lines of markers that are no rule
  EmptyMarks,  \* items without text
  MarkSeps,    \* what follows the marker of a list item
  Numbers,     \* numbers of ordered items
  Leads,       \* blanks before a line, up to three
  BlankLines,  \* spellings of a blank line
  Fences,      \* <<opening fence, info line, closing fence, language>>
  QForms,      \* how the markers of a quoted line are spaced: tight, spaced
  MaxLines

VARIABLES
  src,    \* the document so far
  ev,     \* the events so far, open blocks not yet closed
  ctx,    \* the innermost open block: none para ul ol task quote icode table
  depth,  \* list nesting or quote depth
  mk,     \* bullet of the open list
  cnt,    \* items in the open ordered list
  blank,  \* blank lines just before
  k,      \* next word
  lines,  \* lines written
  sect,   \* open details sections
  kinds   \* inline constructs in the paragraph that the next line may continue

vars == <<src, ev, ctx, depth, mk, cnt, blank, k, lines, sect, kinds>>

RECURSIVE RepSeq(_, _)
RepSeq(s, n) == IF n = 0 THEN <<>> ELSE s \o RepSeq(s, n - 1)

(* Closing the open blocks. *)
Closers ==
  CASE ctx = "para"  -> <<"-p">>
    [] ctx = "ul"    -> RepSeq(<<"-li", "-ul">>, depth)
    [] ctx = "ol"    -> <<"-li", "-ol">>
    [] ctx = "task"  -> <<"-li", "-ul">>
    [] ctx = "quote" -> RepSeq(<<"-blockquote">>, depth)
    [] ctx = "icode" -> <<"-code", "-pre">>
    [] OTHER -> <<>>

Final == ev \o Closers \o RepSeq(<<"-details">>, sect)

Init ==
  /\ src = "" /\ ev = <<>> /\ ctx = "none" /\ depth = 0 /\ mk = "" /\ cnt = 0
  /\ blank = 0 /\ k = 1 /\ lines = 0 /\ sect = 0 /\ kinds = {}

More == lines < MaxLines /\ ctx # "eof"
Fresh == blank > 0 \/ ctx = "none"          \* nothing that a text line could continue

(* Blanks before a line mean nothing, except below a list item. *)
Lead(ld) == ld = "" \/ ctx \notin {"ul", "ol", "task"}

(* One line of source with its meaning. *)
PutK(line, e, c, d, words, K) ==
  /\ src' = src \o line \o "\n"
  /\ ev' = e /\ ctx' = c /\ depth' = d /\ k' = k + words
  /\ blank' = 0 /\ lines' = lines + 1 /\ kinds' = K
Put(line, e, c, d, words) == PutK(line, e, c, d, words, {})

(* Markers of different lines of a paragraph could pair; those of different  *)
(* blocks never do.                                                          *)
Joinable(i) == \A q \in kinds : Compatible(q, i)

TextLine == "text" \in Acts /\ More /\ \E i \in LineInl, ld \in Leads :
  LET x == Inline(i, k) IN
  /\ Lead(ld)
  /\ IF ctx = "para" /\ blank = 0
     THEN Joinable(i) /\ PutK(ld \o x.s, ev \o <<"=\n">> \o x.e, "para", 0, x.n, kinds \cup {i})
     ELSE Fresh /\ PutK(ld \o x.s, ev \o Closers \o <<"+p">> \o x.e, "para", 0, x.n, {i})
  /\ UNCHANGED <<mk, cnt, sect>>

Heading == "heading" \in Acts /\ More /\ \E l \in Levels, i \in LineInl, sp \in HSeps, t \in HTails, ld \in Leads :
  LET x == Inline(i, k)
      h == "h" \o ToString(l)
      o == IF t[2] # "" THEN Attr(Open(h), "id", t[2]) ELSE Open(h) IN
  /\ Lead(ld)
  /\ Put(ld \o Rep("#", l) \o sp \o x.s \o t[1], ev \o Closers \o <<o>> \o x.e \o <<Close(h)>>, "none", 0, x.n)
  /\ UNCHANGED <<mk, cnt, sect>>

EmptyHeading == "emptyheading" \in Acts /\ More /\ \E l \in Levels, t \in HEmpty, ld \in Leads :
  LET h == "h" \o ToString(l) IN
  /\ Lead(ld)
  /\ Put(ld \o Rep("#", l) \o t, ev \o Closers \o In(h, <<>>), "none", 0, 0)
  /\ UNCHANGED <<mk, cnt, sect>>

(* Seven # or no blank: plain text. *)
NoHeading == "noheading" \in Acts /\ More /\ \E m \in {"####### ", "#", "##"} :
  LET t == m \o W(k) IN
  /\ IF ctx = "para" /\ blank = 0
     THEN PutK(t, ev \o <<"=\n">> \o Txt(t), "para", 0, 1, kinds)
     ELSE Fresh /\ Put(t, ev \o Closers \o <<"+p">> \o Txt(t), "para", 0, 1)
  /\ UNCHANGED <<mk, cnt, sect>>

Rule == "rule" \in Acts /\ More /\ \E m \in Rules, ld \in Leads :
  /\ (SubSeq(m, 1, 1) = "-" => ~(ctx = "para" /\ blank = 0))
  /\ Lead(ld)
  /\ Put(ld \o m, ev \o Closers \o <<"+hr">>, "none", 0, 0)
  /\ UNCHANGED <<mk, cnt, sect>>

NoRule == "norule" \in Acts /\ More /\ Fresh /\ \E m \in NoRules :
  /\ PutK(m, ev \o Closers \o <<"+p">> \o Txt(m), "para", 0, 0, {"lone*"})
  /\ UNCHANGED <<mk, cnt, sect>>

Bullet == "bullet" \in Acts /\ More /\ \E m \in {"-", "+", "*"}, i \in LineInl, sp \in MarkSeps, ld \in Leads :
  LET x == Inline(i, k)
      line == ld \o m \o sp \o x.s IN
  /\ Lead(ld)
  /\ (m # "-" => "bullets" \in Acts)
  /\ IF ctx = "ul"
     THEN mk = m /\ Put(line, ev \o RepSeq(<<"-li", "-ul">>, depth - 1) \o <<"-li", "+li">> \o x.e, "ul", 1, x.n)
     ELSE ctx # "task" /\ Put(line, ev \o Closers \o <<"+ul", "+li">> \o x.e, "ul", 1, x.n)
  /\ mk' = m /\ UNCHANGED <<cnt, sect>>

(* An item may have no text. *)
EmptyItem == "emptyitem" \in Acts /\ More /\ (Fresh \/ ctx \in {"ul", "ol", "task"}) /\ \E m \in EmptyMarks :
  LET ol == SubSeq(m, 1, 1) \notin {"-", "+", "*"}
      task == Find(m, "[", 1) > 0
      c == IF ol THEN "ol" ELSE IF task THEN "task" ELSE "ul"
      box == IF task THEN <<"+input">> ELSE <<>> IN
  /\ (c = "task" => ctx # "ul") /\ (c = "ul" => ctx # "task")
  /\ IF ctx = c
     THEN /\ (c = "ul" => SubSeq(m, 1, 1) = mk)
          /\ Put(m, ev \o RepSeq(<<"-li", "-ul">>, IF c = "ul" THEN depth - 1 ELSE 0) \o <<"-li", "+li">> \o box, c, 1, 0)
     ELSE Put(m, ev \o Closers \o <<IF ol THEN "+ol" ELSE "+ul", "+li">> \o box, c, 1, 0)
  /\ mk' = (IF ol THEN mk ELSE SubSeq(m, 1, 1)) /\ cnt' = (IF ol THEN (IF ctx = "ol" THEN cnt + 1 ELSE 1) ELSE cnt)
  /\ UNCHANGED sect

Nested == "nested" \in Acts /\ More /\ ctx = "ul" /\ blank = 0 /\ \E d \in 2..(depth + 1), i \in LineInl :
  LET x == Inline(i, k)
      e == IF d = depth + 1 THEN <<"+ul", "+li">>
           ELSE RepSeq(<<"-li", "-ul">>, depth - d) \o <<"-li", "+li">> IN
  /\ d <= 3
  /\ Put(Rep("  ", d - 1) \o mk \o " " \o x.s, ev \o e \o x.e, "ul", d, x.n)
  /\ UNCHANGED <<mk, cnt, sect>>

(* A further paragraph of the item, indented by a tab. *)
ItemPara == "itempara" \in Acts /\ More /\ ctx = "ul" /\ depth = 1 /\ blank = 1 /\ mk \in {"-", "+"} /\ \E i \in LineInl :
  LET x == Inline(i, k) IN
  /\ Put("\t" \o x.s, ev \o <<"=\n">> \o x.e, "ul", 1, x.n)
  /\ UNCHANGED <<mk, cnt, sect>>

(* Whatever its number, an item is the next one. *)
Ordered == "ordered" \in Acts /\ More /\ \E no \in Numbers, i \in LineInl, sp \in MarkSeps, ld \in Leads :
  LET x == Inline(i, k)
      line == ld \o no \o "." \o sp \o x.s IN
  /\ Lead(ld)
  /\ (ctx # "ol" /\ no # "1" => Fresh)
  /\ IF ctx = "ol"
     THEN Put(line, ev \o <<"-li", "+li">> \o x.e, "ol", 1, x.n)
     ELSE Put(line, ev \o Closers \o <<"+ol", "+li">> \o x.e, "ol", 1, x.n)
  /\ cnt' = (IF ctx = "ol" THEN cnt + 1 ELSE 1) /\ UNCHANGED <<mk, sect>>

Task == "task" \in Acts /\ More /\ ctx # "ul" /\ \E c \in {" ", "x", "X"}, m \in {"-", "+", "*"}, i \in LineInl, sp \in MarkSeps, ld \in Leads :
  LET x == Inline(i, k)
      box == IF c = " " THEN "+input" ELSE "+input|checked="
      line == ld \o m \o sp \o "[" \o c \o "] " \o x.s IN
  /\ (c = "X" \/ m # "-" => "bullets" \in Acts)
  /\ Lead(ld)
  /\ IF ctx = "task"
     THEN Put(line, ev \o <<"-li", "+li", box>> \o x.e, "task", 1, x.n)
     ELSE Put(line, ev \o Closers \o <<"+ul", "+li", box>> \o x.e, "task", 1, x.n)
  /\ UNCHANGED <<mk, cnt, sect>>

(* A quoted line is inside as many quotations as it has markers. *)
QuoteTo(d) == IF ctx = "quote"
              THEN (IF d > depth THEN RepSeq(<<"+blockquote">>, d - depth)
                    ELSE RepSeq(<<"-blockquote">>, depth - d)) \o <<"=\n">>
              ELSE Closers \o RepSeq(<<"+blockquote">>, d)

Quote == "quote" \in Acts /\ More /\ \E d \in QDepths, i \in LineInl, sp \in {"", " "}, f \in QForms, ld \in Leads :
  LET x == Inline(i, k) IN
  /\ (sp = "" => "quotetight" \in Acts /\ f = "tight")
  /\ (f = "spaced" => d > 1 \/ QForms = {"spaced"})
  /\ Lead(ld)
  /\ (ctx = "quote" /\ d = depth => Joinable(i))
  /\ PutK(ld \o (IF f = "tight" THEN Rep(">", d) \o sp ELSE Rep("> ", d)) \o x.s, ev \o QuoteTo(d) \o x.e, "quote", d, x.n,
          {i} \cup (IF ctx = "quote" /\ d = depth THEN kinds ELSE {}))
  /\ UNCHANGED <<mk, cnt, sect>>

QuoteBlank == "quoteblank" \in Acts /\ More /\ ctx = "quote" /\ \E d \in QDepths :
  /\ d <= depth
  /\ Put(Rep(">", d), ev \o QuoteTo(d), "quote", d, 0)
  /\ UNCHANGED <<mk, cnt, sect>>

(* Quoted blocks other than text. *)
RECURSIVE LastReal(_)
LastReal(e) == IF e = <<>> THEN "" ELSE IF e[Len(e)] = "=\n" THEN LastReal(SubSeq(e, 1, Len(e) - 1)) ELSE e[Len(e)]
QuoteBlock == "quoteblock" \in Acts /\ More /\ \E d \in QDepths, b \in {"h", "li", "code"} :
  LET w == W(k)
      s == CASE b = "h" -> "## " \o w [] b = "li" -> "- " \o w [] b = "code" -> "`" \o w \o "`"
      e == CASE b = "h" -> In("h2", Txt(w)) [] b = "li" -> In("ul", In("li", Txt(w)))
             [] b = "code" -> In("code", Txt(w)) IN
  /\ (ctx = "quote" => b # "li" \/ LastReal(ev) # "-ul")   \* adjacent lists would be one
  /\ Put(Rep(">", d) \o " " \o s, ev \o QuoteTo(d) \o e, "quote", d, 1)
  /\ UNCHANGED <<mk, cnt, sect>>

(* Indented code: not as a continuation of text or of a list. *)
ICode == "icode" \in Acts /\ More /\ \E t \in CodeLines, ind \in {"    ", "\t", " \t", "   \t"} :
  /\ (ind # "    " => "icodetab" \in Acts)
  /\ ctx \notin {"ul", "ol", "task"}
  /\ ctx = "icode" \/ Fresh
  /\ (Find(t, "#", 1) > 0 => ctx = "icode" \/ blank > 0 \/ src = "")
  /\ IF ctx = "icode"
     THEN Put(ind \o t, ev \o Txt(Rep("\n", blank) \o t \o "\n"), "icode", 0, 0)
     ELSE Put(ind \o t, ev \o Closers \o <<"+pre", "+code">> \o Txt(t \o "\n"), "icode", 0, 0)
  /\ UNCHANGED <<mk, cnt, sect>>

(* A fenced block: everything between the fences, verbatim. *)
Fence == "fence" \in Acts /\ More /\ \E b \in FenceBodies, f \in Fences :
  LET o == IF f[4] = "" THEN "+code" ELSE Attr("+code", "lang", f[4]) IN
  /\ (Find(b, "```", 1) > 0 => Len(f[1]) > 4 \/ SubSeq(b, 1, 3) # "```")
  /\ Put(f[1] \o f[2] \o "\n" \o b \o (IF b = "" THEN "" ELSE "\n") \o f[3],
         ev \o Closers \o <<"+pre", o>> \o (IF b = "" THEN <<>> ELSE Txt(b \o "\n")) \o <<"-code", "-pre">>, "none", 0, 0)
  /\ UNCHANGED <<mk, cnt, sect>>

(* A fence that is never closed holds the rest of the document. *)
OpenFence == "openfence" \in Acts /\ More /\ sect = 0 /\ \E b \in FenceBodies, f \in Fences :
  LET o == IF f[4] = "" THEN "+code" ELSE Attr("+code", "lang", f[4]) IN
  /\ b # "" /\ Find(b, "```", 1) = 0
  /\ Put(f[1] \o f[2] \o "\n" \o b, ev \o Closers \o <<"+pre", o>> \o Txt(b \o "\n") \o <<"-code", "-pre">>, "eof", 0, 0)
  /\ UNCHANGED <<mk, cnt, sect>>

(* A small table; Tables.tla explores tables in depth. *)
Table == "table" \in Acts /\ More /\ ctx # "table" /\ (ctx = "para" /\ blank = 0 => "tag" \notin kinds) /\
  LET a == W(k)  b == W(k+1)  c == W(k+2)  d == W(k+3) IN
  /\ Put("| " \o a \o " | " \o b \o " |\n|---|:-:|\n| " \o c \o " | *" \o d \o "* |",
         ev \o Closers \o In("table",
             In("thead", In("tr", <<"+th|align=left">> \o Txt(a) \o <<"-th", "+th|align=center">> \o Txt(b) \o <<"-th">>))
          \o In("tbody", In("tr", <<"+td|align=left">> \o Txt(c) \o <<"-td", "+td|align=center">> \o In("em", Txt(d)) \o <<"-td">>))),
         "table", 0, 4)
  /\ UNCHANGED <<mk, cnt, sect>>

(* A tag whose next line is not a summary. *)
Tag == "<details>\n"
BelowTag == Len(src) >= Len(Tag) /\ SubSeq(src, Len(src) - Len(Tag) + 1, Len(src)) = Tag
BareTag == "nosummary" \in Acts /\ More /\ sect = 0 /\
  /\ IF ctx = "para" /\ blank = 0
     THEN Joinable("tag") /\ PutK("<details>", ev \o <<"=\n">> \o Txt("<details>"), "para", 0, 0, kinds \cup {"tag"})
     ELSE Fresh /\ PutK("<details>", ev \o Closers \o <<"+p">> \o Txt("<details>"), "para", 0, 0, {"tag"})
  /\ UNCHANGED <<mk, cnt, sect>>

(* Lines with pipes that are no table, an opening tag without a summary, and *)
(* what is no footnote, are text.                                            *)
NearBlock == More /\ \E t \in (IF "pipe" \in Acts THEN {"| " \o W(k), "| " \o W(k) \o " | x |", "|" \o W(k), "|---|" \o W(k)} ELSE {})
                           \cup (IF "nosummary" \in Acts THEN (IF BelowTag THEN {} ELSE {"<summary>" \o W(k) \o "</summary>"}) ELSE {})
                           \cup (IF "nonote" \in Acts THEN {"[a^b]: " \o W(k), "[^]: " \o W(k), "[^a b]: " \o W(k), "[^ ] " \o W(k), "^a]: " \o W(k)} ELSE {}) :
  /\ IF ctx = "para" /\ blank = 0
     THEN Joinable("tag") /\ PutK(t, ev \o <<"=\n">> \o Txt(t), "para", 0, 1, kinds \cup {"tag"})
     ELSE Fresh /\ PutK(t, ev \o Closers \o <<"+p">> \o Txt(t), "para", 0, 1, {"tag"})
  /\ UNCHANGED <<mk, cnt, sect>>

OpenDetails == "details" \in Acts /\ More /\ sect < 2 /\
  /\ src' = src \o "<details>\n<summary>" \o W(k) \o " & <b></summary>\n"
  /\ ev' = ev \o Closers \o <<"+details", "+summary">> \o Txt(W(k) \o " & <b>") \o <<"-summary">>
  /\ ctx' = "none" /\ depth' = 0 /\ k' = k + 1 /\ blank' = 0 /\ lines' = lines + 1
  /\ sect' = sect + 1 /\ kinds' = {} /\ UNCHANGED <<mk, cnt>>

CloseDetails == "details" \in Acts /\ More /\ sect > 0 /\
  /\ src' = src \o "</details>\n"
  /\ ev' = ev \o Closers \o <<"-details">>
  /\ ctx' = "none" /\ depth' = 0 /\ blank' = 0 /\ lines' = lines + 1
  /\ sect' = sect - 1 /\ kinds' = {} /\ UNCHANGED <<mk, cnt, k>>

Blank == "blank" \in Acts /\ More /\ blank < 2 /\ src # "" /\ \E b \in BlankLines :
  /\ src' = src \o b \o "\n" /\ blank' = blank + 1 /\ lines' = lines + 1
  /\ UNCHANGED <<ev, ctx, depth, mk, cnt, k, sect, kinds>>

Next == TextLine \/ Heading \/ EmptyHeading \/ NoHeading \/ Rule \/ NoRule \/ Bullet \/ EmptyItem \/ Nested \/ ItemPara \/ Ordered \/ Task
        \/ Quote \/ QuoteBlank \/ QuoteBlock \/ ICode \/ Fence \/ OpenFence \/ Table \/ BareTag \/ NearBlock
        \/ OpenDetails \/ CloseDetails \/ Blank

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Properties of the specification itself. *)
TypeOK == /\ ctx \in {"none", "para", "ul", "ol", "task", "quote", "icode", "table", "eof"}
          /\ depth \in Nat /\ blank \in 0..2 /\ lines \in 0..MaxLines

(* C05: closing the open blocks always gives a well-nested document. *)
WellNested == Balanced(Final)

(* C06: every word is shown once, in order (attributes aside). *)
AttrWords == {"img", "imgabs"}
Conserved == LineInl \cap AttrWords = {} => InOrderOnce(AllText(Final, 1), 1, k - 1, 1)

(* C16: after a blank line a text line starts its own paragraph. *)
(* The events written so far are never revised by later lines. *)
AppendOnly == [][SubSeq(ev', 1, Len(ev)) = ev /\ SubSeq(src', 1, Len(src)) = src]_vars
=============================================================================
