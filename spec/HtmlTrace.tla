----------------------------- MODULE HtmlTrace -----------------------------
(* What every rendering must look like, whatever the document: an acceptor   *)
(* for traces recorded from the real renderer.  A record is a projection of  *)
(* one rendering; records are read event by event, and an event that no      *)
(* transition allows is a violation, written to REJECTED.                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANT View         \* markup targets nesting words outcome

Recs == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, i, stack, verdict
vars == <<t, i, stack, verdict>>

Range(s) == {s[x] : x \in DOMAIN s}

---------------------------------------------------------------------------
(* C01: elements and attributes that Markdown constructs give, and what must *)
(* be in the source for an element to appear.                                *)
Headings == {"h1", "h2", "h3", "h4", "h5", "h6"}

NeedsOneOf(e) ==
  CASE e \in {"em", "strong"} -> {"*", "_"}
    [] e = "strike" -> {"~~"}
    [] e = "code"   -> {"`", "indent"}
    [] e = "pre"    -> {"`", "indent"}
    [] e = "a"      -> {"](", "[^", "<"}
    [] e = "img"    -> {"!["}
    [] e \in Headings -> {"#"}
    [] e = "hr"     -> {"*", "-", "+", "_"}
    [] e = "ul"     -> {"*", "-", "+"}
    [] e = "ol"     -> {"number", "[^"}
    [] e = "li"     -> {"*", "-", "+", "number", "[^"}
    [] e = "blockquote" -> {">"}
    [] e \in {"table", "thead", "tbody", "tr", "th", "td"} -> {"|"}
    [] e \in {"details", "summary"} -> {"<details>"}
    [] e = "input"  -> {"[ ]", "[x]", "[X]"}
    [] e \in {"sup", "div"} -> {"[^"}
    [] OTHER -> {}

Elements == {"p", "br", "em", "strong", "strike", "code", "pre", "a", "img", "hr", "ul", "ol", "li", "blockquote",
             "table", "thead", "tbody", "tr", "th", "td", "details", "summary", "input", "sup", "div"} \cup Headings

Attributes(e) ==
  CASE e = "a" -> {"href", "title", "class=footnote", "rel=footnote", "class=reversefootnote", "role=doc-backlink",
                   "referrerpolicy=no-referrer", "rel=noopener", "rel=noreferrer"}
    [] e = "img" -> {"src", "alt", "referrerpolicy=no-referrer"}
    [] e \in Headings -> {"id"}
    [] e = "code" -> {"class=language"}
    [] e \in {"th", "td"} -> {"style=text-align:left", "style=text-align:right", "style=text-align:center"}
    [] e = "table" -> {"class=table table-bordered"}
    [] e = "ul" -> {"class=contains-task-list"}
    [] e = "li" -> {"class=task-list-item", "id", "role=doc-endnote"}
    [] e = "input" -> {"type=checkbox", "class=task-list-item-checkbox", "checked=", "checked=checked", "disabled="}
    [] e = "sup" -> {"id", "role=doc-noteref"}
    [] e = "div" -> {"class=footnotes", "role=doc-endnotes"}
    [] OTHER -> {}

(* An id on a list item or superscript belongs to a footnote. *)
NeedsAttr(a) == IF a \in {"class=footnote", "rel=footnote", "class=reversefootnote", "role=doc-backlink"} THEN {"[^"} ELSE {}

MarkupOK(r) ==
  IF r.e = "!" THEN FALSE                           \* a comment, declaration or stray <
  ELSE IF SubSeq(r.e, 1, 1) = "/" THEN SubSeq(r.e, 2, Len(r.e)) \in Elements
  ELSE /\ r.e \in Elements
       /\ NeedsOneOf(r.e) = {} \/ NeedsOneOf(r.e) \cap Range(r.f) # {}
       /\ (r.e = "a" => Range(r.f) \cap {"](", "[^"} # {} \/ {":", "@"} \cap Range(r.f) # {})
       /\ \A a \in Range(r.a) : a \in Attributes(r.e) /\ NeedsAttr(a) \subseteq Range(r.f)

---------------------------------------------------------------------------
(* C02: targets as a browser reads them. *)
TargetsAllowed == {"a.href none", "a.href other", "a.href data-image", "img.src none", "img.src other",
                   "img.src data-image", "img.src empty", "a.href empty"}

---------------------------------------------------------------------------
(* C05: a pushdown automaton. *)
Void   == {"img", "hr", "br", "input"}
Inline == {"em", "strong", "strike", "code", "a", "img", "br", "sup", "t"}
Block  == {"p", "ul", "ol", "pre", "blockquote", "table", "hr", "details", "div"} \cup Headings

Children(e) ==
  CASE e = "" -> Block \cup Inline \cup {"t"}
    [] e = "p" \/ e \in Headings -> Inline
    [] e \in {"ul", "ol"} -> {"li"}
    [] e = "li" -> Block \cup Inline \cup {"input"}
    [] e = "blockquote" -> Block \cup Inline
    [] e = "table" -> {"thead", "tbody"}
    [] e \in {"thead", "tbody"} -> {"tr"}
    [] e = "tr" -> {"th", "td"}
    [] e \in {"th", "td"} -> Inline
    [] e = "pre" -> {"code"}
    [] e = "code" -> {"t"}
    [] e = "details" -> Block \cup Inline \cup {"summary"}
    [] e = "summary" -> Inline
    [] e = "div" -> {"ol"}
    [] e = "sup" -> {"a"}
    [] e \in {"a", "em", "strong", "strike"} -> (Inline \ {e, "sup"})
    [] OTHER -> {}

Top == IF stack = <<>> THEN "" ELSE stack[Len(stack)]

NestOK(ev) ==
  LET n == SubSeq(ev, 2, Len(ev)) IN
  CASE ev = "t" -> "t" \in Children(Top)
    [] SubSeq(ev, 1, 1) = "+" -> n \in Children(Top)
    [] SubSeq(ev, 1, 1) = "-" -> n = Top
    [] OTHER -> FALSE

NestPush(ev) ==
  LET n == SubSeq(ev, 2, Len(ev)) IN
  CASE SubSeq(ev, 1, 1) = "+" /\ n \notin Void -> Append(stack, n)
    [] SubSeq(ev, 1, 1) = "-" -> SubSeq(stack, 1, Len(stack) - 1)
    [] OTHER -> stack

---------------------------------------------------------------------------
(* C06: every word once and in order. *)
WordsOK(r) ==
  /\ \A w \in 1..r.n : w \in Range(r.free) \/ w \in Range(r.text) \/ w \in Range(r.attr)
  /\ \A x, y \in DOMAIN r.text : x < y => r.text[x] # r.text[y]
  /\ r.notes \/ \A x \in DOMAIN r.text : x > 1 => r.text[x - 1] < r.text[x]
  /\ 0 \notin Range(r.text) /\ 0 \notin Range(r.attr)          \* no word comes from nowhere

---------------------------------------------------------------------------
RecOK(r) ==
  CASE View = "markup"  -> MarkupOK(r)
    [] View = "targets" -> r.t \in TargetsAllowed
    [] View = "words"   -> WordsOK(r)
    [] View = "outcome" -> r.o = "return"

Init == t \in 1..Len(Recs) /\ i = 0 /\ stack = <<>> /\ verdict = ""

Reject(why) == /\ verdict' = why
               /\ CSVWrite("%1$s", <<ToJson([t |-> t, i |-> i, why |-> why])>>, IOEnv.REJECTED)
               /\ UNCHANGED <<t, i, stack>>

ReadRecord == /\ View # "nesting" /\ verdict = "" /\ i = 0
              /\ IF RecOK(Recs[t])
                 THEN verdict' = "accepted" /\ i' = 1 /\ UNCHANGED <<t, stack>>
                 ELSE Reject("not allowed")

ReadEvent == /\ View = "nesting" /\ verdict = "" /\ i < Len(Recs[t].ev)
             /\ LET ev == Recs[t].ev[i + 1] IN
                IF NestOK(ev)
                THEN i' = i + 1 /\ stack' = NestPush(ev) /\ UNCHANGED <<t, verdict>>
                ELSE Reject("event " \o ev \o " inside " \o Top)

ReadEnd == /\ View = "nesting" /\ verdict = "" /\ i = Len(Recs[t].ev)
           /\ IF stack = <<>> THEN verdict' = "accepted" /\ UNCHANGED <<t, i, stack>>
              ELSE Reject("left open: " \o Top)

Next == ReadRecord \/ ReadEvent \/ ReadEnd
Spec == Init /\ [][Next]_vars

TypeOK == t \in 1..Len(Recs) /\ (verdict = "accepted" => stack = <<>>)
=============================================================================
