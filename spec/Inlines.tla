------------------------------ MODULE Inlines ------------------------------
(* Inline constructs: what an author writes and what a reader gets.  A shape *)
(* is a record [s |-> source, e |-> events, n |-> words used] made from the  *)
(* number k of the next unused word.                                         *)
EXTENDS Events

Shape(s, e, n) == [s |-> s, e |-> e, n |-> n]

Link(t, href)         == <<Attr("+a", "href", href), Text(t), "-a">>
TitledLink(t, href, ti) == <<Attr(Attr("+a", "href", href), "title", ti), Text(t), "-a">>
Image(alt, src)       == <<Attr(Attr("+img", "src", src), "alt", alt)>>

Inline(kind, k) ==
  LET w == W(k)  v == W(k + 1) IN
  CASE kind = "word"     -> Shape(w, Txt(w), 1)
    [] kind = "words"    -> Shape(w \o " " \o v, Txt(w \o " " \o v), 2)
    \* emphasis
    [] kind = "em*"      -> Shape("*" \o w \o "*", In("em", Txt(w)), 1)
    [] kind = "em_"      -> Shape("_" \o w \o "_", In("em", Txt(w)), 1)
    [] kind = "em2"      -> Shape("*" \o w \o " " \o v \o "*", In("em", Txt(w \o " " \o v)), 2)
    [] kind = "strong*"  -> Shape("**" \o w \o "**", In("strong", Txt(w)), 1)
    [] kind = "strong_"  -> Shape("__" \o w \o "__", In("strong", Txt(w)), 1)
    [] kind = "both*"    -> Shape("***" \o w \o "***", In("strong", In("em", Txt(w))), 1)
    [] kind = "both_"    -> Shape("___" \o w \o "___", In("strong", In("em", Txt(w))), 1)
    [] kind = "strike"   -> Shape("~~" \o w \o "~~", In("strike", Txt(w)), 1)
    [] kind = "strike2"  -> Shape("~~" \o w \o " " \o v \o "~~", In("strike", Txt(w \o " " \o v)), 2)
    \* code spans
    [] kind = "code"     -> Shape("`" \o w \o "`", In("code", Txt(w)), 1)
    [] kind = "codemd"   -> Shape("`*" \o w \o "* _x_ [a](b) ~~c~~`",
                                  In("code", Txt("*" \o w \o "* _x_ [a](b) ~~c~~")), 1)
    [] kind = "codehtml" -> Shape("`<b>" \o w \o "</b> &amp; \"q\" \\n`",
                                  In("code", Txt("<b>" \o w \o "</b> &amp; \"q\" \\n")), 1)
    [] kind = "code2"    -> Shape("``" \o w \o " ` " \o v \o "``",
                                  In("code", Txt(w \o " ` " \o v)), 2)
    \* links and images
    [] kind = "link"     -> Shape("[" \o w \o "](http://h.example/p?q=1#f)",
                                  Link(w, "http://h.example/p?q=1#f"), 1)
    [] kind = "linkrel"  -> Shape("[" \o w \o "](../d/f-1_2.md)", Link(w, "../d/f-1_2.md"), 1)
    [] kind = "linkfrag" -> Shape("[" \o w \o "](#sec)", Link(w, "#sec"), 1)
    [] kind = "linkamp"  -> Shape("[" \o w \o "](/s?a=1&b=2)", Link(w, "/s?a=1&b=2"), 1)
    [] kind = "linkpct"  -> Shape("[" \o w \o "](/a%20b)", Link(w, "/a%20b"), 1)
    [] kind = "linkt"    -> Shape("[" \o w \o "](/u \"" \o "tt" \o "\")", TitledLink(w, "/u", "tt"), 1)
    [] kind = "link2"    -> Shape("[" \o w \o " " \o v \o "](/u)", Link(w \o " " \o v, "/u"), 2)
    [] kind = "mailto"   -> Shape("[" \o w \o "](mailto:a@b.example)", Link(w, "mailto:a@b.example"), 1)
    [] kind = "img"      -> Shape("![alt" \o w \o "](i/p.png)", Image("alt" \o w, "i/p.png"), 1)
    [] kind = "imgabs"   -> Shape("![x" \o w \o "](https://h.example/i.png?s=2)",
                                  Image("x" \o w, "https://h.example/i.png?s=2"), 1)
    [] kind = "auto"     -> Shape("<https://h.example/" \o w \o ">",
                                  Link("https://h.example/" \o w, "https://h.example/" \o w), 1)
    [] kind = "automail" -> Shape("<" \o w \o "@b.example>",
                                  Link(w \o "@b.example", "mailto:" \o w \o "@b.example"), 1)
    \* refused targets stay visible
    [] kind = "js"       -> Shape("[" \o w \o "](javascript:x)", Txt("[" \o w \o "](javascript:x)"), 1)
    [] kind = "jsimg"    -> Shape("![" \o w \o "](JavaScript:x)", Txt("![" \o w \o "](JavaScript:x)"), 1)
    [] kind = "datahtml" -> Shape("[" \o w \o "](data:text/html,x)", Txt("[" \o w \o "](data:text/html,x)"), 1)
    \* text that only looks like markup
    [] kind = "tag"      -> Shape("<b class=\"x\">" \o w \o "</b>", Txt("<b class=\"x\">" \o w \o "</b>"), 1)
    [] kind = "dtag"     -> Shape(w \o " <details> " \o v, Txt(w \o " <details> " \o v), 2)
    [] kind = "dcode"    -> Shape("`<details>` " \o w, In("code", Txt("<details>")) \o Txt(" " \o w), 1)
    [] kind = "amp"      -> Shape(w \o " & " \o v \o "&lt;", Txt(w \o " & " \o v \o "&lt;"), 2)
    [] kind = "esc"      -> Shape("\\*" \o w \o "\\*", Txt("*" \o w \o "*"), 1)
    [] kind = "esc[]"    -> Shape("\\[" \o w \o "\\]\\(u\\)", Txt("[" \o w \o "](u)"), 1)
    [] kind = "esc`"     -> Shape("\\`" \o w \o "\\`", Txt("`" \o w \o "`"), 1)
    [] kind = "esc\\"    -> Shape(w \o "\\\\" \o v, Txt(w \o "\\" \o v), 2)
    [] kind = "brack"    -> Shape("[" \o w \o "]", Txt("[" \o w \o "]"), 1)
    [] kind = "paren"    -> Shape("(" \o w \o ") {" \o v \o "}", Txt("(" \o w \o ") {" \o v \o "}"), 2)
    [] kind = "lt"       -> Shape(w \o " < " \o v, Txt(w \o " < " \o v), 2)
    [] kind = "gt"       -> Shape(w \o " > " \o v, Txt(w \o " > " \o v), 2)
    [] kind = "hash"     -> Shape(w \o " # " \o v \o " - 1. + | =", Txt(w \o " # " \o v \o " - 1. + | ="), 2)
    [] kind = "quotes"   -> Shape("\"" \o w \o "\" '" \o v \o "'", Txt("\"" \o w \o "\" '" \o v \o "'"), 2)
    [] kind = "uni"      -> Shape("é" \o w \o "木𐍈", Txt("é" \o w \o "木𐍈"), 1)
    \* block markers inside a line
    [] kind = "in1."     -> Shape("1. " \o w, Txt("1. " \o w), 1)
    [] kind = "in-"      -> Shape("- " \o w, Txt("- " \o w), 1)
    [] kind = "in+"      -> Shape("+ " \o w, Txt("+ " \o w), 1)
    [] kind = "in>"      -> Shape("> " \o w, Txt("> " \o w), 1)
    [] kind = "in---"    -> Shape("--- " \o w, Txt("--- " \o w), 1)
    [] kind = "in[]"     -> Shape("- [x] " \o w, Txt("- [x] " \o w), 1)
    \* one unmatched marker: literal
    [] kind = "lone*"    -> Shape(w \o "*" \o v, Txt(w \o "*" \o v), 2)
    [] kind = "lone_"    -> Shape(w \o "_" \o v, Txt(w \o "_" \o v), 2)
    [] kind = "lone**"   -> Shape("**" \o w, Txt("**" \o w), 1)
    [] kind = "lone~"    -> Shape(w \o "~~" \o v, Txt(w \o "~~" \o v), 2)
    [] kind = "lone`"    -> Shape(w \o "`" \o v, Txt(w \o "`" \o v), 2)
    [] kind = "strikelong" -> Shape("~~" \o w \o "~~~", Txt("~~" \o w \o "~~~"), 1)
    [] kind = "lone["    -> Shape(w \o "[" \o v, Txt(w \o "[" \o v), 2)
    [] kind = "lone]"    -> Shape(w \o "](" \o v, Txt(w \o "](" \o v), 2)
    [] kind = "lone!"    -> Shape(w \o "!" \o v, Txt(w \o "!" \o v), 2)
    [] kind = "lone!["   -> Shape(w \o "![" \o v, Txt(w \o "![" \o v), 2)

AllKinds == {"word", "words", "em*", "em_", "em2", "strong*", "strong_", "both*", "both_", "strike",
  "strike2", "code", "codemd", "codehtml", "code2", "link", "linkrel", "linkfrag", "linkamp", "linkpct",
  "linkt", "link2", "mailto", "img", "imgabs", "auto", "automail", "js", "jsimg", "datahtml", "tag", "amp",
  "esc", "esc[]", "esc`", "esc\\", "brack", "paren", "lt", "gt", "hash", "quotes", "uni", "lone*", "lone_",
  "lone**", "lone~", "lone`", "lone[", "lone]", "lone!", "lone![", "strikelong", "in1.", "in-", "in+", "in>", "in---", "in[]"}

(* Kinds that a cell cannot hold because they contain the cell separator. *)
NotInCell == {"hash"}
(* Kinds that mean something else at the start of a line. *)
LineStartSpecial == {"in1.", "in-", "in+", "in>", "in---", "in[]"}

(* What an unmatched marker must not meet again in the same paragraph. *)
Marks(kind) ==
  CASE kind \in {"em*", "em_", "em2", "strong*", "strong_", "both*", "both_"} -> {"*"}
    [] kind \in {"lone*", "lone_", "lone**"} -> {"*", "lone*"}
    [] kind \in {"strike", "strike2"} -> {"~"}
    [] kind \in {"lone~", "strikelong"} -> {"~", "lone~"}
    [] kind \in {"code", "code2"} -> {"`"}
    [] kind = "codemd" -> {"`", "*", "[", "]", "~", "("}
    [] kind \in {"codehtml", "dcode"} -> {"`", "<", ">"}
    [] kind = "lone`" -> {"`", "lone`"}
    [] kind \in {"link", "linkfrag", "linkamp", "linkpct", "linkt", "link2", "mailto",
                 "img", "imgabs", "js", "jsimg", "datahtml"} -> {"[", "]", "("}
    [] kind = "linkrel" -> {"[", "]", "(", "*"}
    [] kind = "brack" -> {"[", "]"}
    [] kind \in {"lone[", "lone!["} -> {"[", "lone["}
    [] kind = "lone]" -> {"]", "lone]"}
    [] kind \in {"auto", "automail", "tag", "dtag"} -> {"<", ">"}
    [] kind = "lt" -> {"<", "lone<"}
    [] kind \in {"gt", "in>"} -> {">"}
    [] kind = "in[]" -> {"[", "]"}
    [] kind \in {"esc"} -> {"*"}
    [] kind = "esc`" -> {"`"}
    [] kind = "esc[]" -> {"[", "]", "("}
    [] kind = "paren" -> {"(", "["}
    [] OTHER -> {}

(* Two inline constructs may share a paragraph in the specified domain if no *)
(* unmatched or escaped marker of one could pair with a marker of the other. *)
Compatible(a, b) ==
  LET m == Marks(a)  n == Marks(b) IN
  /\ ("lone*" \in m => "*" \notin n) /\ ("lone*" \in n => "*" \notin m)
  /\ ("lone~" \in m => "~" \notin n) /\ ("lone~" \in n => "~" \notin m)
  /\ ("lone`" \in m => "`" \notin n) /\ ("lone`" \in n => "`" \notin m)
  /\ ("lone[" \in m => n \cap {"[", "]"} = {}) /\ ("lone[" \in n => m \cap {"[", "]"} = {})
  /\ ("lone]" \in m => n \cap {"[", "]", "("} = {}) /\ ("lone]" \in n => m \cap {"[", "]", "("} = {})
  /\ ("lone<" \in m => n \cap {"<", ">"} = {}) /\ ("lone<" \in n => m \cap {"<", ">"} = {})
  /\ ((a \in {"esc"}) => ("*" \notin n \/ b = "esc"))
  /\ ((b \in {"esc"}) => ("*" \notin m \/ a = "esc"))
  /\ ((a \in {"esc`"}) => ("`" \notin n \/ b = "esc`"))
  /\ ((b \in {"esc`"}) => ("`" \notin m \/ a = "esc`"))
  /\ ((a \in {"esc[]"}) => (n \cap {"[", "]"} = {} \/ b = "esc[]"))
  /\ ((b \in {"esc[]"}) => (m \cap {"[", "]"} = {} \/ a = "esc[]"))
=============================================================================
