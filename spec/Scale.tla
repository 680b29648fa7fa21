-------------------------------- MODULE Scale --------------------------------
(* Documents of one construct repeated, or of one construct of a given size.  *)
(* The meaning of n of them is n times that of one: no number is too large.   *)
EXTENDS Events, SequencesExt

CONSTANTS Kinds, Sizes

VARIABLES kind, n
vars == <<kind, n>>

Init == kind \in Kinds /\ n = 0
Grow == \E m \in Sizes : m > n /\ n' = m /\ UNCHANGED kind
Next == n = 0 /\ Grow
Spec == Init /\ [][Next]_vars

I(i) == ToString(i)

(* Concatenations over lo..hi. *)
Ids(lo, hi) == [i \in 1..(IF hi < lo THEN 0 ELSE hi - lo + 1) |-> lo + i - 1]
CatS(f(_), lo, hi) == FoldLeft(LAMBDA acc, i : acc \o f(i), "", Ids(lo, hi))
CatE(f(_), lo, hi) == FoldLeft(LAMBDA acc, i : acc \o f(i), <<>>, Ids(lo, hi))
Times(s) == CatS(LAMBDA i : s, 1, n)
TimesE(e) == CatE(LAMBDA i : e, 1, n)
Words == CatS(LAMBDA i : (IF i > 1 THEN " " ELSE "") \o W(i), 1, n)

(* A source and its events. *)
D(s, e) == [s |-> s, e |-> e]
(* A paragraph of n things, separated by blanks. *)
Run(s(_), e(_)) ==
  D(CatS(LAMBDA i : (IF i > 1 THEN " " ELSE "") \o s(i), 1, n) \o "\n",
    In("p", CatE(LAMBDA i : (IF i > 1 THEN Txt(" ") ELSE <<>>) \o e(i), 1, n)))

Th(i, a, t) == <<"+th|align=" \o a>> \o Txt(t) \o <<"-th">>
Td(a, t) == <<"+td|align=" \o a>> \o Txt(t) \o <<"-td">>
Al(i) == CASE i % 3 = 0 -> "left" [] i % 3 = 1 -> "center" [] i % 3 = 2 -> "right"
Dl(i) == CASE i % 3 = 0 -> "---" [] i % 3 = 1 -> ":-:" [] i % 3 = 2 -> "--:"
Note(i) == <<"+li|id=fn:n" \o I(i)>> \o Txt(W(i)) \o <<"+a|href=#fnref:n" \o I(i), "=↩", "-a", "-li">>
Ref(i) == <<"+sup|id=fnref:n" \o I(i), "+a|href=#fn:n" \o I(i)>> \o Txt(I(i)) \o <<"-a", "-sup">>

Doc ==
  CASE kind = "lines"   -> D(CatS(LAMBDA i : W(i) \o "\n", 1, n), In("p", CatE(LAMBDA i : Txt(W(i)) \o <<"=\n">>, 1, n)))
    [] kind = "paras"   -> D(CatS(LAMBDA i : W(i) \o "\n\n", 1, n), CatE(LAMBDA i : In("p", Txt(W(i))), 1, n))
    [] kind = "words"   -> Run(LAMBDA i : W(i), LAMBDA i : Txt(W(i)))
    [] kind = "letters" -> D(Times("a") \o " b\n", In("p", Txt(Times("a") \o " b")))
    [] kind = "wide"    -> D(Times("木") \o " b\n", In("p", Txt(Times("木") \o " b")))
    [] kind = "blank"   -> D("a\n" \o Times("\n") \o "b\n", In("p", Txt("a")) \o In("p", Txt("b")))
    [] kind = "heads"   -> D(CatS(LAMBDA i : "## " \o W(i) \o "\n", 1, n), CatE(LAMBDA i : In("h2", Txt(W(i))), 1, n))
    [] kind = "head"    -> D("# " \o Words \o "\n", In("h1", Txt(Words)))
    [] kind = "headid"  -> D("# a {#" \o Times("i") \o "}\n", <<Attr("+h1", "id", Times("i"))>> \o Txt("a") \o <<"-h1">>)
    [] kind = "headend" -> D("# a " \o Times("#") \o "\n", In("h1", Txt("a")))
    [] kind = "hashes"  -> D(Times("#") \o " a\n", IF n <= 6 THEN In("h" \o I(n), Txt("a")) ELSE In("p", Txt(Times("#") \o " a")))
    [] kind = "rules"   -> D(Times("---\n\n"), TimesE(<<"+hr">>))
    [] kind = "rule"    -> D("***" \o Times("*") \o "\n", <<"+hr">>)
    [] kind = "bullets" -> D(CatS(LAMBDA i : "- " \o W(i) \o "\n", 1, n), In("ul", CatE(LAMBDA i : In("li", Txt(W(i))), 1, n)))
    [] kind = "ordered" -> D(CatS(LAMBDA i : I(i) \o ". " \o W(i) \o "\n", 1, n), In("ol", CatE(LAMBDA i : In("li", Txt(W(i))), 1, n)))
    [] kind = "number"  -> D(Times("7") \o ". a\n", In("ol", In("li", Txt("a"))))
    [] kind = "tasks"   -> D(CatS(LAMBDA i : "- [" \o (IF i % 2 = 0 THEN "x" ELSE " ") \o "] " \o W(i) \o "\n", 1, n),
                             In("ul", CatE(LAMBDA i : In("li", <<IF i % 2 = 0 THEN "+input|checked=" ELSE "+input">> \o Txt(W(i))), 1, n)))
    [] kind = "item"    -> D("- " \o Words \o "\n- z\n", In("ul", In("li", Txt(Words)) \o In("li", Txt("z"))))
    [] kind = "nest"    -> D(CatS(LAMBDA i : CatS(LAMBDA j : "  ", 2, i) \o "- " \o W(i) \o "\n", 1, n),
                             CatE(LAMBDA i : <<"+ul", "+li">> \o Txt(W(i)), 1, n) \o TimesE(<<"-li", "-ul">>))
    [] kind = "sublists" -> D(CatS(LAMBDA i : "- " \o W(i) \o "\n  - x\n", 1, n),
                              In("ul", CatE(LAMBDA i : In("li", Txt(W(i)) \o In("ul", In("li", Txt("x")))), 1, n)))
    [] kind = "lists"   -> D(CatS(LAMBDA i : "- " \o W(i) \o "\n\nx\n\n", 1, n),
                             CatE(LAMBDA i : In("ul", In("li", Txt(W(i)))) \o In("p", Txt("x")), 1, n))
    [] kind = "quotes"  -> D(CatS(LAMBDA i : "> " \o W(i) \o "\n", 1, n), In("blockquote", CatE(LAMBDA i : Txt(W(i)) \o <<"=\n">>, 1, n)))
    [] kind = "depth"   -> D(Times(">") \o " a\n\nb\n", TimesE(<<"+blockquote">>) \o Txt("a") \o TimesE(<<"-blockquote">>) \o In("p", Txt("b")))
    [] kind = "stairs"  -> D(CatS(LAMBDA i : CatS(LAMBDA j : ">", 1, i) \o " " \o W(i) \o "\n", 1, n),
                             CatE(LAMBDA i : <<"+blockquote">> \o Txt(W(i)), 1, n) \o TimesE(<<"-blockquote">>))
    [] kind = "quoted"  -> D(CatS(LAMBDA i : "> " \o W(i) \o "\n\n" \o "x\n\n", 1, n),
                             CatE(LAMBDA i : In("blockquote", Txt(W(i))) \o In("p", Txt("x")), 1, n))
    [] kind = "cols"    -> D("|" \o CatS(LAMBDA i : " " \o W(i) \o " |", 1, n) \o "\n|" \o CatS(LAMBDA i : Dl(i) \o "|", 1, n)
                             \o "\n|" \o CatS(LAMBDA i : " x" \o I(i) \o " |", 1, n) \o "\n",
                             In("table", In("thead", In("tr", CatE(LAMBDA i : Th(i, Al(i), W(i)), 1, n)))
                                      \o In("tbody", In("tr", CatE(LAMBDA i : Td(Al(i), "x" \o I(i)), 1, n)))))
    [] kind = "rows"    -> D("| a | b |\n|---|:-:|\n" \o CatS(LAMBDA i : "| " \o W(i) \o " | x |\n", 1, n),
                             In("table", In("thead", In("tr", Th(1, "left", "a") \o Th(2, "center", "b")))
                                      \o In("tbody", CatE(LAMBDA i : In("tr", Td("left", W(i)) \o Td("center", "x")), 1, n))))
    [] kind = "cell"    -> D("| " \o Words \o " | b |\n|---|---|\n| c | " \o Words \o " |\n",
                             In("table", In("thead", In("tr", Th(1, "left", Words) \o Th(2, "left", "b")))
                                      \o In("tbody", In("tr", Td("left", "c") \o Td("left", Words)))))
    [] kind = "dashes"  -> D("| a | b |\n|:-" \o Times("-") \o ":|" \o Times("-") \o ":|\n| c | d |\n",
                             In("table", In("thead", In("tr", Th(1, "center", "a") \o Th(2, "right", "b")))
                                      \o In("tbody", In("tr", Td("center", "c") \o Td("right", "d")))))
    [] kind = "tables"  -> D(CatS(LAMBDA i : "| " \o W(i) \o " |\n|---|\n| x |\n\n", 1, n),
                             CatE(LAMBDA i : In("table", In("thead", In("tr", Th(1, "left", W(i)))) \o In("tbody", In("tr", Td("left", "x")))), 1, n))
    [] kind = "fence"   -> D("```\n" \o CatS(LAMBDA i : W(i) \o "\n", 1, n) \o "```\n",
                             In("pre", In("code", Txt(CatS(LAMBDA i : W(i) \o "\n", 1, n)))))
    [] kind = "gaps"    -> D("```\na\n" \o Times("\n") \o "b\n```\n", In("pre", In("code", Txt("a\n" \o Times("\n") \o "b\n"))))
    [] kind = "indent"  -> D("```\n" \o Times(" ") \o "a\n```\n", In("pre", In("code", Txt(Times(" ") \o "a\n"))))
    [] kind = "ticks"   -> D("```" \o Times("`") \o "\n```\n``" \o Times("`") \o "\n```" \o Times("`") \o "\na\n",
                             In("pre", In("code", Txt("```\n``" \o Times("`") \o "\n"))) \o In("p", Txt("a")))
    [] kind = "fences"  -> D(CatS(LAMBDA i : "```rs\n" \o W(i) \o "\n```\nx\n", 1, n),
                             CatE(LAMBDA i : In("pre", <<"+code|lang=rs">> \o Txt(W(i) \o "\n") \o <<"-code">>) \o In("p", Txt("x")), 1, n))
    [] kind = "lang"    -> D("```" \o Times("l") \o "\na\n```\n", In("pre", <<Attr("+code", "lang", Times("l"))>> \o Txt("a\n") \o <<"-code">>))
    [] kind = "icode"   -> D(CatS(LAMBDA i : "    " \o W(i) \o "\n", 1, n), In("pre", In("code", Txt(CatS(LAMBDA i : W(i) \o "\n", 1, n)))))
    [] kind = "icodes"  -> D(CatS(LAMBDA i : "    " \o W(i) \o "\n\n", 1, n) \o "a\n",
                             In("pre", In("code", Txt(CatS(LAMBDA i : (IF i > 1 THEN "\n" ELSE "") \o W(i) \o "\n", 1, n)))) \o In("p", Txt("a")))
    [] kind = "codes"   -> Run(LAMBDA i : "`" \o W(i) \o "`", LAMBDA i : In("code", Txt(W(i))))
    [] kind = "code"    -> D("`" \o Words \o "`\n", In("p", In("code", Txt(Words))))
    [] kind = "span"    -> D("x `" \o Times("`") \o " a " \o Times("`") \o "`\n", In("p", Txt("x ") \o In("code", Txt("a"))))
    [] kind = "links"   -> Run(LAMBDA i : "[" \o W(i) \o "](/p" \o I(i) \o ")", LAMBDA i : <<"+a|href=/p" \o I(i)>> \o Txt(W(i)) \o <<"-a">>)
    [] kind = "link"    -> D("[" \o Words \o "](/p)\n", In("p", <<"+a|href=/p">> \o Txt(Words) \o <<"-a">>))
    [] kind = "target"  -> D("[a](/" \o Times("p") \o ") ![a](/" \o Times("q") \o ")\n",
                             In("p", <<"+a|href=/" \o Times("p")>> \o Txt("a") \o <<"-a", "= ", "+img|src=/" \o Times("q") \o "|alt=a">>))
    [] kind = "query"   -> D("[a](/p?x=1" \o CatS(LAMBDA i : "&k" \o I(i) \o "=v", 1, n) \o ")\n",
                             In("p", <<"+a|href=/p?x=1" \o CatS(LAMBDA i : "&k" \o I(i) \o "=v", 1, n)>> \o Txt("a") \o <<"-a">>))
    [] kind = "title"   -> D("[a](/p \"" \o Words \o "\")\n", In("p", <<"+a|href=/p|title=" \o Words>> \o Txt("a") \o <<"-a">>))
    [] kind = "images"  -> Run(LAMBDA i : "![" \o W(i) \o "](/p" \o I(i) \o ")", LAMBDA i : <<"+img|src=/p" \o I(i) \o "|alt=" \o W(i)>>)
    [] kind = "autos"   -> Run(LAMBDA i : "<http://h.example/" \o I(i) \o ">",
                               LAMBDA i : <<"+a|href=http://h.example/" \o I(i), "=http://h.example/" \o I(i), "-a">>)
    [] kind = "scheme"  -> D("a <" \o Times("s") \o ":x>\n",
                             In("p", Txt("a ") \o (IF n \in 2..32 THEN <<"+a|href=" \o Times("s") \o ":x", "=" \o Times("s") \o ":x", "-a">>
                                                   ELSE Txt("<" \o Times("s") \o ":x>"))))
    [] kind = "relative" -> D("[a](/" \o Times("p") \o ":1@2)\n", In("p", <<"+a|href=/" \o Times("p") \o ":1@2">> \o Txt("a") \o <<"-a">>))
    [] kind = "ems"     -> Run(LAMBDA i : "*" \o W(i) \o "*", LAMBDA i : In("em", Txt(W(i))))
    [] kind = "strongs" -> Run(LAMBDA i : "__" \o W(i) \o "__ x", LAMBDA i : In("strong", Txt(W(i))) \o Txt(" x"))
    [] kind = "boths"   -> Run(LAMBDA i : "***" \o W(i) \o "***", LAMBDA i : In("strong", In("em", Txt(W(i)))))
    [] kind = "strikes" -> Run(LAMBDA i : "~~" \o W(i) \o "~~", LAMBDA i : In("strike", Txt(W(i))))
    [] kind = "em"      -> D("*" \o Words \o "* _" \o Words \o "_\n", In("p", In("em", Txt(Words)) \o Txt(" ") \o In("em", Txt(Words))))
    [] kind = "strong"  -> D("**" \o Words \o "** ~~" \o Words \o "~~\n", In("p", In("strong", Txt(Words)) \o Txt(" ") \o In("strike", Txt(Words))))
    [] kind = "lone"    -> D("*a\n\n" \o CatS(LAMBDA i : W(i) \o "\n\n", 1, n) \o "b*\n",
                             In("p", Txt("*a")) \o CatE(LAMBDA i : In("p", Txt(W(i))), 1, n) \o In("p", Txt("b*")))
    [] kind = "baretag" -> D("<details>\n" \o Times("a") \o "\n", In("p", Txt("<details>\n" \o Times("a"))))
    [] kind = "notes"   -> D(CatS(LAMBDA i : "x[^n" \o I(i) \o "]\n\n", 1, n) \o CatS(LAMBDA i : "[^n" \o I(i) \o "]: " \o W(i) \o "\n", 1, n),
                             CatE(LAMBDA i : In("p", Txt("x") \o Ref(i)), 1, n) \o In("div", In("ol", CatE(Note, 1, n))))
    [] kind = "refs"    -> D("x" \o CatS(LAMBDA i : "[^n" \o I(i) \o "]", 1, n) \o "\n\n" \o CatS(LAMBDA i : "[^n" \o I(i) \o "]: " \o W(i) \o "\n", 1, n),
                             In("p", Txt("x") \o CatE(Ref, 1, n)) \o In("div", In("ol", CatE(Note, 1, n))))
    [] kind = "note"    -> D("x[^n1]\n\n[^n1]: " \o Words \o "\n",
                             In("p", Txt("x") \o Ref(1)) \o In("div", In("ol", <<"+li|id=fn:n1">> \o Txt(Words) \o <<"+a|href=#fnref:n1", "=↩", "-a", "-li">>)))
    [] kind = "label"   -> LET l == Times("l") IN
                           D("x[^" \o l \o "]\n\n[^" \o l \o "]: w\n",
                             In("p", Txt("x") \o <<"+sup|id=fnref:" \o l, "+a|href=#fn:" \o l, "=1", "-a", "-sup">>)
                             \o In("div", In("ol", <<"+li|id=fn:" \o l>> \o Txt("w") \o <<"+a|href=#fnref:" \o l, "=↩", "-a", "-li">>)))
    [] kind = "specials" -> D("a" \o Times("&<>\"'") \o "\n", In("p", Txt("a" \o Times("&<>\"'"))))
    [] kind = "slashes" -> D("a" \o Times("\\\\") \o "b\n", In("p", Txt("a" \o Times("\\") \o "b")))
    [] kind = "escapes" -> D("a" \o Times("\\*\\_") \o "\n", In("p", Txt("a" \o Times("*_"))))
    [] kind = "sections" -> D(CatS(LAMBDA i : "<details>\n<summary>" \o W(i) \o "</summary>\n\nx\n\n</details>\n\n", 1, n),
                              CatE(LAMBDA i : In("details", In("summary", Txt(W(i))) \o In("p", Txt("x"))), 1, n))
    [] kind = "inside"  -> D(CatS(LAMBDA i : "<details>\n<summary>" \o W(i) \o "</summary>\n", 1, n) \o "x\n" \o Times("</details>\n") \o "y\n",
                             CatE(LAMBDA i : <<"+details">> \o In("summary", Txt(W(i))), 1, n) \o In("p", Txt("x")) \o TimesE(<<"-details">>) \o In("p", Txt("y")))
    [] kind = "body"    -> D("<details>\n<summary>s</summary>\n\n" \o CatS(LAMBDA i : W(i) \o "\n\n", 1, n) \o "</details>\ny\n",
                             In("details", In("summary", Txt("s")) \o CatE(LAMBDA i : In("p", Txt(W(i))), 1, n)) \o In("p", Txt("y")))
    [] kind = "summary" -> D("<details>\n<summary>" \o Words \o "</summary>\nx\n</details>\n",
                             In("details", In("summary", Txt(Words)) \o In("p", Txt("x"))))

Complete == n > 0
Src == Doc.s
Final == Doc.e

(* The larger ones only differ in number. *)
WellNested == Complete /\ n < 100 => Balanced(Final)
=============================================================================
