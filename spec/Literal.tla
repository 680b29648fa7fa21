------------------------------- MODULE Literal -------------------------------
(* Text without Markdown constructs: a line is a sequence of pieces (words,  *)
(* blanks, raw punctuation, escaped punctuation, backslashes before letters) *)
(* and its meaning is the text itself.  Plain says when raw punctuation does *)
(* form a construct; such lines are not in this specification.               *)
EXTENDS Inlines, FiniteSets

CONSTANTS RawChars, EscChars, Extra, Hosts, MaxPieces

VARIABLES host, ps, k
vars == <<host, ps, k>>

Piece(s, t, c, kind) == [s |-> s, t |-> t, c |-> c, kind |-> kind]

Init == host \in Hosts /\ ps = <<>> /\ k = 1

Last == ps[Len(ps)]

AddWord  == /\ (ps # <<>> => Last.kind # "word")
            /\ ps' = Append(ps, Piece(W(k), W(k), "", "word")) /\ k' = k + 1
AddBlank == /\ ps # <<>> /\ Last.kind # "blank"
            /\ ps' = Append(ps, Piece(" ", " ", "", "blank")) /\ UNCHANGED k
AddRaw   == \E c \in RawChars : ps' = Append(ps, Piece(c, c, c, "raw")) /\ UNCHANGED k
AddEsc   == \E c \in EscChars : ps' = Append(ps, Piece("\\" \o c, c, c, "esc")) /\ UNCHANGED k
AddExtra == \E t \in Extra : ps' = Append(ps, Piece(t, t, "", "extra")) /\ UNCHANGED k

At(p, i) == IF i >= 1 /\ i <= Len(p) /\ p[i].kind = "raw" THEN p[i].c ELSE ""
Ends(p, i) == i > Len(p) \/ p[i].kind = "blank"

(* The first piece after the run of characters S that starts at i. *)
RECURSIVE RunEnd(_, _, _)
RunEnd(p, S, i) == IF At(p, i) \in S THEN RunEnd(p, S, i + 1) ELSE i

(* The first piece of the run of c that ends at i. *)
RECURSIVE RunStart(_, _, _)
RunStart(p, c, i) == IF i > 1 /\ At(p, i - 1) = c THEN RunStart(p, c, i - 1) ELSE i

OneRun(p, S, max) ==
  LET idx == {i \in 1..Len(p) : At(p, i) \in S} IN
  idx = {} \/ \E a \in idx : RunEnd(p, S, a) - a <= max /\ idx = a..(RunEnd(p, S, a) - 1)

Plain(p, h) ==
  /\ OneRun(p, {"*", "_"}, 2)
  /\ OneRun(p, {"~"}, 2)
  /\ OneRun(p, {"`"}, 2)
  /\ (\E i \in 1..Len(p) : At(p, i) = "`") => ~\E i \in 1..Len(p) : p[i].kind = "esc" /\ p[i].c = "`"
  /\ \A i \in 1..Len(p) :
       /\ ~(At(p, i) = "]" /\ At(p, i + 1) = "(")
       /\ ~(At(p, i) = "[" /\ At(p, i + 1) = "^")
       /\ ~(At(p, i) = "\\" /\ i + 1 <= Len(p) /\ p[i + 1].kind \in {"raw", "esc", "extra"})
       /\ \A j \in (i + 1)..Len(p) :
            ~(At(p, i) = "<" /\ At(p, j) = ">" /\ \E m \in (i + 1)..(j - 1) : p[m].kind # "word")
  \* what starts a block
  /\ (p # <<>> /\ h = "para" =>
       /\ At(p, 1) \notin {">"}
       /\ ~(At(p, 1) = "#" /\ Ends(p, RunEnd(p, {"#"}, 1)))
       /\ ~(At(p, 1) \in {"-", "+", "*"} /\ Ends(p, 2))
       /\ RunEnd(p, {"-", "+"}, 1) <= 3)
  /\ (h \notin {"para", "heading", "headid", "cell"} => p = <<>> \/ p[1].kind = "word")
  \* a closing sequence of # stands alone, an id is {#...} at the end
  /\ (h \in {"heading", "headid"} /\ p # <<>> =>
       /\ At(p, Len(p)) = "#" => LET a == RunStart(p, "#", Len(p)) IN a > 1 /\ p[a - 1].kind # "blank"
       /\ h = "heading" /\ At(p, Len(p)) = "}" => ~\E i \in 1..Len(p) : At(p, i) = "{" /\ At(p, i + 1) = "#")
  /\ (h = "cell" => \A i \in 1..Len(p) : At(p, i) # "|")

Next == /\ Len(ps) < MaxPieces
        /\ (host \notin {"para", "heading", "headid", "cell"} /\ ps = <<>> => AddWord)
        /\ (AddWord \/ AddBlank \/ AddRaw \/ AddEsc \/ AddExtra)
        /\ UNCHANGED host
Spec == Init /\ [][Next]_vars

RECURSIVE Cat(_, _)
Cat(p, i) == IF i > Len(p) THEN "" ELSE p[i].s \o Cat(p, i + 1)
RECURSIVE CatT(_, _)
CatT(p, i) == IF i > Len(p) THEN "" ELSE p[i].t \o CatT(p, i + 1)

Run == Cat(ps, 1)
Shown == Txt(CatT(ps, 1))

Src == CASE host = "para"    -> Run \o "\n"
         [] host = "heading" -> "### " \o Run \o "\n"
         [] host = "headid" -> "## " \o Run \o " {#i-d}\n"
         [] host = "bullet"  -> "- " \o Run \o "\n"
         [] host = "ordered" -> "1. " \o Run \o "\n"
         [] host = "quote"   -> "> " \o Run \o "\n"
         [] host = "cell"    -> "| H |\n|---|\n| " \o Run \o " |\n"
Final == CASE host = "para"    -> In("p", Shown)
           [] host = "heading" -> In("h3", Shown)
           [] host = "headid" -> <<"+h2|id=i-d">> \o Shown \o <<"-h2">>
           [] host = "bullet"  -> In("ul", In("li", Shown))
           [] host = "ordered" -> In("ol", In("li", Shown))
           [] host = "quote"   -> In("blockquote", Shown)
           [] host = "cell"    -> In("table", In("thead", In("tr", <<"+th|align=left">> \o Txt("H") \o <<"-th">>))
                                     \o In("tbody", In("tr", <<"+td|align=left">> \o Shown \o <<"-td">>)))

(* Only non-empty lines that do not end in a blank are documents. *)
Complete == ps # <<>> /\ Last.kind # "blank" /\ Plain(ps, host)

---------------------------------------------------------------------------
(* One visible character per raw or escaped punctuation character. *)
RECURSIVE TextLen(_, _)
TextLen(p, i) == IF i > Len(p) THEN 0 ELSE Len(p[i].t) + TextLen(p, i + 1)
Faithful == Len(CatT(ps, 1)) = TextLen(ps, 1)
=============================================================================
