------------------------------ MODULE Targets ------------------------------
(* A link or image target is written piece by piece inside a container       *)
(* construct and a host block.  The machine knows what the target is (how a  *)
(* browser would classify it) and so what the reader must get: an element    *)
(* with exactly this target, or, if it is refused, the source as text.       *)
EXTENDS Events

CONSTANTS Mode,        \* "benign": must be kept; "scheme": classification
          Containers, Hosts, Pieces, MaxPieces

VARIABLES cont, host, ps
vars == <<cont, host, ps>>

Init == cont \in Containers /\ host \in Hosts /\ ps = <<>>
Next == /\ Len(ps) < MaxPieces
        /\ \E p \in Pieces : ps' = Append(ps, p)
        /\ UNCHANGED <<cont, host>>
Spec == Init /\ [][Next]_vars

RECURSIVE Cat(_, _)
Cat(s, i) == IF i > Len(s) THEN "" ELSE s[i] \o Cat(s, i + 1)
Target == Cat(ps, 1)

---------------------------------------------------------------------------
(* How a browser reads the scheme. *)
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower == "abcdefghijklmnopqrstuvwxyz"
LowerMap == [c \in {SubSeq(Upper, i, i) : i \in 1..26} |->
               LET p == CHOOSE i \in 1..26 : SubSeq(Upper, i, i) = c IN SubSeq(Lower, p, p)]
LowerOf(c) == IF c \in DOMAIN LowerMap THEN LowerMap[c] ELSE c
(* Only the scheme matters: the first few characters. *)
RECURSIVE LowerTo(_, _, _)
LowerTo(s, i, n) == IF i > n THEN "" ELSE LowerOf(SubSeq(s, i, i)) \o LowerTo(s, i + 1, n)
ToLower(s) == LowerTo(s, 1, IF Len(s) < 11 THEN Len(s) ELSE 11)
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

Class == LET t == ToLower(Target) IN
         CASE Starts(t, "javascript:") -> "script"
           [] Starts(t, "data:") /\ ~Starts(t, "data:image/") -> "script"
           [] OTHER -> "fine"

(* A refused target leaves its construct as text; white space is the same    *)
(* as no target, which this machine does not say anything about.             *)
RECURSIVE HasBlank(_)
HasBlank(s) == s # "" /\ (SubSeq(s, 1, 1) \in {" ", "\n", "\t"} \/ HasBlank(SubSeq(s, 2, Len(s))))

RECURSIVE Count(_, _, _)
Count(s, c, i) == IF i > Len(s) THEN 0 ELSE (IF SubSeq(s, i, i) = c THEN 1 ELSE 0) + Count(s, c, i + 1)

---------------------------------------------------------------------------
Construct ==
  CASE cont = "link"  -> "[text](" \o Target \o ")"
    [] cont = "linkt" -> "[text](" \o Target \o " \"ti\")"
    [] cont = "links" -> "[text](" \o Target \o " 'ti')"
    [] cont = "linkw" -> "[text](  " \o Target \o "  \"ti\" )"
    [] cont = "linkb" -> "[text]( " \o Target \o " )"
    [] cont = "imageb" -> "![text]( " \o Target \o "  )"
    [] cont = "image" -> "![text](" \o Target \o ")"
    [] cont = "imaget" -> "![text](" \o Target \o " \"ti\")"
    [] cont = "auto"  -> "<" \o Target \o ">"

Element ==
  CASE cont \in {"link", "linkb"} -> <<"+a|href=" \o Target, "=text", "-a">>
    [] cont \in {"linkt", "links", "linkw"} -> <<"+a|href=" \o Target \o "|title=ti", "=text", "-a">>
    [] cont \in {"image", "imaget", "imageb"} -> <<"+img|src=" \o Target \o "|alt=text">>
    [] cont = "auto"  -> <<"+a|href=" \o Target, "=" \o Target, "-a">>

Wrapped(e) ==
  CASE host = "para"    -> In("p", Txt("a ") \o e \o Txt(" z"))
    [] host = "bullet"  -> In("ul", In("li", Txt("a ") \o e \o Txt(" z")))
    [] host = "quote"   -> In("blockquote", Txt("a ") \o e \o Txt(" z"))
    [] host = "heading" -> In("h1", Txt("a ") \o e \o Txt(" z"))
    [] host = "ordered" -> In("ol", In("li", Txt("a ") \o e \o Txt(" z")))
    [] host = "cell"    -> In("table", In("thead", In("tr", <<"+th|align=left", "=H", "-th">>))
                              \o In("tbody", In("tr", <<"+td|align=left">> \o Txt("a ") \o e \o Txt(" z") \o <<"-td">>)))
Src ==
  LET s == "a " \o Construct \o " z" IN
  CASE host = "para"    -> s \o "\n"
    [] host = "bullet"  -> "- " \o s \o "\n"
    [] host = "quote"   -> "> " \o s \o "\n"
    [] host = "heading" -> "# " \o s \o "\n"
    [] host = "ordered" -> "1. " \o s \o "\n"
    [] host = "cell"    -> "| H |\n|---|\n| " \o s \o " |\n"

Final == Wrapped(IF Class = "script" THEN Txt(Construct) ELSE Element)

(* Benign targets: a scheme (none for relative ones) and then any characters *)
(* of a URL; an autolink needs its scheme.                                   *)
Schemes == {"http://h.example/", "https://h.example/", "ftp://h.example/", "mailto:a@b.example?s=",
            "HTTPS://H.example/", "irc://h.example/", "ircs://h.example/", "git+ssh://h.example/", "x-y.z9:", "tel:", "file:///"}
(* What precedes the first colon is a scheme if it has only such characters. *)
SchemeChars == {SubSeq(Upper, i, i) : i \in 1..26} \cup {SubSeq(Lower, i, i) : i \in 1..26}
               \cup {ToString(i) : i \in 0..9} \cup {"+", ".", "-"}
RECURSIVE SchemeLike(_, _)
SchemeLike(s, i) == i <= Len(s) /\ (IF SubSeq(s, i, i) = ":" THEN i > 1
                                   ELSE SubSeq(s, i, i) \in SchemeChars /\ SchemeLike(s, i + 1))
Benign == /\ ps # <<>>
          /\ \A i \in 2..Len(ps) : ps[i] \notin Schemes
          \* an explicit mail autolink shows the bare address (see Inlines)
          /\ (cont = "auto" => ps[1] \in Schemes /\ ps[1] # "mailto:a@b.example?s=")
          \* a scheme-like word is a scheme
          /\ (ps[1] \notin Schemes => ~SchemeLike(Target, 1))
          \* parentheses belong together or are never closed
          /\ Count(Target, ")", 1) \in {0, Count(Target, "(", 1)}
          /\ (host = "cell" => Count(Target, "|", 1) = 0)

(* In scheme mode a complete spelling without blanks has a definite meaning  *)
(* if it is refused; otherwise only its class is judged.                     *)
Definite == IF Mode = "benign" THEN Benign ELSE Class = "script" /\ ~HasBlank(Target)

WellNested == Balanced(Final)
(* A script target never becomes an element. *)
NeverScript == Class = "script" => LET f == Final IN \A i \in 1..Len(f) : ~Starts(f[i], "+a") /\ ~Starts(f[i], "+img")
=============================================================================
