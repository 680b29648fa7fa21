------------------------------ MODULE LinkText ------------------------------
(* The text, title or alternative text of a link or image, character by      *)
(* character: shown as written, escaped characters without their backslash.  *)
EXTENDS Events

CONSTANTS Chars, MaxChars

VARIABLES place, ps
vars == <<place, ps>>

Places == {"text", "title", "alt", "titletext", "single", "alt0", "text0"}
Init == place \in Places /\ ps = <<>>
Next == Len(ps) < MaxChars /\ (\E c \in Chars : ps' = Append(ps, c)) /\ UNCHANGED place
Spec == Init /\ [][Next]_vars

RECURSIVE Cat(_, _)
Cat(s, i) == IF i > Len(s) THEN "" ELSE s[i] \o Cat(s, i + 1)
T == Cat(ps, 1)

(* A backslash before punctuation shows the punctuation. *)
Shown(c) == IF Len(c) = 2 /\ SubSeq(c, 1, 1) = "\\" /\ c # "\\q" THEN SubSeq(c, 2, 2) ELSE c
RECURSIVE CatShown(_, _)
CatShown(s, i) == IF i > Len(s) THEN "" ELSE Shown(s[i]) \o CatShown(s, i + 1)
V == CatShown(ps, 1)

Blank(c) == c = " "
Complete == /\ ps # <<>> /\ ~Blank(ps[1]) /\ ~Blank(ps[Len(ps)])
            /\ \A i \in 1..(Len(ps) - 1) : ~(Blank(ps[i]) /\ Blank(ps[i + 1]))
            /\ (place \in {"title", "titletext"} => \A i \in 1..Len(ps) : ps[i] # "\"")
            /\ (place = "single" => \A i \in 1..Len(ps) : ps[i] # "'")
            /\ (place \in {"text", "titletext", "text0"} => ps[1] # "^")
Src == CASE place = "text"  -> "x [" \o T \o "](/u) y\n"
         [] place = "title" -> "x [w](/u \"" \o T \o "\") y\n"
         [] place = "single" -> "x [w](/u '" \o T \o "') y\n"
         [] place = "alt"   -> "x ![" \o T \o "](/u) y\n"
         [] place = "alt0"  -> "x ![" \o T \o "]() y\n"
         [] place = "text0" -> "x [" \o T \o "]() y\n"
         [] place = "titletext" -> "x [" \o T \o "](/u \"" \o T \o "\") y\n"
Final == In("p", Txt("x ")
           \o (CASE place = "text"  -> <<"+a|href=/u">> \o Txt(V) \o <<"-a">>
                 [] place \in {"title", "single"} -> <<"+a|href=/u|title=" \o V>> \o Txt("w") \o <<"-a">>
                 [] place = "alt"   -> <<"+img|src=/u|alt=" \o V>>
                 \* no target at all
                 [] place = "alt0"  -> <<"+img|src=data:,|alt=" \o V>>
                 [] place = "text0" -> <<"+a|href=">> \o Txt(V) \o <<"-a">>
                 [] place = "titletext" -> <<"+a|href=/u|title=" \o V>> \o Txt(V) \o <<"-a">>)
           \o Txt(" y"))
Faithful == Balanced(Final)
=============================================================================
