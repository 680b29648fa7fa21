------------------------------ MODULE Locality ------------------------------
(* Documents made of parts that blank lines separate.  A part is a sequence  *)
(* of tokens, most of them unfinished constructs.  The rendering of a        *)
(* document is the sequence of the renderings of its parts; guards leave out *)
(* what is meant to relate separated blocks (continued lists, indented code, *)
(* footnotes, fences and sections that are still open).                      *)
EXTENDS Events

CONSTANTS Starts, Tokens, Wholes, Codes, Seps, MaxTokens, MaxParts

VARIABLES parts, cur, n, lists, lines,
          sep    \* what separates the parts: one or more blank lines
vars == <<parts, cur, n, lists, lines, sep>>

Init == parts = <<>> /\ cur = "" /\ n = 0 /\ lists = FALSE /\ lines = 1 /\ sep \in Seps

ListStart(s) == s \in {"- ", "* ", "+ ", "1. ", "- [x] "}

(* A part starts with a block marker or a word, never with a blank. *)
StartPart == /\ cur = "" /\ Len(parts) < MaxParts
             /\ \E s \in Starts :
                  /\ ~(lists /\ (ListStart(s) \/ s \in {"*", "**", "_"}))
                  /\ cur' = s /\ n' = 1 /\ lists' = (lists \/ ListStart(s))
             /\ lines' = 1 /\ UNCHANGED <<parts, sep>>

(* Open fences, blank lines, continuation lines, hard line breaks. *)
Bad(s) == Find(s, "```", 1) > 0 \/ Find(s, "\\\n", 1) > 0 \/ Find(s, "\n\n", 1) > 0 \/ Find(s, "\n ", 1) > 0

AddToken == /\ cur # "" /\ n < MaxTokens
            /\ \E t \in Tokens :
                 /\ ~Bad(cur \o t)
                 /\ cur' = cur \o t /\ n' = n + 1
                 /\ lists' = (lists \/ Find(cur \o t, "* ", 1) > 0)
            /\ UNCHANGED <<parts, lines, sep>>

(* A line inside a part may start another block. *)
AddLine == /\ cur # "" /\ n + 1 < MaxTokens /\ lines < 2 /\ SubSeq(cur, Len(cur), Len(cur)) # "\n"
           /\ \E s \in Starts :
                /\ ~Bad(cur \o "\n" \o s)
                /\ cur' = cur \o "\n" \o s /\ n' = n + 1 /\ lists' = (lists \/ ListStart(s))
           /\ lines' = lines + 1 /\ UNCHANGED <<parts, sep>>

(* The blank line. *)
EndPart == /\ cur # "" /\ SubSeq(cur, Len(cur), Len(cur)) \notin {"\n", " "}
           /\ parts' = Append(parts, cur) /\ cur' = "" /\ n' = 0 /\ UNCHANGED <<lists, lines, sep>>

(* A block that is complete in itself. *)
WholePart == /\ cur = "" /\ Len(parts) < MaxParts
             /\ \E w \in Wholes : parts' = Append(parts, w)
             /\ UNCHANGED <<cur, n, lists, lines, sep>>

(* Indented code, unless it would belong to a list or to code before it. *)
IsCode(p) == SubSeq(p, 1, 1) \in {" ", "\t"}
CodePart == /\ cur = "" /\ Len(parts) < MaxParts /\ ~lists
            /\ (IF parts = <<>> THEN TRUE ELSE ~IsCode(parts[Len(parts)]))
            /\ \E c \in Codes : parts' = Append(parts, c)
            /\ UNCHANGED <<cur, n, lists, lines, sep>>

Next == StartPart \/ WholePart \/ CodePart \/ AddToken \/ AddLine \/ EndPart
Spec == Init /\ [][Next]_vars

RECURSIVE JoinFrom(_, _)
JoinFrom(ps, i) == IF i > Len(ps) THEN "" ELSE (IF i > 1 THEN sep ELSE "") \o ps[i] \o JoinFrom(ps, i + 1)
Document == JoinFrom(parts, 1)

(* The separators are the only blank lines. *)
Separated == \A i \in 1..Len(parts) : parts[i] \in Wholes \cup Codes \/ ~Bad(parts[i])
=============================================================================
