------------------------------- MODULE Tables -------------------------------
(* A table is written cell by cell: header cells with the alignment of their *)
(* column, the delimiter row, then body cells row by row.  `dev` names a     *)
(* deviation that makes the lines no table at all; they must stay text.      *)
EXTENDS Inlines

CONSTANTS Contents,   \* inline kinds of body cells, and "empty"
          HeadContents, \* inline kinds of header cells
          Aligns,     \* subset of {"none", "left", "center", "right"}
          Styles,     \* spacing of the source
          Places,     \* what surrounds the table
          Devs,       \* deviations
          Dashes,     \* numbers of dashes of a delimiter cell
          MaxCols, MaxRows

VARIABLES style, place, dev, dash, al, phase, head, body, cur, rows, k

vars == <<style, place, dev, dash, al, phase, head, body, cur, rows, k>>

(* head and cur are sequences of cells [s, e]; body is a sequence of rows. *)
Init == /\ style \in Styles /\ place \in Places /\ dev \in Devs /\ dash \in Dashes
        /\ al = <<>> /\ phase = "head" /\ head = <<>> /\ body = <<>> /\ cur = <<>> /\ rows = 0 /\ k = 1

(* An escaped pipe does not end its cell. *)
CellOf(c) == CASE c = "empty"   -> Shape("", <<>>, 0)
               [] c = "midpipe" -> Shape(W(k) \o "\\|" \o W(k + 1), Txt(W(k) \o "|" \o W(k + 1)), 2)
               [] c = "endpipe" -> Shape(W(k) \o "\\|", Txt(W(k) \o "|"), 1)
               [] c = "endslash" -> Shape(W(k) \o "\\\\", Txt(W(k) \o "\\"), 1)
               [] OTHER -> Inline(c, k)

Allowed(c) == /\ (dev # "none" => c \in {"word", "empty"})
              /\ (style = "open" => c # "empty")

HeadCell == /\ phase = "head" /\ Len(head) < MaxCols
            /\ \E a \in Aligns, c \in HeadContents :
                 /\ Allowed(c)
                 /\ LET x == CellOf(c) IN
                    head' = Append(head, x) /\ al' = Append(al, a) /\ k' = k + x.n
            /\ UNCHANGED <<style, place, dev, dash, phase, body, cur, rows>>

Delimit == /\ phase = "head" /\ head # <<>>
           /\ phase' = "body"
           /\ UNCHANGED <<style, place, dev, dash, al, head, body, cur, rows, k>>

BodyCell == /\ phase = "body" /\ rows < MaxRows
            /\ \E c \in Contents :
                 /\ Allowed(c)
                 /\ LET x == CellOf(c)
                        full == Len(cur) + 1 = Len(head) IN
                    /\ cur' = IF full THEN <<>> ELSE Append(cur, x)
                    /\ body' = IF full THEN Append(body, Append(cur, x)) ELSE body
                    /\ rows' = IF full THEN rows + 1 ELSE rows
                    /\ k' = k + x.n
            /\ UNCHANGED <<style, place, dev, dash, al, phase, head>>

Next == HeadCell \/ Delimit \/ BodyCell
Spec == Init /\ [][Next]_vars

Complete == phase = "body" /\ cur = <<>> /\ rows >= 1

---------------------------------------------------------------------------
Pad(s) == CASE style = "spaced" -> " " \o s \o " "
            [] style = "tight"  -> s
            [] style = "wide"   -> "   " \o s \o "\t "
            [] style = "open"   -> " " \o s \o " "

RECURSIVE RowSrc(_, _)
RowSrc(cells, i) == IF i > Len(cells) THEN ""
                    ELSE "|" \o Pad(cells[i].s) \o RowSrc(cells, i + 1)
(* Style "open" leaves the last separator away. *)
Line(cells) == RowSrc(cells, 1) \o (IF style = "open" /\ Len(cells) > 1 THEN "" ELSE "|")

Delim(a) == LET d == Rep("-", dash) IN
            CASE a = "none" -> d [] a = "left" -> ":" \o d [] a = "center" -> ":" \o d \o ":" [] a = "right" -> d \o ":"
DelimCells == [i \in 1..Len(al) |-> Shape(Delim(al[i]), <<>>, 0)]

(* The lines, with the deviation applied. *)
Extra == Shape("xx", <<>>, 0)
Front(s) == SubSeq(s, 1, Len(s) - 1)
HeadLine  == IF dev = "widehead" THEN Line(Append(head, Extra)) ELSE Line(head)
DelimLine == CASE dev = "nodelim" -> ""
               [] dev = "baddelim" -> Line(Append(Front(DelimCells), Shape("-x-", <<>>, 0)))
               [] dev = "widedelim" -> Line(Append(DelimCells, Shape("---", <<>>, 0)))
               [] OTHER -> Line(DelimCells)
BodyLines == [i \in 1..rows |->
                IF i = rows /\ dev = "widerow" THEN Line(Append(body[i], Extra))
                ELSE IF i = 1 /\ dev = "shortrow" /\ Len(body[i]) > 1 THEN Line(Front(body[i]))
                ELSE Line(body[i])]
Lines == <<HeadLine>> \o (IF DelimLine = "" THEN <<>> ELSE <<DelimLine>>)
         \o (IF dev = "nobody" THEN <<>> ELSE BodyLines)

RECURSIVE Joined(_, _)
Joined(ls, i) == IF i > Len(ls) THEN "" ELSE ls[i] \o "\n" \o Joined(ls, i + 1)

Before == CASE place = "afterpara" -> "before\n\n" [] place = "direct" -> "before\n"
            [] place = "between" -> "# before\n" [] OTHER -> ""
After  == CASE place \in {"afterpara", "between"} -> "\nafter\n" [] place = "beforehead" -> "# after\n" [] OTHER -> ""
Src == Before \o Joined(Lines, 1) \o After

Align(a) == IF a = "none" THEN "left" ELSE a
RECURSIVE Cells(_, _, _)
Cells(tag, cells, i) ==
  IF i > Len(cells) THEN <<>>
  ELSE <<"+" \o tag \o "|align=" \o Align(al[i])>> \o cells[i].e \o <<"-" \o tag>> \o Cells(tag, cells, i + 1)
RECURSIVE Rows(_)
Rows(i) == IF i > rows THEN <<>> ELSE In("tr", Cells("td", body[i], 1)) \o Rows(i + 1)

TableEv == In("table", In("thead", In("tr", Cells("th", head, 1))) \o In("tbody", Rows(1)))

BeforeEv == CASE place \in {"afterpara", "direct"} -> In("p", Txt("before"))
              [] place = "between" -> In("h1", Txt("before")) [] OTHER -> <<>>
AfterEv  == CASE place \in {"afterpara", "between"} -> In("p", Txt("after"))
              [] place = "beforehead" -> In("h1", Txt("after")) [] OTHER -> <<>>

Final == IF dev = "none" THEN BeforeEv \o TableEv \o AfterEv
         ELSE IF place = "direct" THEN In("p", Txt("before\n" \o Joined(Lines, 1))) \o AfterEv
         ELSE BeforeEv \o In("p", Txt(Joined(Lines, 1))) \o AfterEv

---------------------------------------------------------------------------
WellNested == Complete => Balanced(Final)
(* Exactly (rows + 1) x columns cells. *)
RECURSIVE CountCells(_, _)
CountCells(evs, i) == IF i > Len(evs) THEN 0
  ELSE (IF IsOpen(evs[i]) /\ Name(evs[i]) \in {"td", "th"} THEN 1 ELSE 0) + CountCells(evs, i + 1)
Rectangle == Complete /\ dev = "none" => CountCells(Final, 1) = Len(head) * (rows + 1)
(* Every cell's words in reading order. *)
Conserved == Complete /\ (Contents \cup HeadContents) \cap {"img", "imgabs"} = {}
             => dev \in {"shortrow", "nobody"} \/ InOrderOnce(AllText(Final, 1), 1, k - 1, 1)
=============================================================================
