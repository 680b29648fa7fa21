------------------------------ MODULE FileStore ------------------------------
(* smd_core's file functions over a few paths: what is written is what is    *)
(* read, whatever was there before and by whichever function.                *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Paths,      \* ordinary paths
          Bad,        \* paths that cannot be written or read: a directory, no parent, no rights
          Contents,   \* contents (numbers)
          Texts,      \* those that are UTF-8
          Lists,      \* those that are a stored list of words
          MaxOps

Absent == 0
VARIABLES files, ops
vars == <<files, ops>>

Init == files = [p \in Paths |-> Absent] /\ ops = <<>>

Room == Len(ops) < MaxOps
Did(op, p, c, ok, val) == ops' = Append(ops, [op |-> op, path |-> p, content |-> c, ok |-> ok, value |-> val, files |-> files'])

Write(op, cs) ==
  \E c \in cs :
    \/ \E p \in Paths : files' = [files EXCEPT ![p] = c] /\ Did(op, p, c, TRUE, 0)
    \/ \E p \in Bad : UNCHANGED files /\ Did(op, p, c, FALSE, 0)

Text == Room /\ Write("text", Texts)
Bytes == Room /\ Write("bytes", Contents)
Store == Room /\ Write("store", Lists)       \* encode_to_string, then write_to_file

Read ==
  /\ Room /\ UNCHANGED files
  /\ \/ \E p \in Paths : IF files[p] \in Texts THEN Did("read", p, 0, TRUE, files[p]) ELSE Did("read", p, 0, FALSE, 0)
     \/ \E p \in Bad : Did("read", p, 0, FALSE, 0)

Decode ==
  /\ Room /\ UNCHANGED files
  /\ \/ \E p \in Paths : IF files[p] \in Lists THEN Did("decode", p, 0, TRUE, files[p]) ELSE Did("decode", p, 0, FALSE, 0)
     \/ \E p \in Bad : Did("decode", p, 0, FALSE, 0)

Encode == Room /\ UNCHANGED files /\ \E c \in Lists : Did("encode", "", c, TRUE, c)

(* A value that cannot be stored is refused before anything is written. *)
Refuse == Room /\ UNCHANGED files /\ \E p \in Paths : Did("refuse", p, 0, FALSE, 0)

(* Somebody else removes a file. *)
Remove == Room /\ \E p \in Paths : files[p] # Absent /\ files' = [files EXCEPT ![p] = Absent] /\ Did("remove", p, 0, TRUE, 0)

Next == Text \/ Bytes \/ Store \/ Read \/ Decode \/ Encode \/ Refuse \/ Remove
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Writes == {"text", "bytes", "store"}
Before(i) == IF i = 1 THEN [p \in Paths |-> Absent] ELSE ops[i-1].files

(* A read returns what was written last to its path. *)
LastWritten(i) ==
  LET js == {j \in 1..(i-1) : ops[j].path = ops[i].path /\ ops[j].ok /\ ops[j].op \in Writes \cup {"remove"}}
  IN IF js = {} THEN Absent ELSE LET j == CHOOSE j \in js : \A k \in js : k <= j IN IF ops[j].op = "remove" THEN Absent ELSE ops[j].content
ReadBack == \A i \in DOMAIN ops : ops[i].op \in {"read", "decode"} /\ ops[i].ok => ops[i].value = LastWritten(i) /\ ops[i].value # Absent
Complete == \A i \in DOMAIN ops : ops[i].op = "read" /\ ops[i].path \in Paths /\ LastWritten(i) \in Texts => ops[i].ok
(* A call changes no other path, a failing one none. *)
Framed == \A i \in DOMAIN ops : \A p \in Paths : (p # ops[i].path \/ ~ops[i].ok) => ops[i].files[p] = Before(i)[p]
=============================================================================
