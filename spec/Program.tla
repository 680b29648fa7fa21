------------------------------- MODULE Program -------------------------------
(* The program as its user sees it: a directory with a document, outputs of  *)
(* earlier conversions and files that are none of smd's business, a          *)
(* configuration file, and a history of edits, conversions, initializations  *)
(* and mistakes. A conversion is atomic here; Pipeline.tla opens it up.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Names,      \* <<stem, ext>> of the document
          Docs,       \* documents (numbers), written by the user
          Formats,    \* "html", "pdf"
          Spellings,  \* ways to write the path of the input
          Dirs,       \* names of the directory of the input
          Limits,     \* room on the disk for the output: "any", "exact", "short", "zero"
          Edits,      \* what the user does between runs
          Confs,      \* states the user leaves the configuration file in
          Faults,     \* ways the browser fails
          BadArgs,    \* argument lists that are no command
          Asks,       \* argument lists that ask for help or the version
          MaxOps

None == "none"

VARIABLES name, dir, input, outs, perm, conf, ops

vars == <<name, dir, input, outs, perm, conf, ops>>

Init ==
  /\ name \in Names
  /\ dir \in Dirs
  /\ input = <<"missing">>
  /\ outs = [f \in Formats |-> <<None>>]
  /\ perm = "open"
  /\ conf = "absent"
  /\ ops = <<>>

(* The output of a conversion to f has the name of the input with f as its   *)
(* extension; it may be the input itself.                                    *)
Itself(f) == name[2] = f

Room == Len(ops) < MaxOps

(* Every operation is noted with the status it ends with (an edit with 0)    *)
(* and the state after it.                                                   *)
Did(op, arg, st) ==
  ops' = Append(ops, [op |-> op, arg |-> arg, status |-> st,
                      input |-> input', outs |-> outs', perm |-> perm', conf |-> conf'])

-----------------------------------------------------------------------------
(* The user *)

Edit ==
  /\ Room /\ "edit" \in Edits /\ perm = "open"
  /\ UNCHANGED <<name, dir, outs, perm, conf>>
  /\ \E d \in Docs : input # <<"doc", d>> /\ input' = <<"doc", d>> /\ Did("edit", <<d>>, 0)

(* The input vanishes, or becomes something that is no text. *)
Spoil ==
  /\ Room /\ perm = "open"
  /\ UNCHANGED <<name, dir, outs, perm, conf>>
  /\ \E k \in {"missing", "binary", "directory"} \cap Edits :
       /\ input # <<k>>
       /\ \A f \in Formats : outs[f][1] # "link"
       /\ input' = <<k>>
       /\ Did("spoil", <<k>>, 0)

(* Something stands where an output goes: an older output, longer, shorter   *)
(* or empty; a directory; a device that is full; another name of the input.  *)
Place ==
  /\ Room /\ perm = "open"
  /\ UNCHANGED <<name, dir, input, perm, conf>>
  /\ \E f \in Formats, k \in {"long", "short", "empty", "block", "full", "hard", "soft", "gone"} \cap Edits :
       /\ ~Itself(f)
       /\ k \in {"hard", "soft"} => input[1] = "doc"
       /\ LET o == CASE k \in {"long", "short", "empty"} -> <<"old", k>>
                     [] k \in {"hard", "soft"} -> <<"link", k>>
                     [] k = "gone" -> <<None>>
                     [] OTHER -> <<k>>
          IN /\ outs[f] # o
             /\ outs' = [outs EXCEPT ![f] = o]
             /\ Did("place", <<f, k>>, 0)

(* Rights are taken away or given back. *)
Permit ==
  /\ Room
  /\ UNCHANGED <<name, dir, input, outs, conf>>
  /\ \E k \in {"open", "noread", "noout", "nodir"} \cap (Edits \cup {"open"}) :
       /\ perm # k /\ (k # "open" => perm = "open")
       /\ \A f \in Formats : outs[f][1] \notin {"link", "full", "block"}
       /\ input[1] = "doc"
       /\ k = "noout" => \A f \in Formats : outs[f][1] # None
       /\ perm' = k
       /\ Did("permit", <<k>>, 0)

Configure ==
  /\ Room
  /\ UNCHANGED <<name, dir, input, outs, perm>>
  /\ \E k \in Confs : conf # k /\ conf' = k /\ Did("configure", <<k>>, 0)

-----------------------------------------------------------------------------
(* The program *)

(* A file that is not there counts as an empty one. *)
Loadable == conf \in {"absent", "noparent", "fileparent", "default", "mine", "empty"}

(* Can the input be read as text? *)
Readable == input[1] = "doc" /\ perm # "noread"

(* Can the output be opened for writing? *)
Writable(f) ==
  LET o == outs[f][1] IN
  CASE o = "block" -> FALSE
    [] o = None -> perm # "nodir"
    [] OTHER -> perm # "noout"

Rendered(f) == <<IF f = "html" THEN "page" ELSE "print", input[2]>>

Parse ==
  /\ Room
  /\ UNCHANGED <<name, dir, input, perm, conf>>
  /\ \E f \in Formats, s \in Spellings, l \in Limits, b \in Faults \cup {"ok"} :
       /\ f = "html" => b = "ok"
       /\ (l # "any" \/ b # "ok") => Readable /\ ~Itself(f) /\ outs[f][1] \in {None, "old"} /\ perm = "open" /\ Loadable
       /\ l # "any" => b = "ok" /\ (f = "pdf" => l = "short")
       /\ LET refused == Itself(f) \/ outs[f][1] = "link"
              failing == ~Loadable \/ ~Readable \/ refused \/ b # "ok" \/ ~Writable(f)
          IN \/ /\ failing
                /\ UNCHANGED outs
                /\ Did("parse", <<f, s, l, b>>, 1)
             \/ /\ ~failing /\ l \in {"any", "exact"} /\ outs[f][1] # "full"
                /\ outs' = [outs EXCEPT ![f] = Rendered(f)]
                /\ Did("parse", <<f, s, l, b>>, 0)
             \/ /\ ~failing /\ outs[f][1] = "full"
                /\ UNCHANGED outs
                /\ Did("parse", <<f, s, l, b>>, 1)
             \/ /\ ~failing /\ l \in {"short", "zero"} /\ outs[f][1] # "full"
                /\ outs' = [outs EXCEPT ![f] = <<"partial">>]
                /\ Did("parse", <<f, s, l, b>>, 1)

Initialize ==
  /\ Room /\ "initialize" \in Edits
  /\ IF conf \in {"absent", "noparent"}
     THEN conf' = "default" /\ UNCHANGED <<name, dir, input, outs, perm>> /\ Did("initialize", <<>>, 0)
     ELSE UNCHANGED <<name, dir, input, outs, perm, conf>> /\ Did("initialize", <<>>, 1)

(* Two at the same time: one of them at least succeeds if there was nothing. *)
Both ==
  /\ Room /\ "both" \in Edits
  /\ IF conf \in {"absent", "noparent"}
     THEN conf' = "default" /\ UNCHANGED <<name, dir, input, outs, perm>> /\ Did("both", <<>>, 0)
     ELSE UNCHANGED <<name, dir, input, outs, perm, conf>> /\ Did("both", <<>>, 1)

Mistake ==
  /\ Room
  /\ \E a \in BadArgs : UNCHANGED <<name, dir, input, outs, perm, conf>> /\ Did("mistake", <<a>>, 1)

Ask ==
  /\ Room
  /\ \E a \in Asks : UNCHANGED <<name, dir, input, outs, perm, conf>> /\ Did("ask", <<a>>, 0)

Next == Ask \/ Edit \/ Spoil \/ Place \/ Permit \/ Configure \/ Parse \/ Initialize \/ Both \/ Mistake
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Last == ops[Len(ops)]
Was(i) == IF i = 1 THEN [input |-> <<"missing">>, outs |-> [f \in Formats |-> <<None>>], perm |-> "open", conf |-> "absent"]
          ELSE [input |-> ops[i-1].input, outs |-> ops[i-1].outs, perm |-> ops[i-1].perm, conf |-> ops[i-1].conf]
Ran(i) == ops[i].op \in {"parse", "initialize", "both", "mistake", "ask"}

(* A successful conversion leaves exactly the rendering of its input. *)
Exact == \A i \in DOMAIN ops : ops[i].op = "parse" /\ ops[i].status = 0 =>
  ops[i].outs[ops[i].arg[1]] = <<IF ops[i].arg[1] = "html" THEN "page" ELSE "print", ops[i].input[2]>>

(* Nothing but its own output changes, and never the input. *)
Confined == \A i \in DOMAIN ops : Ran(i) =>
  /\ ops[i].input = Was(i).input /\ ops[i].perm = Was(i).perm
  /\ \A f \in Formats : (ops[i].op # "parse" \/ ops[i].arg[1] # f) => ops[i].outs[f] = Was(i).outs[f]
  /\ ops[i].op \notin {"initialize", "both"} => ops[i].conf = Was(i).conf
  /\ ops[i].op = "parse" /\ (Itself(ops[i].arg[1]) \/ Was(i).outs[ops[i].arg[1]][1] = "link") => ops[i].status = 1

(* Status 0 means the result is there; a failure leaves an old output alone  *)
(* unless it was the writing that failed.                                    *)
Honest == \A i \in DOMAIN ops : Ran(i) =>
  /\ ops[i].op = "mistake" => ops[i].status = 1
  /\ ops[i].status = 1 /\ ops[i].op = "parse" => ops[i].outs[ops[i].arg[1]] \in {Was(i).outs[ops[i].arg[1]], <<"partial">>}
  /\ ops[i].op = "parse" /\ Was(i).input[1] # "doc" => ops[i].status = 1

(* A configuration file that exists is never written. *)
Once == \A i \in DOMAIN ops : ops[i].op \in {"initialize", "both"} =>
  IF Was(i).conf \in {"absent", "noparent"} THEN ops[i].status = 0 /\ ops[i].conf = "default"
  ELSE ops[i].status = 1 /\ ops[i].conf = Was(i).conf
=============================================================================
