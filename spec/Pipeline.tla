------------------------------ MODULE Pipeline ------------------------------
(* PDF conversions going on at the same time, each with a browser of its     *)
(* own, in a directory that may hold files of the user. A conversion starts  *)
(* a browser, writes its page to a temporary file, has the browser load it,  *)
(* removes the file, has the page printed and writes what was printed next   *)
(* to its input. The browser may fail at every step and the steps of         *)
(* different conversions interleave freely.                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Runs,        \* the conversions
          Faults,      \* <<step, kind>>: what may go wrong
          MaxFaults,   \* how often
          Takens,      \* sets of runs whose first choice of a temporary name belongs to a file of the user
          Olds,        \* sets of runs whose output exists before
          Dirs,        \* names of the working directory
          Places       \* where the inputs are: in the working directory or not

None == <<"none">>
Html(p) == <<"html", p>>                    \* the page of a run
Printout(p, c) == <<"print", p, c>>            \* what its browser prints for a page
Name(p, k) == <<"tmp", p, k>>               \* temporary names: a run's own, by choice
Out(p) == <<"out", p>>
Paths == {Name(p, k) : p \in Runs, k \in 0..1} \cup {Out(p) : p \in Runs}

VARIABLES disk,     \* what the paths hold
          at,       \* how far each run is
          tmp,      \* its temporary file
          url,      \* what its tab was told to show
          page,     \* what the tab shows
          paper,    \* what was printed
          status,   \* exit status, 2 while running
          faults,   \* number of failures so far
          steps,    \* the browser's steps so far, with their outcome
          world     \* what is fixed: taken, old, dir, place

vars == <<disk, at, tmp, url, page, paper, status, faults, steps, world>>

Init ==
  /\ world \in [taken : Takens, old : Olds, dir : Dirs, place : Places]
  /\ disk = [x \in Paths |-> IF \E p \in world.taken : x = Name(p, 0) THEN <<"user", x>>
                             ELSE IF \E p \in world.old : x = Out(p) THEN <<"old", x>>
                             ELSE None]
  /\ at = [p \in Runs |-> "start"]
  /\ tmp = [p \in Runs |-> None]
  /\ url = [p \in Runs |-> None]
  /\ page = [p \in Runs |-> None]
  /\ paper = [p \in Runs |-> None]
  /\ status = [p \in Runs |-> 2]
  /\ faults = 0
  /\ steps = <<>>

Move(p, to) == at' = [at EXCEPT ![p] = to]
Note(p, s, o) == steps' = Append(steps, <<p, s, o>>)

(* A failing step: the run gives up; a temporary file goes first. *)
Fail(p, s) ==
  \E k \in {f[2] : f \in {f \in Faults : f[1] = s}} :
    /\ faults < MaxFaults
    /\ faults' = faults + 1
    /\ Note(p, s, k)
    /\ Move(p, IF tmp[p] = None THEN "failed" ELSE "clearing")
    /\ UNCHANGED <<disk, tmp, url, page, paper, status, world>>

Launch(p) ==
  /\ at[p] = "start"
  /\ \/ /\ Move(p, "launched") /\ Note(p, "launch", "ok")
        /\ UNCHANGED <<disk, tmp, url, page, paper, status, faults, world>>
     \/ Fail(p, "launch")

(* The run writes its page to a file nobody else uses. *)
Prepare(p) ==
  /\ at[p] = "launched"
  /\ LET x == IF disk[Name(p, 0)] = None THEN Name(p, 0) ELSE Name(p, 1)
     IN /\ disk[x] = None
        /\ disk' = [disk EXCEPT ![x] = Html(p)]
        /\ tmp' = [tmp EXCEPT ![p] = x]
  /\ Move(p, "prepared")
  /\ UNCHANGED <<url, page, paper, status, faults, steps, world>>

Tab(p) ==
  /\ at[p] = "prepared"
  /\ \/ /\ Move(p, "tab") /\ Note(p, "tab", "ok")
        /\ UNCHANGED <<disk, tmp, url, page, paper, status, faults, world>>
     \/ Fail(p, "tab")

Navigate(p) ==
  /\ at[p] = "tab"
  /\ \/ /\ Move(p, "navigating") /\ Note(p, "navigate", "ok")
        /\ url' = [url EXCEPT ![p] = tmp[p]]
        /\ UNCHANGED <<disk, tmp, page, paper, status, faults, world>>
     \/ Fail(p, "navigate")

Load(p) ==
  /\ at[p] = "navigating"
  /\ \/ /\ Move(p, "loaded") /\ Note(p, "load", "ok")
        /\ page' = [page EXCEPT ![p] = disk[url[p]]]
        /\ UNCHANGED <<disk, tmp, url, paper, status, faults, world>>
     \/ Fail(p, "load")

Clear(p) ==
  /\ at[p] \in {"loaded", "clearing"}
  /\ disk' = [disk EXCEPT ![tmp[p]] = None]
  /\ tmp' = [tmp EXCEPT ![p] = None]
  /\ Move(p, IF at[p] = "loaded" THEN "cleared" ELSE "failed")
  /\ UNCHANGED <<url, page, paper, status, faults, steps, world>>

PrintPage(p) ==
  /\ at[p] = "cleared"
  /\ \/ /\ Move(p, "printed") /\ Note(p, "print", "ok")
        /\ paper' = [paper EXCEPT ![p] = Printout(p, page[p])]
        /\ UNCHANGED <<disk, tmp, url, page, status, faults, world>>
     \/ Fail(p, "print")

Save(p) ==
  /\ at[p] = "printed"
  /\ \/ /\ disk' = [disk EXCEPT ![Out(p)] = paper[p]]
        /\ status' = [status EXCEPT ![p] = 0]
        /\ Move(p, "done") /\ UNCHANGED <<tmp, url, page, paper, faults, steps, world>>
     \/ Fail(p, "save")

GiveUp(p) ==
  /\ at[p] = "failed" /\ status[p] = 2
  /\ status' = [status EXCEPT ![p] = 1]
  /\ UNCHANGED <<disk, at, tmp, url, page, paper, faults, steps, world>>

Inner(p) == Prepare(p) \/ Clear(p) \/ Save(p) \/ GiveUp(p)
Outer(p) == Launch(p) \/ Tab(p) \/ Navigate(p) \/ Load(p) \/ PrintPage(p)
Next == \E p \in Runs : Inner(p) \/ Outer(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Runs : WF_vars(Inner(p) \/ Outer(p))

Ended == \A p \in Runs : status[p] # 2

-----------------------------------------------------------------------------
(* What is printed is the page of the run itself. *)
Own == \A p \in Runs : paper[p] # None => paper[p] = Printout(p, Html(p))

(* Success means the output holds exactly that; failure leaves it alone. *)
Truth == \A p \in Runs :
  /\ status[p] = 0 => disk[Out(p)] = Printout(p, Html(p))
  /\ status[p] = 1 => disk[Out(p)] = IF p \in world.old THEN <<"old", Out(p)>> ELSE None

(* Nothing of a run that has ended is left. *)
Tidy == \A p \in Runs : status[p] # 2 => \A x \in Paths : disk[x] # Html(p)

(* Files of the user stay as they are. *)
Kept == \A p \in world.taken : disk[Name(p, 0)] = <<"user", Name(p, 0)>>

(* No two runs share a temporary file. *)
Apart == \A p, q \in Runs : p # q /\ tmp[p] # None => tmp[p] # tmp[q]

(* A run only fails if the browser did. *)
Earned == \A p \in Runs : status[p] = 1 => \E i \in DOMAIN steps : steps[i][1] = p /\ steps[i][3] # "ok"

AllEnd == <>Ended
=============================================================================
