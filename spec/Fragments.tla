----------------------------- MODULE Fragments -----------------------------
(* Arbitrary documents: any sequence of fragments, each possibly repeated.   *)
(* "§" in a fragment stands for a new word.  What a rendering of such a      *)
(* document must satisfy is said by HtmlTrace.tla.                           *)
EXTENDS Naturals, Sequences, TLC, Json, CSV, IOUtils

CONSTANTS Frags, Counts, MaxLen

VARIABLE parts

Init == parts = <<>>
Next == /\ Len(parts) < MaxLen
        /\ \E f \in Frags, n \in Counts : parts' = Append(parts, <<f, n>>)
Spec == Init /\ [][Next]_parts

Emit == parts = <<>> \/ CSVWrite("%1$s", <<ToJson([parts |-> parts])>>, IOEnv.GEN_OUT)
(* In simulation only the longest documents are new. *)
EmitLong == Len(parts) < MaxLen \/ CSVWrite("%1$s", <<ToJson([parts |-> parts])>>, IOEnv.GEN_OUT)
(* Two fragments in turn, repeated together (big documents). *)
EmitPairs == Len(parts) < 2 \/ CSVWrite("%1$s", <<ToJson([parts |-> << <<parts[1][1] \o parts[2][1], parts[1][2]>> >>])>>, IOEnv.GEN_OUT)
(* One fragment, then many of another. *)
EmitTails == Len(parts) < 2 \/ CSVWrite("%1$s", <<ToJson([parts |-> << <<parts[1][1], 1>>, parts[2] >>])>>, IOEnv.GEN_OUT)
=============================================================================
