------------------------------ MODULE Hostile ------------------------------
(* Documents with a hostile payload in one position of one construct: every  *)
(* place where text of the document reaches the output.  What the rendering  *)
(* must satisfy is said by HtmlTrace.tla (view "markup").                    *)
EXTENDS Naturals, Sequences, TLC, Json, CSV, IOUtils

CONSTANTS Payloads, Before, After

VARIABLES pos, pay, pre, post
vars == <<pos, pay, pre, post>>

(* "$" is where the payload stands. *)
Templates == {
  "$", "x $ y", "# $", "# t {#$}", "## $ ##", "- $", "1. $", "- [x] $", "> $", ">> $", "- a\n  - $",
  "*$*", "**$**", "***$***", "~~$~~", "`$`", "``$``", "    $", "\t$", "```\n$\n```", "```$\nx\n```", "```x $\ny\n```",
  "[$](u)", "[t]($)", "[t](u \"$\")", "[t](u '$')", "[t](u \"a\" $)", "[$]($ \"$\")", "![$](u)", "![t]($)", "![t](u \"$\")",
  "![$]()", "[$]()", "![]($)", "[]($)", "![$]( \"$\")", "> - $", "- > $", "> # $", "- # $", "| ![$]() |\n|---|\n| ![$](u) |", "1. - [ ] $",
  "[t](/a($))", "![t]( $ )", "> ```$\n> $\n> ```", "- ```$\n  $",
  "<$>", "<http://$>", "<mailto:$>", "<$@b>", "[t](http://$)", "[t](mailto:$)", "![t](http://$)", "![t](data:image/$)",
  "t[^$]", "t[^$]\n\n[^$]: n", "t[^a]\n\n[^a]: $", "[^$]: n", "[^a]: n\n    $", "[^$", "[^a]: $",
  "| $ |\n|---|\n| b |", "| h |\n|---|\n| $ |", "| h |\n|$|\n| b |", "| *$* |\n|---|\n| [$](u) |", "| $", "| a |\n| $ |",
  "<details>\n<summary>$</summary>\nb\n</details>", "<details>\n<summary>s</summary>\n$\n</details>",
  "<details>\n$\n</details>", "<details>\n<summary>$", "<details$>\n<summary>s</summary>\nb\n</details>",
  "\\$", "a\\\\$", "$\n$", "*$", "[$", "[t]($", "![$", "`$", "~~$", "**$*", "<!-- $ -->", "---$", "# ***$***" }

RECURSIVE Fill(_, _)
Fill(t, p) == IF t = "" THEN ""
              ELSE IF SubSeq(t, 1, 1) = "$" THEN p \o Fill(SubSeq(t, 2, Len(t)), p)
              ELSE SubSeq(t, 1, 1) \o Fill(SubSeq(t, 2, Len(t)), p)

Init == pos = "" /\ pay = "" /\ pre = "" /\ post = ""
ChoosePosition == pos = "" /\ pos' \in Templates /\ UNCHANGED <<pay, pre, post>>
ChoosePayload  == pos # "" /\ pay = "" /\ pay' \in Payloads /\ UNCHANGED <<pos, pre, post>>
Surround       == pay # "" /\ pre = "" /\ post = "" /\ pre' \in Before /\ post' \in After /\ UNCHANGED <<pos, pay>>
Next == ChoosePosition \/ ChoosePayload \/ Surround
Spec == Init /\ [][Next]_vars

Doc == Fill(pos, pre \o pay \o post)
Emit == pay = "" \/ CSVWrite("%1$s", <<ToJson([parts |-> << <<Doc, 1>> >>])>>, IOEnv.GEN_OUT)
(* The payload appears as often as its place. *)
Placed == pay # "" => Len(Doc) >= Len(pos) - 1
=============================================================================
