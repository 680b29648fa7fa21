---------------------------- MODULE MarkdownGen ----------------------------
(* Writes every reachable document of Markdown.tla with its expected events  *)
(* to a file, to be replayed against the real renderer.                      *)
EXTENDS Markdown, Json, CSV, IOUtils

OutFile == IOEnv.GEN_OUT

Emit == src = "" \/ CSVWrite("%1$s", <<ToJson([src |-> src, exp |-> Final])>>, OutFile)

(* Only documents that end with a block matter in addition: a trailing blank *)
(* line changes nothing, but is kept in the state space as a separator.      *)
=============================================================================
