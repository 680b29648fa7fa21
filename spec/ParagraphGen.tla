---------------------------- MODULE ParagraphGen ----------------------------
EXTENDS Paragraph, Json, CSV, IOUtils
Emit == kinds = <<>> \/ CSVWrite("%1$s", <<ToJson([src |-> Src, exp |-> Final])>>, IOEnv.GEN_OUT)
=============================================================================
