--------------------------- MODULE ExportHelpers ---------------------------
(* Prints the definitions that the annotated definitions refer to.          *)
EXTENDS TypeExprs, Json
VARIABLE st
MaxAnn == 0
D == INSTANCE Definitions WITH Bases <- {}, Misuse <- {}, Der <- {}
Init == st = 0
Next == UNCHANGED st
Emit == PrintT("@@" \o ToJson(D!Helpers))
=============================================================================
