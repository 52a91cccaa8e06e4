----------------------------- MODULE ExportSerde -----------------------------
(* Prints the catalogue of serde types.                                     *)
EXTENDS SerdeCatalogue, Json
VARIABLE x
Init == x = 0
Next == UNCHANGED x
Emit == PrintT("@@" \o ToJson([defs |-> DefOf, types |-> AllTypes]))
=============================================================================
