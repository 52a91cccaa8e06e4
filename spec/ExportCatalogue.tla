--------------------------- MODULE ExportCatalogue ---------------------------
(* Prints the catalogue.                                                    *)
EXTENDS Catalogue, Json
VARIABLE x
Init == x = 0
Next == UNCHANGED x
Emit == PrintT("@@" \o ToJson([defs |-> DefOf, types |-> AllTypes]))
=============================================================================
