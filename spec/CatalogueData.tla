----------------------------- MODULE CatalogueData -----------------------------
(* The definitions and types of Catalogue.tla, as exported by                 *)
(* ExportCatalogue.tla (tools/codegen.py keeps the export up to date).        *)
EXTENDS Json, IOUtils, TLC
Exported == JsonDeserialize(IF "CATALOGUE" \in DOMAIN IOEnv THEN IOEnv.CATALOGUE ELSE "../build/gen/catalogue.json")
\* The definitions, as a function from names.
Defs == Exported.defs
AllTypes == Exported.types
=============================================================================
