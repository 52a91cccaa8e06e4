------------------------------- MODULE MCFfi --------------------------------
(***************************************************************************)
(* The C-callable decoder (P26): a caller hands over bytes and gets one    *)
(* word back.  It runs the non-strict reader with the typed limit.         *)
(***************************************************************************)
EXTENDS MCReader

TypedLimit == {64}
LenientOnly == {FALSE}
ChainHeads == {0, 129, 128}
TagHeads == {0, 193, 160}
ValHeads == {0, 161}

Word == IF res.e = "" THEN 0 ELSE 1
\* Data after the item never matters; everything else the reader refuses does.
VerdictIsDecode == Terminal => (Word = 0 <=> DecodeLenient(inp, 64).e = "")
EmitFfi == Terminal => \A t \in {<<>>} \cup tails : PrintT("@@" \o ToJson([op |-> "ffi", b |-> inp \o t, ret |-> Word]))
=============================================================================
