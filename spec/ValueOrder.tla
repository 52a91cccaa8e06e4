----------------------------- MODULE ValueOrder -----------------------------
(***************************************************************************)
(* The order of values (P08), over a universe of values closed under one   *)
(* level of construction.  Every pair is a state; transitivity is checked  *)
(* on every triple.                                                        *)
(***************************************************************************)
EXTENDS CborCodec, TLC, Json

CONSTANTS Leaves, MaxSeq

Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
ArraysOf(S) == {<<4, s>> : s \in Seqs(S, MaxSeq)}
MapsOf(S) == {<<5, s>> : s \in Seqs({<<k, v>> : k \in S, v \in S}, MaxSeq)}
TagsOf(S) == {<<6, t, v>> : t \in {<<>>, <<24>>, <<1, 0>>}, v \in S}
Few == {Uint(0), Uint(24), Text(<<97>>)}
U == Leaves \cup ArraysOf(Few) \cup MapsOf(Few) \cup TagsOf(Few)
     \cup { <<4, << <<4, <<>>>> >> >>, <<5, << << <<4, <<>>>>, VNull>> >> >>,
            <<4, << <<5, << <<Uint(0), Uint(1)>> >> >> >> >>,
            <<4, << <<5, << <<Uint(1), Uint(0)>> >> >> >> >> }

VARIABLES a, b
Init == a \in U /\ b \in U
Next == UNCHANGED <<a, b>>

Canonical(v) == Canon(v) = v /\ ~HasDup(v)

Antisymmetric == Cmp(b, a) = -Cmp(a, b)
Consistent == (Cmp(a, b) = 0) <=> (a = b)
Transitive == Cmp(a, b) <= 0 => \A c \in U : Cmp(b, c) <= 0 => Cmp(a, c) <= 0
IsCanonicalOrder == (Canonical(a) /\ Canonical(b)) => Cmp(a, b) = LexCmp(Enc(a), Enc(b))
Emit == PrintT("@@" \o ToJson([op |-> "cmp", a |-> a, b |-> b, c |-> Cmp(a, b)]))

BoundLeaves ==
  {<<m, n>> : m \in {0, 1}, n \in {<<>>, <<1>>, <<23>>, <<24>>, <<255>>, <<1, 0>>, <<1, 1>>, <<255, 255>>, <<1, 0, 0>>,
     <<255, 255, 255, 255>>, <<1, 0, 0, 0, 0>>, <<128, 0, 0, 0, 0, 0, 0, 0>>, <<255, 255, 255, 255, 255, 255, 255, 255>>}}
  \cup {<<m, s>> : m \in {2, 3}, s \in {<<>>, <<0>>, <<97>>, <<98>>, <<97, 97>>, <<97, 98>>, <<97, 97, 97>>}}
  \cup {VFalse, VTrue, VNull, VUndef}
=============================================================================
