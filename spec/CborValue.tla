----------------------------- MODULE CborValue ------------------------------
(***************************************************************************)
(* The CBOR data model of oasis-cbor-value, as observable through its API. *)
(*                                                                         *)
(*   <<0, n>>     unsigned integer n                  (n: BigNat digits)   *)
(*   <<1, n>>     negative integer -1-n               (n: BigNat digits)   *)
(*   <<2, bytes>> byte string                                              *)
(*   <<3, bytes>> text string (its UTF-8 bytes)                            *)
(*   <<4, items>> array                                                    *)
(*   <<5, pairs>> map: sequence of <<key, value>>, in stored order         *)
(*   <<6, n, v>>  tagged value                                             *)
(*   <<7, s>>     simple value, s in 20..23                                *)
(***************************************************************************)
EXTENDS BigNat, SequencesExt, FiniteSets

\* f(a, b), evaluated once and for all (rather than again and again where data nest).
Now(f(_, _), a, b) == FoldLeft(LAMBDA acc, p : f(p[1], p[2]), 0, << <<a, b>> >>)

VFalse == <<7, 20>>
VTrue  == <<7, 21>>
VNull  == <<7, 22>>
VUndef == <<7, 23>>
Uint(i) == <<0, FromInt(i)>>
Nint(i) == <<1, FromInt(-1 - i)>>   \* i < 0
Text(s) == <<3, s>>

IsNullish(v) == v[1] = 7 /\ v[2] \in {22, 23}

MaxInt(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x

\* Nesting depth: 0 for a leaf or an empty container, otherwise one more than
\* the deepest child (map keys, map values and tag contents are children).
RECURSIVE Depth(_)
Depth(v) ==
  CASE v[1] = 4 -> IF v[2] = <<>> THEN 0 ELSE 1 + MaxInt({Depth(v[2][i]) : i \in 1..Len(v[2])})
    [] v[1] = 5 -> IF v[2] = <<>> THEN 0
                   ELSE 1 + MaxInt({Depth(v[2][i][1]) : i \in 1..Len(v[2])} \cup
                                   {Depth(v[2][i][2]) : i \in 1..Len(v[2])})
    [] v[1] = 6 -> 1 + Depth(v[3])
    [] OTHER -> 0

-----------------------------------------------------------------------------
(* The order of values: type, then (length, then) contents.                *)

\* First non-zero element of a sequence of comparison results, else 0.
RECURSIVE CmpItems(_, _, _), Cmp(_, _), CmpPairs(_, _, _)
CmpItems(a, b, i) ==
  IF i > Len(a) THEN 0
  ELSE LET c == Cmp(a[i], b[i]) IN IF c # 0 THEN c ELSE CmpItems(a, b, i + 1)
CmpPairs(a, b, i) ==
  IF i > Len(a) THEN 0
  ELSE LET ck == Cmp(a[i][1], b[i][1]) IN
       IF ck # 0 THEN ck
       ELSE LET cv == Cmp(a[i][2], b[i][2]) IN IF cv # 0 THEN cv ELSE CmpPairs(a, b, i + 1)
IntCmp(x, y) == IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0
Cmp(a, b) ==
  IF a[1] # b[1] THEN IntCmp(a[1], b[1])
  ELSE CASE a[1] \in {0, 1} -> NatCmp(a[2], b[2])
         [] a[1] \in {2, 3} -> LenLexCmp(a[2], b[2])
         [] a[1] = 4 -> IF Len(a[2]) # Len(b[2]) THEN IntCmp(Len(a[2]), Len(b[2]))
                        ELSE CmpItems(a[2], b[2], 1)
         [] a[1] = 5 -> IF Len(a[2]) # Len(b[2]) THEN IntCmp(Len(a[2]), Len(b[2]))
                        ELSE CmpPairs(a[2], b[2], 1)
         [] a[1] = 6 -> LET c == NatCmp(a[2], b[2]) IN IF c # 0 THEN c ELSE Cmp(a[3], b[3])
         [] OTHER -> IntCmp(a[2], b[2])

-----------------------------------------------------------------------------
(* Canonical encoding (RFC 7049 section 3.9 / RFC 8949 section 4.2).       *)

HeadOf(major, n) ==
  CASE Len(n) = 0 -> <<32 * major>>
    [] Len(n) = 1 -> IF n[1] < 24 THEN <<32 * major + n[1]>> ELSE <<32 * major + 24, n[1]>>
    [] Len(n) = 2 -> <<32 * major + 25>> \o n
    [] Len(n) \in 3..4 -> <<32 * major + 26>> \o PadTo(n, 4)
    [] OTHER -> <<32 * major + 27>> \o PadTo(n, 8)

\* Merge sort of a sequence of [k |-> key bytes, ...] records by key bytes.
RECURSIVE MergeRec(_, _, _, _, _)
MergeRec(a, i, b, j, acc) ==
  IF i > Len(a) THEN acc \o SubSeq(b, j, Len(b))
  ELSE IF j > Len(b) THEN acc \o SubSeq(a, i, Len(a))
  ELSE IF LexCmp(a[i].k, b[j].k) <= 0 THEN MergeRec(a, i + 1, b, j, Append(acc, a[i]))
  ELSE MergeRec(a, i, b, j + 1, Append(acc, b[j]))
SortedByKey(s) == \A i \in 1..(Len(s) - 1) : LexCmp(s[i].k, s[i + 1].k) <= 0
RECURSIVE SortByKey(_)
SortByKey(s) ==
  IF SortedByKey(s) THEN s
  ELSE LET m == Len(s) \div 2 IN
       MergeRec(SortByKey(SubSeq(s, 1, m)), 1, SortByKey(SubSeq(s, m + 1, Len(s))), 1, <<>>)

\* The canonical encoding of a value: maps in ascending order of key encodings.
RECURSIVE Enc(_)
Enc(v) ==
  CASE v[1] \in {0, 1} -> HeadOf(v[1], v[2])
    [] v[1] \in {2, 3} -> HeadOf(v[1], FromInt(Len(v[2]))) \o v[2]
    [] v[1] = 4 -> HeadOf(4, FromInt(Len(v[2]))) \o
                   FlattenSeq([i \in 1..Len(v[2]) |-> Enc(v[2][i])])
    [] v[1] = 5 -> LET es == SortByKey([i \in 1..Len(v[2]) |->
                                  [k |-> Enc(v[2][i][1]), x |-> Enc(v[2][i][2])]])
                   IN HeadOf(5, FromInt(Len(v[2]))) \o
                      FlattenSeq([i \in 1..Len(es) |-> es[i].k \o es[i].x])
    [] v[1] = 6 -> HeadOf(6, v[2]) \o Enc(v[3])
    [] OTHER -> <<224 + v[2]>>

\* The value with the entries of every map in canonical order.
RECURSIVE Canon(_)
Canon(v) ==
  CASE v[1] = 4 -> <<4, [i \in 1..Len(v[2]) |-> Canon(v[2][i])]>>
    [] v[1] = 5 -> Now(LAMBDA s, z : Now(LAMBDA es, y : <<5, [i \in 1..Len(es) |-> es[i].e]>>, SortByKey(s), 0),
                       <<>> \o [i \in 1..Len(v[2]) |-> [k |-> Enc(v[2][i][1]), e |-> <<Canon(v[2][i][1]), Canon(v[2][i][2])>>]], 0)
    [] v[1] = 6 -> <<6, v[2], Canon(v[3])>>
    [] OTHER -> v

\* Some map in v has two entries whose keys denote the same value.
RECURSIVE HasDup(_)
HasDup(v) ==
  CASE v[1] = 4 -> \E i \in 1..Len(v[2]) : HasDup(v[2][i])
    [] v[1] = 5 -> \/ Cardinality({Enc(v[2][i][1]) : i \in 1..Len(v[2])}) # Len(v[2])
                   \/ \E i \in 1..Len(v[2]) : HasDup(v[2][i][1]) \/ HasDup(v[2][i][2])
    [] v[1] = 6 -> HasDup(v[3])
    [] OTHER -> FALSE

=============================================================================
