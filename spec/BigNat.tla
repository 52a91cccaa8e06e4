------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers beyond TLC's 32-bit integers.                           *)
(*                                                                         *)
(* A number is the sequence of its big-endian base-256 digits, without a   *)
(* leading zero digit; zero is the empty sequence.  CBOR arguments (u64),  *)
(* u128 quantities, code points and lengths are all written this way, so   *)
(* every width and boundary of the real code is representable exactly.     *)
(***************************************************************************)
EXTENDS Integers, Sequences

Byte == 0..255

RECURSIVE StripZeros(_)
StripZeros(s) == IF s = <<>> THEN s ELSE IF s[1] # 0 THEN s ELSE StripZeros(Tail(s))

IsDigits(s) == s = <<>> \/ s[1] # 0

\* Lexicographic comparison of byte sequences: -1, 0 or 1.
LexCmp(a, b) ==
  IF a = b THEN 0
  ELSE LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b) IN
       IF \E i \in 1..n : a[i] # b[i]
       THEN LET i == CHOOSE i \in 1..n : a[i] # b[i] /\ \A j \in 1..(i-1) : a[j] = b[j]
            IN IF a[i] < b[i] THEN -1 ELSE 1
       ELSE IF Len(a) < Len(b) THEN -1 ELSE 1

\* Length first, then lexicographic: numeric order on digit sequences, and the
\* order of byte and text strings in canonical CBOR.
LenLexCmp(a, b) ==
  IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE LexCmp(a, b)

NatCmp(a, b) == LenLexCmp(a, b)

\* Small naturals.
RECURSIVE FromInt(_)
FromInt(n) == IF n = 0 THEN <<>> ELSE FromInt(n \div 256) \o <<n % 256>>

RECURSIVE ToIntRec(_, _)
ToIntRec(s, acc) == IF s = <<>> THEN acc ELSE ToIntRec(Tail(s), acc * 256 + s[1])
IsSmall(s) == Len(s) <= 3 \/ (Len(s) = 4 /\ s[1] < 128)
ToInt(s) == ToIntRec(s, 0)

\* min(s, cap) as an integer, for a small cap.
CapInt(s, cap) == IF IsSmall(s) THEN (IF ToInt(s) < cap THEN ToInt(s) ELSE cap) ELSE cap

Zeros(n) == [i \in 1..n |-> 0]
PadTo(s, n) == Zeros(n - Len(s)) \o s

\* s fits an unsigned integer of w bytes / the non-negative half of a signed one.
FitsU(s, w) == Len(s) <= w
FitsI(s, w) == Len(s) < w \/ (Len(s) = w /\ s[1] < 128)

=============================================================================
