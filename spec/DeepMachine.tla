------------------------------ MODULE DeepMachine ------------------------------
(***************************************************************************)
(* An attacker nests containers inside each other, without end.  Chains of *)
(* wrappers too long to be evaluated item by item get their verdicts from  *)
(* a closed form, which is checked against the codec for short chains.     *)
(*                                                                         *)
(* A wrapper is a kind of container around one deeper item:                *)
(*   1 array <<x>>   2 map value {0: x}   3 map key {x: 0}   4 tag         *)
(*   5 array <<0, x>>   6 array <<x, 0>>   7 map value {0: 0, 1: x}        *)
(* A chain of n wrappers cycles through the kinds of a pattern, from the   *)
(* outside in, and ends in fin: a leaf, an empty container, nothing at all *)
(* (the bytes end), a leaf and one more byte after everything, or a        *)
(* reserved byte.                                                          *)
(***************************************************************************)
EXTENDS CborCodec, Json

CONSTANTS Small,    \* chains up to this length, one by one
          Doublings \* then lengths growing twofold, this often

VARIABLE st         \* [p: pattern, n: length, fin: end]

Patterns == {<<1>>, <<2>>, <<3>>, <<4>>, <<5>>, <<6>>, <<7>>, <<1, 2>>, <<3, 1>>, <<4, 3, 2>>, <<1, 2, 3, 4, 5, 6, 7>>}
Fins == {"leaf", "empty", "cut", "more", "bad"}

Pre(k) == CASE k = 1 -> <<129>> [] k = 2 -> <<161, 0>> [] k = 3 -> <<161>> [] k = 4 -> <<193>>
            [] k = 5 -> <<130, 0>> [] k = 6 -> <<130>> [] OTHER -> <<162, 0, 0, 1>>
Post(k) == IF k \in {3, 6} THEN <<0>> ELSE <<>>
Kind(p, i) == p[((i - 1) % Len(p)) + 1]
End(fin) == CASE fin = "empty" -> <<128>> [] fin = "cut" -> <<>> [] fin = "bad" -> <<28>> [] OTHER -> <<0>>
\* A chain that is cut or broken has nothing after the end.
Bytes(p, n, fin) ==
  FlattenSeq([i \in 1..n |-> Pre(Kind(p, i))]) \o End(fin) \o
  (IF fin \in {"cut", "bad"} THEN <<>> ELSE FlattenSeq([i \in 1..n |-> Post(Kind(p, n + 1 - i))])) \o
  (IF fin = "more" THEN <<0>> ELSE <<>>)
Verdict(n, fin, limit, strict) ==
  IF n > limit THEN "TooMuchNesting"
  ELSE CASE fin = "cut" -> "IncompleteCborData"
         [] fin = "bad" -> "UnknownAdditionalInfo"
         [] fin = "more" -> IF strict THEN "ExtraneousData" ELSE ""
         [] OTHER -> ""

Init == \E p \in Patterns, fin \in Fins : st = [p |-> p, n |-> 0, fin |-> fin]
Next == \/ st.n < Small /\ st' = [st EXCEPT !.n = st.n + 1]
        \/ st.n \in {Small * 2^i : i \in 0..(Doublings - 1)} /\ st' = [st EXCEPT !.n = 2 * st.n]

\* Limits of interest for a chain: the two defaults, and whatever is just enough or not.
Limits(n) == {64, 127} \cup ({n - 1, n} \cap 0..127) \cup (IF n <= Small THEN {NoLimit, 0, -1} ELSE {})

\* The closed form is what decoding returns, wherever that can be computed.
ClosedForm ==
  st.n <= 40 \/ st.n \in {63, 64, 65, 126, 127, 128} =>
    LET b == TLCEval(Bytes(st.p, st.n, st.fin)) IN
    \A l \in Limits(st.n), s \in BOOLEAN : Decode(b, l, s).e = Verdict(st.n, st.fin, l, s)

Emit ==
  PrintT("@@" \o ToJson([op |-> "deep", p |-> [k \in 1..Len(st.p) |-> [pre |-> Pre(st.p[k]), post |-> IF st.fin \in {"cut", "bad"} THEN <<>> ELSE Post(st.p[k])]],
    n |-> st.n, end |-> End(st.fin), more |-> IF st.fin = "more" THEN <<0>> ELSE <<>>,
    strict |-> Verdict(st.n, st.fin, 64, TRUE), lenient |-> Verdict(st.n, st.fin, 64, FALSE),
    default |-> Verdict(st.n, st.fin, 127, TRUE),
    reads |-> SetToSeq({[l |-> l, s |-> s, e |-> Verdict(st.n, st.fin, l, s)] : l \in Limits(st.n), s \in BOOLEAN})]))
=============================================================================
