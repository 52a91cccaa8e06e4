------------------------------ MODULE WideMachine ------------------------------
(***************************************************************************)
(* Strings and containers of many elements.  Those too wide to be evaluated *)
(* item by item get their verdicts from a closed form, which is checked     *)
(* against the codec for all narrow ones.                                   *)
(*                                                                          *)
(* A wide item has n elements: bytes of a string (a pattern repeated, after *)
(* as many "a" as are missing), items 0, 1, 2, ... of an array, or keys 0,  *)
(* 1, 2, ... of a map, whose values are 0.  Its flaw is one of              *)
(*   ""     none                                                            *)
(*   less   one more element is announced than there are                    *)
(*   more   one less is announced                                           *)
(*   utf, utfmid   the last byte, or the one in the middle, is no UTF-8     *)
(*   swap, swapmid, rev, riffle   keys come in another order                *)
(*   dup, dupfar   the last key repeats the one before, or the first        *)
(* Its head has additional information ai, minimal or not.  It stands alone *)
(* or inside a wrapper:                                                     *)
(*   1 array <<x, 0>>   2 map key {x: 0}   3 map value {0: x}   4 tag       *)
(*   5 two keys, x and its successor   6 the other way round   7 x twice    *)
(* where the successor of x differs from it in the last element.            *)
(***************************************************************************)
EXTENDS CborCodec, Json

CONSTANTS Narrow, \* widths up to this one, one by one
          Wide    \* and these

VARIABLE st       \* [k: major type, n, p: pattern, f: flaw, ai, w: wrapper]

Patterns == {<<97>>, <<195, 169>>, <<226, 130, 172>>, <<240, 159, 152, 128>>}
OrderFlaws == {"swap", "swapmid", "rev", "riffle", "dup", "dupfar"}
Flaws(k, n) == {"", "less"} \cup (IF n > 0 THEN {"more"} ELSE {})
  \cup (IF k = 3 /\ n > 0 THEN {"utf", "utfmid"} ELSE {})
  \cup (IF k = 5 /\ n > 2 THEN OrderFlaws ELSE {})
Announced(n, f) == CASE f = "less" -> n + 1 [] f = "more" -> n - 1 [] OTHER -> n
Ais(a) == {MinAi(FromInt(a))} \cup {x \in {24, 25, 26, 27} : Len(FromInt(a)) <= ArgLen(x)}
MinHead(s) == MinAi(FromInt(Announced(s.n, s.f))) = s.ai

HeadAs(k, a, ai) == <<32 * k + ai>> \o PadTo(IF ai < 24 THEN <<>> ELSE FromInt(a), ArgLen(ai))
\* Which element comes at place i, from 0.
Place(n, f, i) ==
  CASE f = "swap" -> IF i >= n - 2 THEN 2 * n - 3 - i ELSE i
    [] f = "swapmid" -> LET h == n \div 2 IN IF i = h THEN h - 1 ELSE IF i = h - 1 THEN h ELSE i
    [] f = "rev" -> n - 1 - i
    [] f = "riffle" -> LET h == (n + 1) \div 2 IN IF i < h THEN 2 * i ELSE 2 * (i - h) + 1
    [] f = "dup" -> IF i = n - 1 THEN n - 2 ELSE i
    [] f = "dupfar" -> IF i = n - 1 THEN 0 ELSE i
    [] OTHER -> i
String(p, n) == LET r == n % Len(p) IN [i \in 1..n |-> IF i <= r THEN 97 ELSE p[((i - 1 - r) % Len(p)) + 1]]
\* The contents of the item, or of its successor.
Spoilt(s, f) == LET n == Len(s) IN
  CASE f = "utf" -> [s EXCEPT ![n] = 255] [] f = "utfmid" -> [s EXCEPT ![n \div 2 + 1] = 255] [] OTHER -> s
Contents(s, succ) ==
  CASE s.k \in {2, 3} -> LET t == Spoilt(String(s.p, s.n), s.f) IN IF succ THEN [t EXCEPT ![s.n] = t[s.n] + 1] ELSE t
    [] s.k = 4 -> FlattenSeq([i \in 1..s.n |-> HeadOf(0, FromInt(i - (IF succ /\ i = s.n THEN 0 ELSE 1)))])
    [] OTHER -> FlattenSeq([i \in 1..s.n |-> HeadOf(0, FromInt(Place(s.n, s.f, i - 1))) \o <<IF succ /\ i = s.n THEN 1 ELSE 0>>])
Item(s, succ) == HeadAs(s.k, Announced(s.n, s.f), s.ai) \o Contents(s, succ)
Bytes(s) ==
  LET x == TLCEval(Item(s, FALSE)) IN
  CASE s.w = 0 -> x [] s.w = 1 -> <<130>> \o x \o <<0>> [] s.w = 2 -> <<161>> \o x \o <<0>> [] s.w = 3 -> <<161, 0>> \o x
    [] s.w = 4 -> <<193>> \o x
    [] OTHER -> LET y == TLCEval(Item(s, TRUE)) IN
         <<162>> \o (IF s.w = 6 THEN y ELSE x) \o <<0>> \o (CASE s.w = 5 -> y [] OTHER -> x) \o <<0>>

\* The closed form of what decoding says.
Verdict(s, strict) ==
  CASE strict /\ ~MinHead(s) -> "NonMinimalCborEncoding"
    [] s.f = "less" -> "IncompleteCborData"
    [] s.f \in {"utf", "utfmid"} -> "InvalidUtf8"
    [] s.f = "more" /\ s.k = 3 /\ Len(s.p) > 1 /\ s.n >= Len(s.p) -> "InvalidUtf8"
    [] s.f = "more" -> IF strict THEN "ExtraneousData" ELSE ""
    [] strict /\ (s.f \in OrderFlaws \/ s.w \in {6, 7}) -> "OutOfOrderKey"
    [] OTHER -> ""
\* And of what encoding the item does, where there is such a value: succeed with the item in canonical order, or fail.
Writable(s) == MinHead(s) /\ s.f \notin {"less", "more", "utf", "utfmid"}
Refusal(s) == IF s.f \in {"dup", "dupfar"} \/ s.w = 7 THEN "DuplicateMapKey" ELSE ""
Canonical(s) == [s EXCEPT !.f = "", !.w = IF s.w = 6 THEN 5 ELSE s.w]

\* The wrappers are for whole items in a minimal head; the flaws and heads for items that stand alone.
States(k, n) ==
  UNION {{[k |-> k, n |-> n, p |-> p, f |-> f, ai |-> ai, w |-> 0] : ai \in Ais(Announced(n, f))}
         : p \in IF k = 3 THEN Patterns ELSE {<<97>>}, f \in Flaws(k, n)}
  \cup {[k |-> k, n |-> n, p |-> p, f |-> "", ai |-> MinAi(FromInt(n)), w |-> w]
         : p \in IF k = 3 THEN Patterns ELSE {<<97>>}, w \in IF n > 0 THEN 1..7 ELSE 1..4}
Init == \E k \in 2..5 : st \in States(k, 0)
\* The environment goes on to the next width.
Widths == (0..Narrow) \cup Wide
Following(n) == {m \in Widths : m > n /\ \A x \in Widths : x > n => x >= m}
Next == \E m \in Following(st.n) : st' \in States(st.k, m)

\* The value of an item, as a decoder that accepts it stores it.
ValueOf(s, succ, m) ==
  CASE s.k \in {2, 3} -> <<s.k, SubSeq(Contents(s, succ), 1, m)>>
    [] s.k = 4 -> <<4, [i \in 1..m |-> Uint(i - (IF succ /\ i = s.n THEN 0 ELSE 1))]>>
    [] OTHER -> <<5, [i \in 1..m |-> <<Uint(Place(s.n, s.f, i - 1)), Uint(IF succ /\ i = s.n THEN 1 ELSE 0)>>]>>
Whole(s, m) ==
  LET x == ValueOf(s, FALSE, m)
      y == ValueOf(s, TRUE, m) IN
  CASE s.w = 0 -> x [] s.w = 1 -> <<4, <<x, Uint(0)>> >> [] s.w = 2 -> <<5, << <<x, Uint(0)>> >> >> [] s.w = 3 -> <<5, << <<Uint(0), x>> >> >>
    [] s.w = 4 -> <<6, <<1>>, x>>
    [] s.w = 5 -> <<5, << <<x, Uint(0)>>, <<y, Uint(0)>> >> >>
    [] s.w = 6 -> <<5, << <<y, Uint(0)>>, <<x, Uint(0)>> >> >>
    [] OTHER -> <<5, << <<x, Uint(0)>>, <<x, Uint(0)>> >> >>

\* One element more, but lesser ones.
Longer(s) ==
  CASE s.k \in {2, 3} -> <<s.k, [i \in 1..(s.n + 1) |-> 0]>>
    [] s.k = 4 -> <<4, [i \in 1..(s.n + 1) |-> Uint(0)]>>
    [] OTHER -> <<5, [i \in 1..(s.n + 1) |-> <<Uint(i - 1), Uint(0)>>]>>
Plain(s) == s.f = "" /\ s.w = 0 /\ MinHead(s)

\* The closed form is what decoding and encoding do, wherever that can be computed.
ClosedForm ==
  st.n <= 300 =>
    LET b == TLCEval(Bytes(st))
        m == IF st.f = "more" THEN st.n - 1 ELSE st.n IN
    /\ \A s \in BOOLEAN : LET r == Decode(b, 64, s) IN
         /\ r.e = Verdict(st, s)
         /\ r.e = "" => r.v = Whole(st, m)
    /\ Writable(st) =>
         /\ EncErrs(Whole(st, st.n), 64) = {Refusal(st)} \ {""}
         /\ Refusal(st) = "" => Enc(Whole(st, st.n)) = Bytes(Canonical(st))
    \* An item comes before its successor and before everything of its type that is longer.
    /\ Plain(st) =>
         LET x == Whole(st, st.n) IN
         /\ st.n > 0 => Cmp(x, ValueOf(st, TRUE, st.n)) = -1
         /\ Cmp(x, x) = 0
         /\ Cmp(x, Longer(st)) = -1

Emit ==
  PrintT("@@" \o ToJson([op |-> "wide", k |-> st.k, n |-> st.n, p |-> st.p, f |-> st.f, w |-> st.w,
    head |-> HeadAs(st.k, Announced(st.n, st.f), st.ai), m |-> IF st.f = "more" THEN st.n - 1 ELSE st.n,
    canon |-> HeadOf(st.k, FromInt(IF st.f = "more" THEN st.n - 1 ELSE st.n)),
    strict |-> Verdict(st, TRUE), lenient |-> Verdict(st, FALSE),
    plain |-> Plain(st), writable |-> Writable(st), refusal |-> Refusal(st)]))
=============================================================================
