----------------------------- MODULE CborBuild ------------------------------
(***************************************************************************)
(* What the value-building conversions and macros denote.                  *)
(*                                                                         *)
(* A program builds a value bottom up on a stack of values.  An            *)
(* instruction is [c |-> constructor, a |-> its argument as bytes,         *)
(* n |-> how many operands it takes, m |-> how each entry is supplied].    *)
(***************************************************************************)
EXTENDS CborCodec

Ins(c, a, n, m) == [c |-> c, a |-> a, n |-> n, m |-> m]

\* A two's complement number of any width.
Signed(a) == IF a[1] < 128 THEN <<0, StripZeros(a)>>
             ELSE <<1, StripZeros([i \in 1..Len(a) |-> 255 - a[i]])>>

Leaf(i) ==
  CASE i.c \in {"u64", "cbor_unsigned"} -> <<0, StripZeros(i.a)>>
    [] i.c \in {"i64", "i32", "cbor_int"} -> Signed(i.a)
    [] i.c \in {"vec", "slice", "cbor_bytes", "cbor_bytes_lit"} -> <<2, i.a>>
    [] i.c \in {"string", "str", "cbor_text_str", "cbor_text_string"} -> <<3, i.a>>
    [] i.c \in {"bool", "cbor_bool"} -> IF i.a = <<0>> THEN VFalse ELSE VTrue
    [] i.c = "cbor_false" -> VFalse
    [] i.c = "cbor_true" -> VTrue
    [] i.c = "cbor_null" -> VNull
    [] i.c = "cbor_undefined" -> VUndef

PairsOf(s) == [j \in 1..(Len(s) \div 2) |-> <<s[2 * j - 1], s[2 * j]>>]

\* The operands, oldest first.
Combined(i, s) ==
  CASE i.c \in {"cbor_array", "cbor_array_vec", "from_vec"} -> <<4, s>>
    [] i.c \in {"cbor_map", "cbor_map_collection", "from_pairs"} -> <<5, PairsOf(s)>>
    [] i.c = "cbor_map_options" ->
         LET p == PairsOf(s)
             kept == SelectSeq([j \in 1..Len(p) |-> j], LAMBDA j : i.m[j] # "none")
         IN <<5, [j \in 1..Len(kept) |-> p[kept[j]]]>>
    [] i.c = "cbor_tagged" -> <<6, StripZeros(i.a), s[1]>>
    [] i.c = "into" -> s[1]

Combiners == {"cbor_array", "cbor_array_vec", "from_vec", "cbor_map", "cbor_map_collection", "from_pairs",
              "cbor_map_options", "cbor_tagged", "into"}
Step(st, i) ==
  IF i.c \in Combiners
  THEN Append(SubSeq(st, 1, Len(st) - i.n), Combined(i, SubSeq(st, Len(st) - i.n + 1, Len(st))))
  ELSE Append(st, Leaf(i))
Run(prog) == FoldLeft(Step, <<>>, prog)

\* Simple values by number: the four supported ones.
FromNumber(n) == IF Len(n) = 1 /\ n[1] \in 20..23 THEN <<n[1]>> ELSE <<>>
\* The CBOR major type.
Label(v) == Enc(v)[1] \div 32

-----------------------------------------------------------------------------
(* Taking sorted entries apart: one key at a time, in increasing order.    *)
RECURSIVE Peek(_, _, _)
Peek(entries, mode, key) ==
  IF entries = <<>> THEN [ans |-> "none", v |-> <<>>, rest |-> entries]
  ELSE LET c == Cmp(entries[1][1], key) IN
       IF c > 0 THEN [ans |-> "none", v |-> <<>>, rest |-> entries]
       ELSE IF c = 0 THEN [ans |-> "some", v |-> entries[1][2], rest |-> Tail(entries)]
       ELSE IF mode = "strict" THEN [ans |-> "unknown", v |-> <<>>, rest |-> entries]
       ELSE Peek(Tail(entries), mode, key)
RECURSIVE PeekAll(_, _)
PeekAll(entries, calls) ==
  IF calls = <<>> THEN [out |-> <<>>, rest |-> entries]
  ELSE LET p == Peek(entries, calls[1].mode, calls[1].key)
           q == PeekAll(p.rest, Tail(calls))
       IN [out |-> << <<p.ans, p.v>> >> \o q.out, rest |-> q.rest]
=============================================================================
