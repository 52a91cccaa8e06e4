----------------------------- MODULE CborCodec ------------------------------
(***************************************************************************)
(* Big-step meaning of the byte-level API: what decoding a byte string and *)
(* encoding a value must return.                                           *)
(*                                                                         *)
(* A nesting limit is an integer; NoLimit stands for `None'.               *)
(***************************************************************************)
EXTENDS CborValue, FiniteSets

NoLimit == 1000000

-----------------------------------------------------------------------------
(* UTF-8 (RFC 3629), as an automaton over bytes; 0 accepts, 9 rejects.     *)
UtfStep(q, c) ==
  CASE q = 0 -> (CASE c < 128 -> 0
                   [] c \in 194..223 -> 1
                   [] c = 224 -> 4
                   [] c \in 225..236 \cup 238..239 -> 2
                   [] c = 237 -> 5
                   [] c = 240 -> 6
                   [] c \in 241..243 -> 3
                   [] c = 244 -> 7
                   [] OTHER -> 9)
    [] q = 1 -> IF c \in 128..191 THEN 0 ELSE 9
    [] q = 2 -> IF c \in 128..191 THEN 1 ELSE 9
    [] q = 3 -> IF c \in 128..191 THEN 2 ELSE 9
    [] q = 4 -> IF c \in 160..191 THEN 1 ELSE 9
    [] q = 5 -> IF c \in 128..159 THEN 1 ELSE 9
    [] q = 6 -> IF c \in 144..191 THEN 2 ELSE 9
    [] q = 7 -> IF c \in 128..143 THEN 2 ELSE 9
    [] OTHER -> 9
IsUtf8(s) == FoldLeft(UtfStep, 0, s) = 0

-----------------------------------------------------------------------------
(* Decoding.  A result is [e |-> "", v |-> value, p |-> next position] or  *)
(* [e |-> error name].                                                     *)

DErr(e) == [e |-> e, v |-> VNull, p |-> 0]
DOk(v, p) == [e |-> "", v |-> v, p |-> p]

ArgLen(ai) == CASE ai = 24 -> 1 [] ai = 25 -> 2 [] ai = 26 -> 4 [] ai = 27 -> 8 [] OTHER -> 0

\* The shortest head that can carry n uses additional information MinAi(n).
MinAi(n) == CASE n = <<>> -> 0
              [] Len(n) = 1 -> IF n[1] < 24 THEN n[1] ELSE 24
              [] Len(n) = 2 -> 25
              [] Len(n) \in 3..4 -> 26
              [] OTHER -> 27

Simple(n, ai, strict) ==
  IF ai > 24 THEN (IF strict THEN DErr("UnsupportedFloatingPointValue") ELSE DOk(VUndef, 0))
  ELSE IF Len(n) = 1 /\ n[1] \in 20..23 THEN DOk(<<7, n[1]>>, 0)
  ELSE IF strict THEN DErr("UnsupportedSimpleValue") ELSE DOk(VUndef, 0)

RECURSIVE DecItem(_, _, _, _)
DecItem(b, p, d, strict) ==
  IF d < 0 THEN DErr("TooMuchNesting")
  ELSE IF p > Len(b) THEN DErr("IncompleteCborData")
  ELSE
   LET major == b[p] \div 32
       ai == b[p] % 32
       k == ArgLen(ai)
       cd == IF d = NoLimit THEN d ELSE d - 1
   IN
   IF ai > 27 THEN DErr("UnknownAdditionalInfo")
   ELSE IF p + k > Len(b) THEN DErr("IncompleteCborData")
   ELSE
    LET n == IF k = 0 THEN (IF ai = 0 THEN <<>> ELSE <<ai>>) ELSE StripZeros(SubSeq(b, p + 1, p + k))
        q == p + 1 + k
        rest == Len(b) - q + 1
    IN
    IF strict /\ k > 0 /\ MinAi(n) # ai THEN DErr("NonMinimalCborEncoding")
    ELSE CASE major = 0 -> DOk(<<0, n>>, q)
           [] major = 1 -> DOk(<<1, n>>, q)
           [] major \in {2, 3} ->
                IF CapInt(n, rest + 1) > rest THEN DErr("IncompleteCborData")
                ELSE LET len == ToInt(n)
                         s == SubSeq(b, q, q + len - 1)
                     IN IF major = 3 /\ ~IsUtf8(s) THEN DErr("InvalidUtf8")
                        ELSE DOk(<<major, s>>, q + len)
           [] major = 4 ->
                LET step(acc, i) ==
                      IF acc.e # "" THEN acc
                      ELSE LET r == DecItem(b, acc.p, cd, strict) IN
                           IF r.e # "" THEN r ELSE DOk(Append(acc.v, r.v), r.p)
                    r == FoldLeft(step, DOk(<<>>, q), [i \in 1..CapInt(n, rest + 1) |-> i])
                IN IF r.e # "" THEN r ELSE DOk(<<4, r.v>>, r.p)
           [] major = 5 ->
                LET step(acc, i) ==
                      IF acc.e # "" THEN acc
                      ELSE LET rk == DecItem(b, acc.p, cd, strict) IN
                           IF rk.e # "" THEN rk
                           ELSE IF strict /\ i > 1 /\ LexCmp(SubSeq(b, acc.lk, acc.lkEnd - 1), SubSeq(b, acc.p, rk.p - 1)) >= 0
                           THEN DErr("OutOfOrderKey")
                           ELSE LET rv == DecItem(b, rk.p, cd, strict) IN
                                IF rv.e # "" THEN rv
                                ELSE [e |-> "", v |-> Append(acc.v, <<rk.v, rv.v>>), p |-> rv.p,
                                      lk |-> acc.p, lkEnd |-> rk.p]
                    r == FoldLeft(step, [e |-> "", v |-> <<>>, p |-> q, lk |-> q, lkEnd |-> q],
                                  [i \in 1..CapInt(n, rest + 1) |-> i])
                IN IF r.e # "" THEN r ELSE DOk(<<5, r.v>>, r.p)
           [] major = 6 ->
                LET r == DecItem(b, q, cd, strict) IN
                IF r.e # "" THEN r ELSE DOk(<<6, n, r.v>>, r.p)
           [] OTHER ->
                LET r == Simple(n, ai, strict) IN IF r.e # "" THEN r ELSE DOk(r.v, q)

\* read / read_nested: one item and nothing after it.
DecodeStrict(b, limit) ==
  LET r == DecItem(b, 1, limit, TRUE) IN
  IF r.e # "" THEN r ELSE IF r.p <= Len(b) THEN DErr("ExtraneousData") ELSE r

\* read_nested_non_strict: one item; what follows it is ignored.
DecodeLenient(b, limit) == DecItem(b, 1, limit, FALSE)

Decode(b, limit, strict) == IF strict THEN DecodeStrict(b, limit) ELSE DecodeLenient(b, limit)

-----------------------------------------------------------------------------
(* Encoding: the set of errors a refusal may carry; {} means it succeeds.  *)
EncErrs(v, limit) ==
  (IF limit < 0 \/ Depth(v) > limit THEN {"TooMuchNesting"} ELSE {}) \cup
  (IF HasDup(v) THEN {"DuplicateMapKey"} ELSE {})


-----------------------------------------------------------------------------
\* Deep values are logged as postfix tokens <<9, tokens>>: leaves as they are,
\* <<14, n>> an array of the last n, <<15, n>> a map of the last 2n, <<16, t>> a tag.
UnflatStep(st, t) ==
  CASE t[1] = 14 -> SubSeq(st, 1, Len(st) - t[2]) \o << <<4, SubSeq(st, Len(st) - t[2] + 1, Len(st))>> >>
    [] t[1] = 15 -> LET b == Len(st) - 2 * t[2] IN
                    SubSeq(st, 1, b) \o << <<5, [i \in 1..t[2] |-> <<st[b + 2*i - 1], st[b + 2*i]>>]>> >>
    [] t[1] = 16 -> SubSeq(st, 1, Len(st) - 1) \o << <<6, t[2], st[Len(st)]>> >>
    [] OTHER -> Append(st, t)
Unflat(x) == IF x[1] = 9 THEN FoldLeft(UnflatStep, <<>>, x[2])[1] ELSE x
=============================================================================
