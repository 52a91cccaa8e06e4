--------------------------- MODULE ReaderMachine ---------------------------
(***************************************************************************)
(* The decoder as a small-step machine that consumes one byte at a time.   *)
(*                                                                         *)
(* The environment chooses each byte only when the machine asks for it (or *)
(* ends the input there), so the reachable terminal states are exactly the *)
(* inputs that a decoder has to look at completely to decide, over the     *)
(* chosen byte alphabets.  Every terminal state is emitted as a test for   *)
(* the real decoder; the invariants relate the machine to the big-step     *)
(* functions, to the canonical encoding and to the memory bound.           *)
(***************************************************************************)
EXTENDS CborCodec, TLC, Json

CONSTANTS Heads,    \* initial bytes the environment may supply
          Args,     \* argument bytes
          Conts,    \* string content bytes
          Extras,   \* bytes after a complete item
          MaxLen,   \* bound on the input length
          Limits,   \* nesting limits
          Modes     \* subset of BOOLEAN: strict?

VARIABLES inp,    \* bytes consumed so far
          stack,  \* open containers, innermost first
          need,   \* what the machine reads next
          res,    \* result: [e, v] once need is "done"
          lim, strict,
          tails   \* after a failure: bytes that would complete the item for a decoder that overlooked it
vars == <<inp, stack, need, res, lim, strict, tails>>

NoRes == [e |-> "", v |-> VNull]
HeadNeed == [k |-> "head"]
Done == [k |-> "done"]

Init == /\ inp = <<>> /\ stack = <<>> /\ need = HeadNeed /\ res = NoRes
        /\ lim \in Limits /\ strict \in Modes /\ tails = {}

-----------------------------------------------------------------------------
\* The input that fails is the shortest one that does.  A decoder that did not
\* notice would go on reading, so for every failure there is at least one
\* continuation that such a decoder would be content with.
Times(n, s) == FlattenSeq([i \in 1..n |-> s])
\* Entries with the greatest keys there are.
LastPairs(n) == FlattenSeq([i \in 1..n |-> <<248 - n + i - 1, 0>>])
RECURSIVE Rest(_)
\* What is missing after an item in the innermost of the open containers.
Rest(st) ==
  IF st = <<>> THEN <<>>
  ELSE LET f == st[1] IN
       (CASE f.k = "arr" -> Times(f.n - 1, <<0>>)
          [] f.k = "tag" -> <<>>
          [] f.k = "key" -> <<0>> \o LastPairs(f.n - 1)
          [] OTHER -> LastPairs(f.n - 1)) \o Rest(Tail(st))
Completable(st) == \A i \in 1..Len(st) : st[i].k = "tag" \/ st[i].n <= 4
\* The failing item goes on like one of pres.
Tails(st, pres) == IF Completable(st) THEN {p \o Rest(st) : p \in pres} \ {<<>>} ELSE {}
\* The contents that an argument promises.
Contents(major, n) ==
  IF major \notin 2..6 THEN {<<>>}
  ELSE IF major = 6 THEN {<<0>>}
  ELSE IF Len(n) > 1 \/ ToInt(n) > 32 THEN {}
  ELSE CASE major \in {2, 3} -> {Times(ToInt(n), <<97>>)}
         [] major = 4 -> {Times(ToInt(n), <<0>>)}
         [] OTHER -> IF ToInt(n) > 23 THEN {} ELSE {FlattenSeq([i \in 1..ToInt(n) |-> <<i - 1, 0>>])}
\* Items of indefinite length end with a break.
Indefinite(major, ai) ==
  IF ai # 31 THEN {<<>>, <<0>>}
  ELSE CASE major = 2 -> {<<255>>, <<65, 0, 255>>}
         [] major = 3 -> {<<255>>, <<97, 97, 255>>}
         [] major = 4 -> {<<255>>, <<0, 255>>}
         [] major = 5 -> {<<255>>, <<0, 0, 255>>}
         [] OTHER -> {<<>>}

FailOn(e, ts) == /\ need' = Done /\ res' = [e |-> e, v |-> VNull] /\ stack' = <<>> /\ tails' = ts
                 /\ UNCHANGED <<lim, strict>>
Fail(e) == FailOn(e, {})

Pos == Len(inp)

\* Item v, whose encoding ends at byte `end', is complete: hand it to the
\* innermost open container, closing every container that it completes.
\* Result: [st |-> stack, need |-> .., res |-> .., ts |-> tails].
RECURSIVE Reduce(_, _, _, _)
Reduce(st, v, bytes, end) ==
  IF st = <<>> THEN [st |-> <<>>, need |-> [k |-> "end"], res |-> [e |-> "", v |-> v], ts |-> {}]
  ELSE
   LET f == st[1]
       up == Tail(st)
   IN
   CASE f.k = "arr" ->
          LET items == Append(f.items, v) IN
          IF f.n = 1 THEN Reduce(up, <<4, items>>, bytes, end)
          ELSE [st |-> <<[f EXCEPT !.items = items, !.n = f.n - 1]>> \o up, need |-> HeadNeed, res |-> NoRes, ts |-> {}]
     [] f.k = "tag" -> Reduce(up, <<6, f.t, v>>, bytes, end)
     [] f.k = "key" ->
          LET kb == SubSeq(bytes, f.from, end) IN
          IF strict /\ f.pairs # <<>> /\ LexCmp(f.last, kb) >= 0
          THEN [st |-> <<>>, need |-> Done, res |-> [e |-> "OutOfOrderKey", v |-> VNull], ts |-> Tails(st, {<<>>})]
          ELSE [st |-> <<[f EXCEPT !.k = "val", !.key = v, !.last = kb]>> \o up, need |-> HeadNeed, res |-> NoRes, ts |-> {}]
     [] OTHER ->
          LET pairs == Append(f.pairs, <<f.key, v>>) IN
          IF f.n = 1 THEN Reduce(up, <<5, pairs>>, bytes, end)
          ELSE [st |-> <<[f EXCEPT !.k = "key", !.pairs = pairs, !.n = f.n - 1, !.from = end + 1]>> \o up,
                need |-> HeadNeed, res |-> NoRes, ts |-> {}]

Become(r) == /\ stack' = r.st /\ need' = r.need /\ res' = r.res /\ tails' = r.ts /\ UNCHANGED <<lim, strict>>
Item(v, bytes) == Become(Reduce(stack, v, bytes, Len(bytes)))

\* A head with argument n has been read completely.
Start(major, ai, n, bytes) ==
  IF strict /\ ai > 23 /\ MinAi(n) # ai THEN FailOn("NonMinimalCborEncoding", Tails(stack, Contents(major, n)))
  ELSE LET c == CapInt(n, 100000) IN
  CASE major \in {0, 1} -> Item(<<major, n>>, bytes)
    [] major \in {2, 3} ->
         IF c = 0 THEN Item(<<major, <<>>>>, bytes)
         ELSE /\ need' = [k |-> "str", major |-> major, n |-> c, got |-> <<>>]
              /\ UNCHANGED <<stack, res, lim, strict, tails>>
    [] major = 4 ->
         IF c = 0 THEN Item(<<4, <<>>>>, bytes)
         ELSE /\ stack' = <<[k |-> "arr", n |-> c, items |-> <<>>]>> \o stack
              /\ need' = HeadNeed /\ UNCHANGED <<res, lim, strict, tails>>
    [] major = 5 ->
         IF c = 0 THEN Item(<<5, <<>>>>, bytes)
         ELSE /\ stack' = <<[k |-> "key", n |-> c, pairs |-> <<>>, key |-> VNull, last |-> <<>>,
                             from |-> Len(bytes) + 1]>> \o stack
              /\ need' = HeadNeed /\ UNCHANGED <<res, lim, strict, tails>>
    [] major = 6 ->
         /\ stack' = <<[k |-> "tag", t |-> n]>> \o stack
         /\ need' = HeadNeed /\ UNCHANGED <<res, lim, strict, tails>>
    [] OTHER ->
         LET r == Simple(n, ai, strict) IN
         IF r.e # "" THEN FailOn(r.e, Tails(stack, {<<>>})) ELSE Item(r.v, bytes)

TooDeep == lim # NoLimit /\ Len(stack) > lim

\* The nesting limit is examined before anything of an item is read.
RefuseNesting == /\ need.k = "head" /\ TooDeep
                 /\ FailOn("TooMuchNesting", Tails(stack, {<<0>>})) /\ UNCHANGED inp

ReadHead ==
  /\ need.k = "head" /\ ~TooDeep /\ Len(inp) < MaxLen
  /\ \E b \in Heads :
       LET ai == b % 32
           major == b \div 32
           bytes == Append(inp, b)
       IN /\ inp' = bytes
          /\ IF ai > 27 THEN FailOn("UnknownAdditionalInfo", Tails(stack, Indefinite(major, ai)))
             ELSE IF ai > 23
             THEN /\ need' = [k |-> "arg", major |-> major, ai |-> ai, got |-> <<>>]
                  /\ UNCHANGED <<stack, res, lim, strict, tails>>
             ELSE Start(major, ai, IF ai = 0 THEN <<>> ELSE <<ai>>, bytes)

ReadArg ==
  /\ need.k = "arg" /\ Len(inp) < MaxLen
  /\ \E b \in Args :
       LET bytes == Append(inp, b)
           got == Append(need.got, b)
       IN /\ inp' = bytes
          /\ IF Len(got) < ArgLen(need.ai)
             THEN /\ need' = [need EXCEPT !.got = got] /\ UNCHANGED <<stack, res, lim, strict, tails>>
             ELSE Start(need.major, need.ai, StripZeros(got), bytes)

ReadContent ==
  /\ need.k = "str" /\ Len(inp) < MaxLen
  /\ \E b \in Conts :
       LET bytes == Append(inp, b)
           got == Append(need.got, b)
       IN /\ inp' = bytes
          /\ IF need.n > 1
             THEN /\ need' = [need EXCEPT !.got = got, !.n = need.n - 1]
                  /\ UNCHANGED <<stack, res, lim, strict, tails>>
             ELSE IF need.major = 3 /\ ~IsUtf8(got) THEN FailOn("InvalidUtf8", Tails(stack, {<<>>}))
             ELSE Item(<<need.major, got>>, bytes)

\* The input ends where the machine needs another byte.
EndOfInput ==
  /\ need.k \in {"arg", "str"} \/ (need.k = "head" /\ ~TooDeep)
  /\ Fail("IncompleteCborData") /\ UNCHANGED inp

\* A complete item, and the input ends with it.
Accept == /\ need.k = "end" /\ need' = Done /\ UNCHANGED <<inp, stack, res, lim, strict, tails>>

\* A complete item followed by something.
MoreAfterItem ==
  /\ need.k = "end"
  /\ \E b \in Extras : inp' = Append(inp, b)
  /\ IF strict THEN Fail("ExtraneousData")
     ELSE /\ need' = Done /\ UNCHANGED <<stack, res, lim, strict, tails>>

Next == RefuseNesting \/ ReadHead \/ ReadArg \/ ReadContent \/ EndOfInput \/ Accept \/ MoreAfterItem
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Terminal == need.k = "done"

\* The machine computes the big-step meaning.
Refines ==
  Terminal => LET r == Decode(inp, lim, strict) IN
              /\ res.e = r.e
              /\ res.e = "" => res.v = r.v

\* What strict mode accepts is the canonical encoding of what it returns, and
\* lenient mode accepts it with the same value.
AcceptsCanonical ==
  (Terminal /\ strict /\ res.e = "") =>
     /\ Enc(res.v) = inp
     /\ ~HasDup(res.v)
     /\ Canon(res.v) = res.v
     /\ lim # NoLimit => Depth(res.v) <= lim
     /\ LET r == DecodeLenient(inp, lim) IN r.e = "" /\ r.v = res.v

\* What lenient mode adds: re-encoding the result either meets duplicate keys
\* or gives bytes that strict mode accepts for the same value.
LenientMeaning ==
  (Terminal /\ ~strict /\ res.e = "" /\ ~HasDup(res.v)) =>
     LET r == DecodeStrict(Enc(res.v), lim) IN r.e = "" /\ r.v = Canon(res.v)

\* Memory: everything retained is paid for by bytes already consumed.
RECURSIVE Nodes(_)
Nodes(v) ==
  CASE v[1] \in {2, 3} -> 1 + Len(v[2])
    [] v[1] = 4 -> FoldLeft(LAMBDA a, x : a + Nodes(x), 1, v[2])
    [] v[1] = 5 -> FoldLeft(LAMBDA a, x : a + Nodes(x[1]) + Nodes(x[2]), 1, v[2])
    [] v[1] = 6 -> 1 + Nodes(v[3])
    [] OTHER -> 1
FrameNodes(f) ==
  CASE f.k = "arr" -> Nodes(<<4, f.items>>)
    [] f.k = "tag" -> 1
    [] f.k = "key" -> Nodes(<<5, f.pairs>>)
    [] OTHER -> Nodes(<<5, f.pairs>>) + Nodes(f.key)
Bounded ==
  FoldLeft(LAMBDA a, f : a + FrameNodes(f), 0, stack)
    + (IF need.k = "str" THEN 1 + Len(need.got) ELSE 0)
    + (IF need.k \in {"end", "done"} /\ res.e = "" THEN Nodes(res.v) ELSE 0) <= Len(inp)

\* Never deeper than the limit allows to open.
StackBounded == lim = NoLimit \/ Len(stack) <= (IF lim < 0 THEN 0 ELSE lim + 1)

\* What fails fails however it goes on.
FailsForGood == \A t \in tails : Decode(inp \o t, lim, strict).e = res.e

\* One test per terminal state and continuation.
Emit ==
  Terminal => \A t \in {<<>>} \cup tails :
    PrintT("@@" \o ToJson([op |-> "read", b |-> inp \o t, l |-> lim, s |-> strict, e |-> res.e, v |-> res.v]))

=============================================================================
