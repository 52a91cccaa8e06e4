--------------------------- MODULE WriterMachine ---------------------------
(***************************************************************************)
(* The encoder as a small-step machine, and the histories of an output     *)
(* buffer.                                                                 *)
(*                                                                         *)
(* The environment builds a value in postfix order on a work stack: leaves *)
(* are pushed, containers take the topmost items (so map entries come in   *)
(* every order, with every kind of key, and may repeat).  It then hands    *)
(* the value to the encoder with some nesting limit.  The encoder works    *)
(* through an agenda of items with their depths; a map is opened by        *)
(* sorting its entries by encoded key, and duplicates are met at that      *)
(* point.  A buffer sees up to MaxWrites such calls, refused ones included.*)
(* Every completed history is emitted as a test for the real encoder.      *)
(***************************************************************************)
EXTENDS CborCodec, TLC, Json

CONSTANTS Leaves,    \* leaf values
          MaxTokens, \* bound on build steps for one value
          MaxItems,  \* bound on container sizes
          Tags,      \* tag numbers (digits)
          Limits, MaxWrites,
          Bases   \* initial buffers

VARIABLES phase,  \* "build", "encode", "done"
          work,   \* build stack: values
          tokens, \* build steps taken
          val, lim,
          agenda, \* what is left to encode: sequence of [v, d]
          base,   \* buffer at the start of the call
          out,    \* bytes appended by this call
          err,
          hist    \* completed calls
vars == <<phase, work, tokens, val, lim, agenda, base, out, err, hist>>

Init == /\ phase = "build" /\ work = <<>> /\ tokens = 0 /\ val = VNull /\ lim = 0
        /\ agenda = <<>> /\ base \in Bases /\ out = <<>> /\ err = "" /\ hist = <<>>

Building == phase = "build" /\ tokens < MaxTokens
Built(w) == /\ work' = w /\ tokens' = tokens + 1
            /\ UNCHANGED <<phase, val, lim, agenda, base, out, err, hist>>
Top(n) == SubSeq(work, Len(work) - n + 1, Len(work))
Drop(n) == SubSeq(work, 1, Len(work) - n)

PushLeaf == Building /\ \E v \in Leaves : Built(Append(work, v))
MakeArray == Building /\ \E n \in 0..MaxItems : n <= Len(work) /\ Built(Append(Drop(n), <<4, Top(n)>>))
MakeMap ==
  /\ Building
  /\ \E n \in 0..MaxItems :
       /\ 2 * n <= Len(work)
       /\ LET t == Top(2 * n)
          IN Built(Append(Drop(2 * n), <<5, [i \in 1..n |-> <<t[2*i - 1], t[2*i]>>]>>))
MakeTag == Building /\ Len(work) > 0 /\ \E t \in Tags : Built(Append(Drop(1), <<6, t, work[Len(work)]>>))

\* The call: write_nested(val, buffer, lim).
Call ==
  /\ phase = "build" /\ Len(work) = 1
  /\ val' = work[1] /\ lim' \in Limits
  /\ phase' = "encode" /\ agenda' = <<[v |-> work[1], d |-> 0]>>
  /\ out' = <<>> /\ err' = ""
  /\ UNCHANGED <<work, tokens, base, hist>>

Refuse(e) == /\ phase' = "done" /\ err' = e /\ agenda' = <<>>
             /\ hist' = Append(hist, [v |-> val, l |-> lim, errs |-> EncErrs(val, lim), out |-> <<>>, canon |-> VNull])
             /\ UNCHANGED <<work, tokens, val, lim, base, out>>

\* A map is opened: its entries in the order of their encoded keys.
MapTasks(v, d) ==
  LET es == SortByKey([i \in 1..Len(v[2]) |-> [k |-> Enc(v[2][i][1]), e |-> v[2][i]]])
  IN FlattenSeq([i \in 1..Len(es) |-> << [v |-> es[i].e[1], d |-> d], [v |-> es[i].e[2], d |-> d] >>])

EncodeItem ==
  /\ phase = "encode" /\ agenda # <<>>
  /\ LET it == Head(agenda)
         rest == Tail(agenda)
         v == it.v
         go(bytes, kids) == /\ out' = out \o bytes /\ agenda' = kids \o rest
                            /\ UNCHANGED <<phase, work, tokens, val, lim, base, err, hist>>
     IN IF lim < it.d THEN Refuse("TooMuchNesting")
        ELSE CASE v[1] = 4 -> go(HeadOf(4, FromInt(Len(v[2]))), [i \in 1..Len(v[2]) |-> [v |-> v[2][i], d |-> it.d + 1]])
               [] v[1] = 5 ->
                    IF Cardinality({Enc(v[2][i][1]) : i \in 1..Len(v[2])}) # Len(v[2])
                    THEN Refuse("DuplicateMapKey")
                    ELSE go(HeadOf(5, FromInt(Len(v[2]))), MapTasks(v, it.d + 1))
               [] v[1] = 6 -> go(HeadOf(6, v[2]), << [v |-> v[3], d |-> it.d + 1] >>)
               [] OTHER -> go(Enc(v), <<>>)

Finish ==
  /\ phase = "encode" /\ agenda = <<>>
  /\ phase' = "done"
  /\ hist' = Append(hist, [v |-> val, l |-> lim, errs |-> {}, out |-> out, canon |-> Canon(val)])
  /\ UNCHANGED <<work, tokens, val, lim, agenda, base, out, err>>

\* The next call on the same buffer.  After a refusal what follows the old
\* contents is unspecified, so the history ends there.
Again ==
  /\ phase = "done" /\ Len(hist) < MaxWrites /\ err = ""
  /\ phase' = "build" /\ work' = <<>> /\ tokens' = 0
  /\ base' = base \o out /\ out' = <<>>
  /\ UNCHANGED <<val, lim, agenda, err, hist>>

Next == PushLeaf \/ MakeArray \/ MakeMap \/ MakeTag \/ Call \/ EncodeItem \/ Finish \/ Again
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Done == phase = "done"

\* The machine computes the big-step meaning.
Refines ==
  Done => /\ (err = "") <=> (EncErrs(val, lim) = {})
          /\ err # "" => err \in EncErrs(val, lim)
          /\ err = "" => out = Enc(val)

\* Decoding the output under the same limit gives the value, canonically ordered.
RoundTrip ==
  (Done /\ err = "") => LET r == DecodeStrict(out, lim) IN r.e = "" /\ r.v = Canon(val)

\* An accepted encoding is the only one: permuting entries changes nothing.
OrderFree == (Done /\ err = "") => Enc(Canon(val)) = out

\* Values that differ (up to the order of map entries) have different encodings.
Injective == \A i, j \in 1..Len(hist) :
               (hist[i].errs = {} /\ hist[j].errs = {} /\ hist[i].out = hist[j].out)
                  => Canon(hist[i].v) = Canon(hist[j].v)

\* The buffer is the initial one followed by the canonical encodings, in order.
Appends ==
  Done => \E p \in Bases : base \o out = p \o FlattenSeq([i \in 1..Len(hist) |->
             IF hist[i].errs = {} THEN Enc(hist[i].v) ELSE out])

\* One test per history that cannot go on being extended (shorter ones are its prefixes).
Emit ==
  (Done /\ (err # "" \/ Len(hist) = MaxWrites)) =>
     PrintT("@@" \o ToJson([op |-> "writes", pre |-> SubSeq(base, 1, Len(base) - Len(FlattenSeq([i \in 1..(Len(hist) - 1) |-> hist[i].out]))),
                            calls |-> hist]))
=============================================================================
