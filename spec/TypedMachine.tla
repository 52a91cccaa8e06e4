----------------------------- MODULE TypedMachine -----------------------------
(***************************************************************************)
(* A datum of some type of the catalogue is encoded; the resulting value   *)
(* is then edited (as a peer, an older version or an attacker might) and   *)
(* decoded again.  Every encoding and every decoding of an edited value is *)
(* emitted as a test for the real code; the properties that the            *)
(* specification itself must have are invariants.                          *)
(***************************************************************************)
EXTENDS CborTypes, Samples

CONSTANTS Groups,     \* the groups of types explored
          MaxEdits,   \* how many edits
          EditFrom,   \* how many of the samples of a type are edited
          Emit        \* "enc", "dec", "null" or "all": what tests to emit

VARIABLE st   \* [k: "enc", i: type, x: datum] or [k: "dec", i, v: value, e: edits]

-----------------------------------------------------------------------------
Explored == {i \in 1..Len(AllTypes) : AllTypes[i].g \in Groups}
Ty(i) == AllTypes[i].ty
Decodes(i) == Decodable(Ty(i))

DeepEdit == 12   \* data that nest deeper are not edited
Init == \E i \in Explored :
          LET s == Samples(Ty(i))
              step == (Len(s) + EditFrom - 1) \div EditFrom
          IN \E p \in {<<s[j], (j - 1) % step = 0>> : j \in 1..Len(s)} : st = [k |-> "enc", i |-> i, x |-> p[1], ed |-> p[2] /\ Depth(EncT(Ty(i), p[1])) <= DeepEdit]

Encode == /\ st.k = "enc" /\ Decodes(st.i) /\ Emit # "enc"
          /\ st' = [k |-> "dec", i |-> st.i, v |-> EncT(Ty(st.i), st.x), e |-> IF st.ed THEN 0 ELSE MaxEdits]
Edit == /\ st.k = "dec" /\ st.e < MaxEdits
        /\ \E v \in EditsOf(KeysOf(Ty(st.i)), st.v, TRUE) : st' = [st EXCEPT !.v = v, !.e = st.e + 1]
Next == Encode \/ Edit

-----------------------------------------------------------------------------
(* What the specification must satisfy.                                    *)

\* Decoding undoes encoding for types without one-sided options.
RoundTrip ==
  st.k = "enc" /\ Decodes(st.i) /\ Lossless(Ty(st.i), TRUE) =>
    LET r == DecD(Ty(st.i), EncT(Ty(st.i), st.x)) IN r.k = "ok" /\ Same(Ty(st.i), r.x, st.x)

\* Null and undefined are alike where defaults are supported.
NullIsUndef == st.k = "dec" /\ IsNullish(st.v) => DecD(Ty(st.i), VNull) = DecD(Ty(st.i), VUndef)

\* Types usable as maps encode as maps.
MapsAreMaps == st.k = "enc" /\ IsMapType(Ty(st.i)) => EncT(Ty(st.i), st.x)[1] = 5

\* The order of map entries is irrelevant (except for which of several
\* defects is reported, and for types that keep the entries as they are).
Strictly(ty) == ty.t = "ref" /\ Defs[ty.n].kind = "struct"
OrderIrrelevant ==
  st.k = "dec" /\ st.v[1] = 5 /\ Strictly(Ty(st.i)) =>
    DecD(Ty(st.i), st.v) = DecD(Ty(st.i), Map(Reverse(st.v[2])))

\* Unknown entries are ignored where they are allowed and fatal elsewhere.
UnknownEntries ==
  st.k = "dec" /\ st.v[1] = 5 /\ Strictly(Ty(st.i)) =>
    LET d == Defs[Ty(st.i).n]
        more == Map(Append(st.v[2], <<Tag(<<99>>, VNull), VNull>>)) IN
    d.shape = "named" /\ ~d.as_array /\ ~d.transparent =>
      IF d.allow_unknown THEN DecD(Ty(st.i), more) = DecD(Ty(st.i), st.v)
      ELSE LET r == DecD(Ty(st.i), more) IN r.k = "err" /\ "UnknownField" \in r.es

\* Skipped fields are never written, skipped variants never read.
SkippedHidden ==
  /\ st.k = "enc" /\ Ty(st.i).t = "ref" =>
       LET d == Defs[Ty(st.i).n]
           v == EncT(Ty(st.i), st.x) IN
       d.kind = "struct" /\ v[1] = 5 /\ ~d.transparent =>
         \A i \in 1..Len(v[2]) : \E j \in 1..Len(d.fields) : ~d.fields[j].skip /\ d.fields[j].key = v[2][i][1]
  /\ st.k = "dec" /\ Ty(st.i).t = "ref" =>
       LET d == Defs[Ty(st.i).n]
           r == DecD(Ty(st.i), st.v) IN
       d.kind = "enum" /\ r.k = "ok" /\ ~(d.with_default /\ IsNullish(st.v)) => ~VarOf(d, r.x[1]).skip

\* What is decoded from an item re-encodes (for lossless types) to something
\* that decodes to the same.
Stable ==
  st.k = "dec" /\ Lossless(Ty(st.i), TRUE) =>
    LET r == DecD(Ty(st.i), st.v) IN
    r.k = "ok" => LET q == DecD(Ty(st.i), EncT(Ty(st.i), r.x)) IN q.k = "ok" /\ Same(Ty(st.i), q.x, r.x)

-----------------------------------------------------------------------------
(* The tests.                                                              *)
JOut(r) == CASE r.k = "ok" -> [k |-> "ok", x |-> r.x]
             [] r.k = "err" -> [k |-> "err", es |-> SetToSeq(r.es)]
             [] OTHER -> r
\* Bytes are decoded for a type up to this depth only.
TypedLimit == 64
Ground(ty) == ty.t # "ref" /\ ty.t # "tup"
Tests ==
  /\ st.k = "enc" /\ Emit \in {"enc", "all"} =>
       LET ty == Ty(st.i)
           v == EncT(ty, st.x)
           dup == HasDup(v)
           back == IF Decodes(st.i) THEN DecD(ty, v) ELSE Open
       IN PrintT("@@" \o ToJson([op |-> "enc", ty |-> AllTypes[st.i].id, x |-> st.x, v |-> v, dup |-> dup,
                                 b |-> IF dup THEN <<>> ELSE Enc(v), none |-> OptNone(ty, st.x), back |-> JOut(back),
                                 ground |-> Ground(ty), deep |-> Depth(v) > TypedLimit, lossless |-> Lossless(ty, TRUE)]))
  /\ st.k = "dec" /\ (Emit \in {"dec", "all"} \/ (Emit = "null" /\ (NullWithin(st.v) \/ st.v[1] = 5))) =>
       LET ty == Ty(st.i)
       IN PrintT("@@" \o ToJson([op |-> "dec", ty |-> AllTypes[st.i].id, v |-> st.v, deep |-> Depth(st.v) > TypedLimit, null |-> IsNullish(st.v),
                                 r |-> JOut(DecD(ty, st.v)), r2 |-> JOut(DecT(ty, st.v))]))
=============================================================================
