----------------------------- MODULE SerdeMachine -----------------------------
(***************************************************************************)
(* As TypedMachine, for serde: data are serialized, the items edited and   *)
(* deserialized again.                                                     *)
(***************************************************************************)
EXTENDS CborSerde, Samples

CONSTANTS Groups, MaxEdits, EditFrom, Emit    \* as for TypedMachine

VARIABLE st

Explored == {i \in 1..Len(AllTypes) : AllTypes[i].g \in Groups}
Ty(i) == AllTypes[i].ty
DeepEdit == 12   \* data that nest deeper are not edited
Init == \E i \in Explored :
          LET s == Samples(Ty(i))
              step == (Len(s) + EditFrom - 1) \div EditFrom
          IN \E p \in {<<s[j], (j - 1) % step = 0>> : j \in 1..Len(s)} :
               st = [k |-> "ser", i |-> i, x |-> p[1], ed |-> p[2] /\ LET r == SerT(Ty(i), p[1]) IN r.k = "ok" => Depth(r.x) <= DeepEdit]

\* Where data cannot be serialized something else is deserialized.
Serialized == /\ st.k = "ser" /\ Emit # "ser"
             /\ LET r == SerT(Ty(st.i), st.x) IN
                st' = [k |-> "des", i |-> st.i, v |-> IF r.k = "ok" THEN r.x ELSE VNull, e |-> IF st.ed THEN 0 ELSE MaxEdits]
Edit == /\ st.k = "des" /\ st.e < MaxEdits
        /\ \E v \in EditsOf(KeysOf(Ty(st.i)), st.v, TRUE) : st' = [st EXCEPT !.v = v, !.e = st.e + 1]
Next == Serialized \/ Edit

-----------------------------------------------------------------------------
\* Where a definition means the same to both derives, serde and the native
\* encoder produce the same item.  (Natively, u8 sequences are byte strings.)
Native == INSTANCE CborTypes
RECURSIVE AlikeBut(_, _)
AlikeF(d, f, seen) == ~f.flatten /\ ~f.optional /\ ~f.skip /\ AlikeBut(FTy(d, f), seen \cup {d.n})
AlikeBut(ty, seen) ==
  LET Alike(t) == AlikeBut(t, seen) IN
  CASE ty.t \in {"f", "dyn", "bbuf", "pairs", "human"} -> FALSE
    [] ty.t = "ref" /\ ty.n \in seen -> TRUE
    [] ty.t = "i" -> ty.w <= 8
    [] ty.t \in {"vec", "arr", "bset"} -> ty.e # U8 /\ Alike(ty.e)
    [] ty.t = "opt" -> Alike(ty.e)
    [] ty.t = "tup" -> \A i \in 1..Len(ty.es) : Alike(ty.es[i])
    [] ty.t \in {"bmap", "hmap"} -> Alike(ty.k) /\ Alike(ty.v)
    [] ty.t = "ref" -> LET d == Defs[ty.n] IN
                       /\ d.content = <<>>
                       /\ \A i \in 1..Len(d.fields) : AlikeF(d, d.fields[i], seen)
                       /\ \A i \in 1..Len(d.variants) :
                            ~d.variants[i].skip /\ \A j \in 1..Len(d.variants[i].fields) : AlikeF(d, d.variants[i].fields[j], seen)
    [] OTHER -> TRUE
Alike(ty) == AlikeBut(ty, {})
AgreesWithNative ==
  st.k = "ser" /\ Alike(Ty(st.i)) => LET r == SerT(Ty(st.i), st.x) IN r.k = "ok" /\ Canon(r.x) = Canon(Native!EncT(Ty(st.i), st.x))

\* Deserializing undoes serializing.
RoundTrip ==
  st.k = "ser" /\ LosslessS(Ty(st.i)) =>
    LET r == SerT(Ty(st.i), st.x) IN
    r.k = "ok" => LET q == DesT(Ty(st.i), r.x) IN q.k = "any" \/ (q.k = "ok" /\ Same(Ty(st.i), q.x, st.x))

\* Anything accepted serializes to something that is accepted as the same, except integers serde cannot pass on.
Stable ==
  st.k = "des" /\ LosslessS(Ty(st.i)) =>
    LET r == DesT(Ty(st.i), st.v) IN
    r.k = "ok" => LET q == SerT(Ty(st.i), r.x) IN
                  q.k = "ok" => LET z == DesT(Ty(st.i), q.x) IN z.k = "any" \/ (z.k = "ok" /\ Same(Ty(st.i), z.x, r.x))

\* No tag ever gets through.
TagsRefused == st.k = "des" /\ st.v[1] = 6 => LET r == DesT(Ty(st.i), st.v) IN r.k \in {"err", "any"}

\* Nothing is made up: numbers that come out are those that went in.
NumbersKept == st.k = "des" /\ Ty(st.i).t \in {"u", "i"} => LET r == DesT(Ty(st.i), st.v) IN r.k = "ok" => r.x = st.v

\* Whatever fails in the data is not blamed on the bytes, and the other way round.
OfData(r) == r.k = "err" => r.es # {} /\ r.es \subseteq AllErrs
Blame == /\ st.k = "ser" => OfData(SerT(Ty(st.i), st.x))
         /\ st.k = "des" => OfData(DesT(Ty(st.i), st.v))

-----------------------------------------------------------------------------
\* As bytes, what nests too deep is refused.
InBytes(ty, v) == IF HasDup(v) THEN Open
                  ELSE IF Depth(v) > 64 THEN Er({"byte:" \o Decode(Enc(v), 64, TRUE).e})
                  ELSE DesT(ty, Canon(v))
JOut(r) == CASE r.k = "err" -> [k |-> "err", es |-> SetToSeq(r.es)] [] OTHER -> r
Tests ==
  /\ st.k = "ser" /\ Emit \in {"ser", "all"} =>
       LET ty == Ty(st.i)
           r == SerT(ty, st.x)
       IN PrintT("@@" \o ToJson([op |-> "ser", ty |-> AllTypes[st.i].id, x |-> st.x, r |-> JOut(r), b |-> JOut(SerB(ty, st.x)),
                                 back |-> IF r.k = "ok" /\ ~HasDup(r.x) THEN JOut(DesT(ty, r.x)) ELSE Open,
                                 backb |-> IF r.k = "ok" THEN JOut(InBytes(ty, r.x)) ELSE Open,
                                 lossless |-> LosslessS(ty), deep |-> r.k = "ok" /\ Depth(r.x) > 64]))
  /\ st.k = "des" /\ Emit \in {"des", "all"} =>
       LET ty == Ty(st.i)
       IN PrintT("@@" \o ToJson([op |-> "des", ty |-> AllTypes[st.i].id, v |-> st.v, r |-> JOut(DesT(ty, st.v)),
                                 rb |-> JOut(InBytes(ty, st.v))]))
=============================================================================
