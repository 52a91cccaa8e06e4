----------------------------- MODULE Definitions -----------------------------
(***************************************************************************)
(* Definitions of types being annotated step by step, and the verdict on   *)
(* deriving Encode or Decode for each of them: "accept", "refuse", or      *)
(* "open" where neither is demanded (annotations without any effect, for   *)
(* example).  Every definition with a verdict is emitted, to be compiled   *)
(* with the real derives; the accepted ones that derive both traits are    *)
(* further used as types for TypedMachine.                                 *)
(***************************************************************************)
EXTENDS TypeExprs, Json

CONSTANTS MaxAnn,     \* how many annotations
          Bases,      \* the names of the definitions annotated ({}: all)
          Misuse,     \* the names of the bases that also get a malformed or misplaced annotation
          Der         \* subset of {"enc", "dec", "both"}

VARIABLE st   \* [d: definition, n: annotations so far, b: name of the base]

-----------------------------------------------------------------------------
(* Definitions the bases refer to.                                         *)
Pt == Named("Pt", <<F("x", u64), F("y", I(4))>>)
Color == E("Color", <<VUnit("Red"), VUnit("Green"), VKey(VUnit("Blue"), Uint(12))>>)
Strict == NoDefault(Named("Strict", <<F("id", u64), F("name", str)>>))
Flags == Named("Flags", <<Optional(F("on", bool))>>)
Helpers == <<Pt, Color, Strict, Flags>>
\* A duration implements nothing but Default, an instant not even that.
Foreign == Raw("std::time::Duration", FALSE, FALSE, TRUE)
Alien == Raw("std::time::Instant", FALSE, FALSE, FALSE)

D(d, x) == [d EXCEPT !.dflt = <<x>>]     \* with an impl of Default (enums)
Params(d, h) == [d EXCEPT !.head = h]
Bare(d) == [d EXCEPT !.bare = TRUE]

AllBases == <<
  S("Unit", "unit", <<>>),
  Tuple("Nothing", <<>>),
  Tuple("New", <<u64>>),
  Tuple("NewOpt", <<Opt(u64)>>),
  Tuple("NewPt", <<Ref("Pt")>>),
  Tuple("Pair", <<u64, str>>),
  Tuple("Triple", <<u64, Opt(u64), bool>>),
  Named("Empty", <<>>),
  Named("One", <<F("m", u64)>>),
  Named("Two", <<F("m", u64), F("aa", Opt(str))>>),
  Named("Three", <<F("zzz", bool), F("m", Vec(u64)), F("b", Ref("Pt"))>>),
  Named("Fixed", <<F("m", u64), F("w", BArr(2))>>),
  Named("Inner", <<F("m", u64), F("c", Ref("Color"))>>),
  Named("Demanding", <<F("s", Ref("Strict")), F("f", Ref("Flags"))>>),
  Bare(Named("NoImpl", <<F("m", u64)>>)),
  Bare(S("NoImplUnit", "unit", <<>>)),
  Bare(Tuple("NoImplNew", <<u64>>)),
  Named("Duration", <<F("m", u64), F("d", Foreign)>>),
  Bare(Named("Instant", <<F("m", u64), F("d", Alien)>>)),
  Tuple("DurationNew", <<Foreign>>),
  D(E("Units", <<VUnit("A"), VUnit("Bee")>>), <<"A", <<>>>>),
  E("UnitNew", <<VUnit("A"), VNew("Bee", u64)>>),
  D(E("Maps", <<VNamed("A", <<F("m", u64)>>), VNew("Bee", Ref("Pt"))>>), <<"A", <<Uint(3)>>>>),
  E("MapUnit", <<VNamed("A", <<F("m", u64), F("aa", Opt(str))>>), VUnit("Bee")>>),
  E("Tuples", <<VTup("A", <<u64, str>>), VNamed("Bee", <<F("m", u64)>>)>>),
  E("Wrapped", <<VNew("A", Opt(u64)), VNew("Bee", BMap(u64, u64)), VUnit("C")>>),
  E("Wrapping", <<VNew("A", Ref("Color")), VUnit("Red")>>),
  E("Over", <<VNew("A", Ref("Pt")), VNew("x", u64), VUnit("Bee")>>),
  E("ForeignVar", <<VNamed("A", <<F("m", u64), F("d", Foreign)>>), VNew("Bee", Foreign), VUnit("C")>>),
  E("Numbered", <<Disc(VUnit("A"), Uint(4)), Disc(VUnit("Bee"), Nint(-2)), VUnit("C")>>),
  E("Never", <<>>),
  NoDefault(AsArray(Named("Arr3", <<F("zz", u64), F("m", bool), F("a", u64)>>))),
  NoDefault(Named("Opts", <<F("zz", u8), Optional(F("m", u64)), Optional(F("o", Vec(u64)))>>)),
  NoDefault(AllowUnknown(Named("Loose", <<F("m", u64), Optional(F("aa", Opt(str)))>>))),
  Transparent(Tuple("Thru", <<u64>>)),
  E("Embeds", <<VUnit("Red"), VNamed("x", <<F("x", u64)>>), Embed(VNew("In", Ref("Color"))), Embed(VNew("More", Ref("Pt")))>>),
  E("ArrVar", <<VArray(VNamed("A", <<F("zz", u64), F("m", bool), F("a", u64)>>)), VTup("Bee", <<u64, u64>>)>>),
  Tagged(E("TMaps", <<VNamed("A", <<F("m", u64), F("aa", Opt(str))>>), VNew("Bee", Ref("Pt")), VUnit("C")>>), Txt("t")),
  Tagged(E("TFall", <<VNamed("A", <<F("m", u64), F("zz", u64)>>), MissingV(VNamed("Bee", <<F("m", u64)>>)), VUnit("C")>>), Txt("t")),
  Params(Named("Gen", <<F("m", Par), F("n", u64)>>), "<T: cbor::Encode + cbor::Decode + Default>"),
  Params(Tuple("GenNew", <<Par>>), "<T: cbor::Encode + cbor::Decode + Default>"),
  Params(E("GenEnum", <<VNew("A", Par), VNamed("Bee", <<F("m", Par)>>), VUnit("C")>>), "<T> where T: cbor::Encode + cbor::Decode + Default"),
  Params(Named("GenTwo", <<F("m", Par), F("n", Raw("Vec<S>", TRUE, TRUE, TRUE))>>), "<T: cbor::Encode + cbor::Decode + Default, S: cbor::Encode + cbor::Decode + Default>"),
  Params(Named("Sized", <<F("m", Raw("[u8; N]", TRUE, TRUE, FALSE)), F("n", u64)>>), "<const N: usize>"),
  Params(Named("Borrowed", <<F("m", Raw("&'a str", TRUE, FALSE, TRUE)), F("n", u64)>>), "<'a>"),
  Params(E("BorrowedEnum", <<VNew("A", Raw("&'a str", TRUE, FALSE, TRUE)), VNamed("Bee", <<F("m", Raw("&'a u64", TRUE, FALSE, FALSE))>>)>>), "<'a>"),
  [Named("Union", <<F("a", u64), F("b", u64)>>) EXCEPT !.kind = "union"]
>>

-----------------------------------------------------------------------------
(* Annotating.                                                             *)
CAnn == {"transparent", "untagged", "tag", "as_array", "no_default", "with_default", "allow_unknown"}
FAnn == {"rename", "number", "optional", "skip", "skipif", "ser", "de"}
VAnn == {"rename", "number", "as_array", "as_struct", "skip", "embed", "allow_unknown", "missing"}

Has(x, a) == CASE a \in {"rename", "number"} -> x.rn
               [] a = "tag" -> x.tag # <<>>
               [] a \in {"skipif", "ser", "de"} -> x[a] # ""
               [] OTHER -> x[a]
\* The conversions and predicates at hand are for numbers.
ForField(f, a) == a \in {"skipif", "ser", "de"} => f.ty = u64
Ann(x, a) == CASE a = "rename" -> [x EXCEPT !.key = Txt("r"), !.rn = TRUE]
               [] a = "number" -> [x EXCEPT !.key = Uint(7), !.rn = TRUE]
               [] a = "tag" -> [x EXCEPT !.tag = Txt("k")]
               [] a = "skipif" -> [x EXCEPT !.skipif = "conv::is_two"]
               [] a = "ser" -> [x EXCEPT !.ser = "conv::wrap"]
               [] a = "de" -> [x EXCEPT !.de = "conv::unwrap"]
               [] OTHER -> [x EXCEPT ![a] = TRUE]

CBad == {"rename = \"x\"", "optional", "skip", "embed", "missing", "as_struct", "bogus", "transparent = \"x\"", "tag = true", "tag",
         "no_default, no_default", "allow_unknown, allow_unknown", "serialize_with = \"conv::wrap\"", "default"}
FBad == {"transparent", "as_array", "tag = \"x\"", "embed", "missing", "bogus", "rename", "rename = true", "optional = \"x\"",
         "skip, skip", "rename = \"x\", rename = \"z\"", "skip_serializing_if = 5", "allow_unknown", "with_default"}
VBad == {"transparent", "optional", "tag = \"x\"", "bogus", "rename = true", "rename", "skip, skip", "embed = \"x\"",
         "serialize_with = \"conv::wrap\"", "no_default", "skip_serializing_if = \"conv::is_two\""}

Init == \E i \in 1..Len(AllBases) :
          /\ Bases # {} => AllBases[i].n \in Bases
          /\ \E der \in Der : st = [d |-> [AllBases[i] EXCEPT !.der = der], n |-> 0, b |-> AllBases[i].n]
Misused == st.n = 0 /\ st.b \in Misuse
Last1(d) == st' = [st EXCEPT !.d = d, !.n = MaxAnn]
Set(d) == st' = [st EXCEPT !.d = d, !.n = st.n + 1]
Next ==
  LET d == st.d IN
  /\ st.n < MaxAnn
  /\ \/ \E a \in CAnn : ~Has(d, a) /\ Set(Ann(d, a))
     \/ \E i \in 1..Len(d.fields), a \in FAnn :
          ~Has(d.fields[i], a) /\ ForField(d.fields[i], a) /\ Set([d EXCEPT !.fields[i] = Ann(@, a)])
     \/ \E i \in 1..Len(d.variants), a \in VAnn : ~Has(d.variants[i], a) /\ Set([d EXCEPT !.variants[i] = Ann(@, a)])
     \/ \E i \in 1..Len(d.variants), a \in FAnn : \E j \in 1..Len(d.variants[i].fields) :
          ~Has(d.variants[i].fields[j], a) /\ ForField(d.variants[i].fields[j], a) /\ Set([d EXCEPT !.variants[i].fields[j] = Ann(@, a)])
     \/ Misused /\ MaxAnn > 0 /\ \E a \in CBad : Last1([d EXCEPT !.raw = a])
     \/ Misused /\ \E i \in 1..Len(d.fields), a \in FBad : Last1([d EXCEPT !.fields[i].raw = a])
     \/ Misused /\ \E i \in 1..Len(d.variants), a \in VBad : Last1([d EXCEPT !.variants[i].raw = a])
     \/ Misused /\ \E i \in 1..Len(d.variants), a \in FBad : \E j \in 1..Len(d.variants[i].fields) :
          Last1([d EXCEPT !.variants[i].fields[j].raw = a])

-----------------------------------------------------------------------------
(* What types implement.                                                   *)
Encodable(ty) == ty.t = "raw" => ty.enc
Decodable(ty) == ty.t = "raw" => ty.dec
HasDefault(ty) == CASE ty.t = "raw" -> ty.dflt
                    [] ty.t = "ref" -> ty.n \notin {"Strict", "Color"}
                    [] OTHER -> TRUE
EncodesAsMap(ty) == ty.t \in {"bmap", "hmap"} \/ (ty.t = "ref" /\ ty.n # "Color")
\* Something implements Default for the definition itself.
Defaults(d) == d.dflt # <<>> \/ (d.kind = "struct" /\ ~d.bare /\ ~d.no_default /\ \A i \in 1..Len(d.fields) : HasDefault(d.fields[i].ty))

When(c, x) == IF c THEN {x} ELSE {}
Over(s, f(_)) == UNION {f(s[i]) : i \in 1..Len(s)}
\* Two keys of one set of fields or variants clash.
Clash(ks) == \E i, j \in 1..Len(ks) : i < j /\ ks[i] = ks[j]
Keys(fs) == [i \in 1..Len(fs) |-> fs[i].key]

NewtypeStruct(d) == d.shape = "tuple" /\ Len(d.fields) = 1
IsArray(x) == x.shape = "tuple" \/ x.as_array

-----------------------------------------------------------------------------
(* Why a definition must be refused.                                       *)
FieldWrong(f, array, der) ==
  IF der = "enc"
  THEN When(~f.skip /\ array /\ f.skipif # "", "a predicate in an array")
       \cup When(~f.skip /\ f.ser = "" /\ ~Encodable(f.ty), "a field of a type that cannot be encoded")
  ELSE When(~f.skip /\ f.de = "" /\ ~Decodable(f.ty), "a field of a type that cannot be decoded")
       \cup When(f.skip /\ ~HasDefault(f.ty), "a skipped field without default")

OnlyFieldWrong(f, tagged, der) ==
  IF der = "enc"
  THEN When(f.ser = "" /\ ~Encodable(f.ty), "a field of a type that cannot be encoded")
       \cup When(tagged /\ (f.ser # "" \/ ~EncodesAsMap(f.ty)), "contents of an internally tagged variant that are not a map")
  ELSE When(f.de = "" /\ ~Decodable(f.ty), "a field of a type that cannot be decoded")

VariantWrong(d, v, der) ==
  IF v.skip THEN {}
  ELSE IF v.embed
  THEN When(v.shape # "newtype", "embedding into something other than a one-field variant")
       \cup When(d.tag # <<>>, "embedding into an internally tagged enum")
       \cup (IF v.shape = "newtype" THEN OnlyFieldWrong(v.fields[1], FALSE, der) ELSE {})
  ELSE IF v.shape = "newtype" THEN OnlyFieldWrong(v.fields[1], d.tag # <<>>, der)
  ELSE When(d.tag # <<>> /\ IsArray(v), "an array in an internally tagged enum")
       \cup Over(v.fields, LAMBDA f : FieldWrong(f, IsArray(v), der))

\* A type that is not Default is asked for its default.
DefaultWrong(d) == When(((d.kind = "struct" /\ ~d.no_default) \/ d.with_default) /\ ~Defaults(d), "no default to use")

RawIn(d) == \/ d.raw # ""
            \/ \E i \in 1..Len(d.fields) : d.fields[i].raw # ""
            \/ \E i \in 1..Len(d.variants) : \/ d.variants[i].raw # ""
                                             \/ \E j \in 1..Len(d.variants[i].fields) : d.variants[i].fields[j].raw # ""

Wrong(d, der) ==
  When(d.kind = "union", "a union")
  \cup When(RawIn(d), "an annotation that does not exist there or is malformed")
  \cup When(d.no_default /\ d.with_default, "contradictory default marks")
  \cup When(d.untagged /\ d.tag # <<>>, "contradictory tagging marks")
  \cup (IF d.kind = "struct"
        THEN When(d.transparent /\ ~NewtypeStruct(d), "transparent on anything but a one-field tuple struct")
             \cup (IF d.transparent THEN Over(d.fields, LAMBDA f : OnlyFieldWrong(f, FALSE, der))
                   ELSE Over(d.fields, LAMBDA f : FieldWrong(f, IsArray(d), der)))
        ELSE When(d.transparent, "transparent on an enum")
             \cup When(d.untagged /\ der = "dec", "decoding an untagged enum")
             \cup Over(d.variants, LAMBDA v : VariantWrong(d, v, der))
             \cup When(der = "dec" /\ d.tag # <<>>
                       /\ Cardinality({i \in 1..Len(d.variants) : d.variants[i].missing /\ ~d.variants[i].skip}) > 1, "two fallbacks"))
  \cup (IF der = "dec" THEN DefaultWrong(d) ELSE {})

-----------------------------------------------------------------------------
(* Why neither verdict is demanded of a definition: annotations that have  *)
(* no effect where they are, or that contradict each other silently.       *)
FieldOdd(f, array) ==
  When(array /\ (f.rn \/ f.optional), "naming or omitting array elements")
  \cup When(f.skipif # "" /\ (~f.optional \/ f.skip \/ array), "a predicate without effect")
OnlyFieldOdd(f) == When(f.rn \/ f.optional \/ f.skip \/ f.skipif # "", "options on the only field")
VariantOdd(d, v) ==
  When(v.skip /\ (v.rn \/ v.embed \/ v.missing \/ v.as_array \/ v.as_struct \/ v.allow_unknown), "options of a skipped variant")
  \cup When(v.embed /\ (v.rn \/ v.missing \/ v.as_array \/ v.as_struct \/ v.allow_unknown \/ d.untagged), "options of an embedded variant")
  \cup When(v.disc # <<>> /\ (v.rn \/ v.as_struct \/ d.tag # <<>> \/ d.untagged), "a discriminant without effect")
  \cup When(v.missing /\ d.tag = <<>>, "a fallback without tag")
  \cup When(v.as_array /\ v.shape \in {"unit", "newtype"}, "an array of nothing")
  \cup When(v.as_struct /\ (v.shape # "unit" \/ d.tag # <<>>), "a map anyway")
  \cup When(v.allow_unknown /\ (v.shape = "newtype" \/ (v.shape = "unit" /\ ~v.as_struct /\ d.tag = <<>>)), "nothing to know")
  \cup (IF v.skip THEN Over(v.fields, LAMBDA f : When(f.rn \/ f.optional \/ f.skip \/ f.skipif # "" \/ f.ser # "" \/ f.de # "", "fields of a skipped variant"))
        ELSE IF v.shape = "newtype" THEN OnlyFieldOdd(v.fields[1])
        ELSE Over(v.fields, LAMBDA f : FieldOdd(f, IsArray(v)))
             \cup When(~IsArray(v) /\ Clash((IF d.tag = <<>> THEN <<>> ELSE <<d.tag>>) \o Keys(v.fields)), "clashing keys"))
Odd(d) ==
  IF d.kind = "struct"
  THEN When(d.untagged \/ d.tag # <<>>, "tagging a struct")
       \cup When(d.as_array /\ d.shape = "unit", "an array of nothing")
       \cup When(d.allow_unknown /\ d.shape = "unit", "nothing to know")
       \cup When(d.transparent /\ (d.as_array \/ d.allow_unknown), "options of a transparent type")
       \cup (IF d.transparent THEN Over(d.fields, OnlyFieldOdd)
             ELSE Over(d.fields, LAMBDA f : FieldOdd(f, IsArray(d)))
                  \cup When(~IsArray(d) /\ Clash(Keys(d.fields)), "clashing keys"))
  ELSE When(d.as_array \/ d.allow_unknown, "options of structs on an enum")
       \cup When(d.variants = <<>>, "no variants")
       \cup When(Clash(Keys(d.variants)), "clashing keys")
       \cup When(Cardinality({i \in 1..Len(d.variants) : d.variants[i].missing}) > 1, "two fallbacks")
       \cup Over(d.variants, LAMBDA v : VariantOdd(d, v))

WrongIn(d) == IF d.der = "both" THEN Wrong(d, "enc") \cup Wrong(d, "dec") ELSE Wrong(d, d.der)
Verdict(d) == IF WrongIn(d) # {} THEN "refuse" ELSE IF Odd(d) # {} THEN "open" ELSE "accept"

-----------------------------------------------------------------------------
(* What the specification must satisfy.                                    *)

\* A malformed annotation is never forgiven.
NeverForgiven == RawIn(st.d) => Verdict(st.d) = "refuse"
\* Without annotations everything can be derived, unless a type stands in the way.
Plain == st.n = 0 /\ st.d.kind # "union" =>
  Wrong(st.d, "enc") \subseteq {"a field of a type that cannot be encoded"}
  /\ Wrong(st.d, "dec") \subseteq {"a field of a type that cannot be decoded", "no default to use"}

Emit ==
  Verdict(st.d) # "open" =>
    PrintT("@@" \o ToJson([d |-> st.d, b |-> st.b, n |-> st.n, verdict |-> Verdict(st.d),
                             default |-> st.d.dflt = <<>> /\ Defaults(st.d), why |-> SetToSeq(WrongIn(st.d))]))
=============================================================================
