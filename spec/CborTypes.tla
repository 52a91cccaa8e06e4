----------------------------- MODULE CborTypes ------------------------------
(***************************************************************************)
(* The typed layer: what every type encodes to, and what every value       *)
(* decodes to, for the built-in types and for derived types described by a *)
(* definition (the shape plus its annotations).                            *)
(*                                                                         *)
(* See TypeData for how types and data are written.                        *)
(***************************************************************************)
EXTENDS TypeData

TypeErr == Er({"UnexpectedType"})
SizeErr == Er({"UnexpectedIntegerSize"})
Missing == Er({"MissingField"})
Unknown == Er({"UnknownField"})

-----------------------------------------------------------------------------
(* Custom conversion functions and predicates the definitions may name.    *)
SerTy(fn) == CASE fn = "conv::not" -> BoolT
               [] fn = "conv::succ" -> U64
               [] fn = "conv::wrap" -> [t |-> "vec", e |-> U64]
               [] fn = "conv::nonzero" -> [t |-> "opt", e |-> U64]
               [] fn = "conv::hide" -> [t |-> "unit"]
SerFn(fn, x) == CASE fn = "conv::not" -> 1 - x
                  [] fn = "conv::succ" -> Uint(ToInt(x[2]) + 1)
                  [] fn = "conv::wrap" -> <<x>>
                  [] fn = "conv::nonzero" -> IF x[2] = <<>> THEN <<>> ELSE <<x>>
                  [] fn = "conv::hide" -> <<>>
DeTy(fn) == CASE fn = "conv::un_not" -> BoolT
              [] fn = "conv::pred" -> U64
              [] fn = "conv::unwrap" -> [t |-> "vec", e |-> U64]
              [] fn = "conv::or_zero" -> [t |-> "opt", e |-> U64]
              [] fn = "conv::odd" -> U64
DeFn(fn, x) == CASE fn = "conv::un_not" -> Ok(1 - x)
                 [] fn = "conv::pred" -> IF x[2] = <<>> \/ CapInt(x[2], 1000) > 256 THEN SizeErr
                                         ELSE Ok(Uint(ToInt(x[2]) - 1))
                 [] fn = "conv::unwrap" -> IF Len(x) = 1 THEN Ok(x[1]) ELSE TypeErr
                 [] fn = "conv::or_zero" -> Ok(IF x = <<>> THEN Uint(0) ELSE x[1])
                 [] fn = "conv::odd" -> IF x[2] # <<>> /\ x[2][Len(x[2])] % 2 = 1 THEN Ok(x) ELSE Missing
-----------------------------------------------------------------------------
(* Encoding.                                                               *)
RECURSIVE EncT(_, _), EncDef(_, _), IsEmptyT(_, _), OptNone(_, _), EncField(_, _, _), EncFields(_, _, _, _),
          EncBody(_, _, _)

\* What is encoded for a field: its type and datum after custom conversion.
EncField(d, f, x) == IF f.ser = "" THEN EncT(FTy(d, f), x) ELSE EncT(SerTy(f.ser), SerFn(f.ser, x))
FieldNone(d, f, x) == IF f.ser = "" THEN OptNone(FTy(d, f), x) ELSE OptNone(SerTy(f.ser), SerFn(f.ser, x))

Omitted(d, f, x) ==
  \/ f.skip
  \/ f.optional /\ (IF f.skipif = "" THEN FieldNone(d, f, x) ELSE Pred(f.skipif, x))

\* The fields of a struct or variant, as an array or as map entries.
EncFields(d, fs, xs, array) ==
  IF array
  THEN <<4, FlattenSeq([i \in 1..Len(fs) |-> IF fs[i].skip THEN <<>> ELSE <<EncField(d, fs[i], xs[i])>>])>>
  ELSE <<5, FlattenSeq([i \in 1..Len(fs) |-> IF Omitted(d, fs[i], xs[i]) THEN <<>>
                                             ELSE << <<fs[i].key, EncField(d, fs[i], xs[i])>> >>])>>

\* The contents of a non-unit variant.
EncBody(d, v, xs) ==
  IF v.shape = "newtype" THEN EncField(d, v.fields[1], xs[1])
  ELSE EncFields(d, v.fields, xs, v.shape = "tuple" \/ v.as_array)

EncDef(d, x) ==
  IF d.kind = "struct"
  THEN IF d.shape = "unit" THEN VNull
       ELSE IF d.transparent THEN EncField(d, d.fields[1], x[1])
       ELSE EncFields(d, d.fields, x, d.shape = "tuple" \/ d.as_array)
  ELSE LET v == VarOf(d, x[1]) IN
       IF v.skip THEN VUndef
       ELSE IF v.embed THEN EncField(d, v.fields[1], x[2][1])
       ELSE IF v.shape = "unit" /\ ~v.as_struct /\ d.tag = <<>>
       THEN (IF v.disc # <<>> THEN v.disc ELSE v.key)
       ELSE Now(LAMBDA body, z :
                  IF d.untagged \/ v.missing THEN body
                  ELSE IF d.tag # <<>> THEN <<5, Append(body[2], <<d.tag, v.key>>)>>
                  ELSE <<5, << <<v.key, body>> >>>>, EncBody(d, v, x[2]), 0)

EncT(ty, x) ==
  CASE ty.t \in {"u", "i"} -> x
    [] ty.t = "u128" -> <<2, x>>
    [] ty.t = "char" -> <<0, x>>
    [] ty.t = "bool" -> IF x = 1 THEN VTrue ELSE VFalse
    [] ty.t = "str" -> <<3, x>>
    [] ty.t \in {"bytes", "barr"} -> <<2, x>>
    [] ty.t = "unit" -> VNull
    [] ty.t = "value" -> x
    [] ty.t = "bor" -> EncT(ty.e, x)
    [] ty.t \in {"vec", "arr"} -> <<4, [i \in 1..Len(x) |-> EncT(ty.e, x[i])]>>
    [] ty.t = "bset" -> LET s == SortBy(LAMBDA a, b : RustCmp(ty.e, a, b), x)
                        IN <<4, [i \in 1..Len(s) |-> EncT(ty.e, s[i])]>>
    [] ty.t = "hset" -> <<4, SortBy(Cmp, [i \in 1..Len(x) |-> EncT(ty.e, x[i])])>>
    [] ty.t = "tup" -> <<4, [i \in 1..Len(x) |-> EncT(ty.es[i], x[i])]>>
    [] ty.t = "opt" -> IF x = <<>> THEN VNull ELSE Now(EncT, ty.e, x[1])
    [] ty.t \in {"bmap", "hmap"} -> <<5, [i \in 1..Len(x) |-> <<EncT(ty.k, x[i][1]), EncT(ty.v, x[i][2])>>]>>
    [] OTHER -> Now(EncDef, Defs[ty.n], x)

\* The datum is the type's empty value.
IsEmptyT(ty, x) ==
  CASE ty.t \in {"u", "i"} -> x[2] = <<>> /\ x[1] = 0
    [] ty.t \in {"u128", "char", "str", "bytes", "vec", "opt", "bmap", "hmap", "bset", "hset"} -> x = <<>>
    [] ty.t = "bool" -> x = 0
    [] ty.t = "unit" -> TRUE
    [] ty.t = "value" -> IsNullish(x)
    [] ty.t = "bor" -> IsEmptyT(ty.e, x)
    [] ty.t = "tup" -> \A i \in 1..Len(x) : IsEmptyT(ty.es[i], x[i])
    [] OTHER -> FALSE     \* fixed-size arrays and derived types

\* As an optional field the datum may be left out.
OptNone(ty, x) ==
  IF ty.t # "ref" THEN IsEmptyT(ty, x)
  ELSE LET d == Defs[ty.n] IN
       d.kind = "struct" /\ (IF d.shape = "unit" THEN TRUE
                             ELSE IF d.transparent THEN FieldNone(d, d.fields[1], x[1])
                             ELSE EncDef(d, x) = <<5, <<>>>>)

-----------------------------------------------------------------------------
(* Defaults.                                                               *)
RECURSIVE DefT(_)

\* What null, undefined or absence stands for.
DefT(ty) ==
  CASE ty.t = "arr" -> Missing
    [] ty.t = "tup" -> All([i \in 1..Len(ty.es) |-> DefT(ty.es[i])])
    [] ty.t = "value" -> Ok(VNull)
    [] ty.t = "ref" -> LET d == Defs[ty.n] IN
                       IF (d.kind = "struct" /\ ~d.no_default) \/ d.with_default THEN Ok(RustDefault(ty)) ELSE Missing
    [] OTHER -> Ok(Zero(ty))

-----------------------------------------------------------------------------
(* Decoding.                                                               *)
RECURSIVE DecT(_, _), DecD(_, _), DecDef(_, _), DecField(_, _, _), DecFields(_, _, _, _, _), DecVariantBody(_, _, _)

\* At positions that support defaults.
DecD(ty, v) == IF IsNullish(v) THEN DefT(ty) ELSE DecT(ty, v)

DecField(d, f, v) == IF f.de = "" THEN DecD(FTy(d, f), v)
                     ELSE Map1(DecD(DeTy(f.de), v), LAMBDA x : DeFn(f.de, x))

DecFields(d, fs, array, unknown, v) ==
  IF array
  THEN IF v[1] # 4 THEN TypeErr
       ELSE LET nth(i) == Cardinality({j \in 1..i : ~fs[j].skip})
                want == Cardinality({j \in 1..Len(fs) : ~fs[j].skip})
            IN AndAlso(All([i \in 1..Len(fs) |->
                              IF fs[i].skip THEN Ok(RustDefault(FTy(d, fs[i])))
                              ELSE IF nth(i) > Len(v[2]) THEN Missing
                              ELSE DecField(d, fs[i], v[2][nth(i)])]),
                       IF Len(v[2]) > want /\ ~unknown THEN {"UnknownField"} ELSE {})
  ELSE IF v[1] # 5 THEN TypeErr
       ELSE LET ps == v[2]
                known == {fs[i].key : i \in {j \in 1..Len(fs) : ~fs[j].skip}}
                r == All([i \in 1..Len(fs) |->
                            IF fs[i].skip THEN Ok(RustDefault(FTy(d, fs[i])))
                            ELSE LET at == Find(ps, fs[i].key) IN
                                 IF at = {} THEN DecField(d, fs[i], VNull)
                                 ELSE DecField(d, fs[i], ps[CHOOSE j \in at : TRUE][2])])
            IN IF HasDupKeys(ps)
               THEN (IF unknown THEN Open ELSE Er({"UnknownField"} \cup
                       UNION {LET q == DecField(d, fs[i], ps[j][2]) IN IF q.k = "err" THEN q.es ELSE
                                   IF q.k = "any" THEN {"UnexpectedType", "MissingField", "UnexpectedIntegerSize"} ELSE {}
                              : i \in {a \in 1..Len(fs) : ~fs[a].skip}, j \in 1..Len(ps)}
                       \cup UNION {LET q == DecField(d, fs[i], VNull) IN IF q.k = "err" THEN q.es ELSE {}
                              : i \in {a \in 1..Len(fs) : ~fs[a].skip}}))
               ELSE AndAlso(r, IF ~unknown /\ \E j \in 1..Len(ps) : ps[j][1] \notin known THEN {"UnknownField"} ELSE {})

DecVariantBody(d, w, v) ==
  IF w.shape = "newtype" THEN Map1(DecField(d, w.fields[1], v), LAMBDA x : Ok(<<w.n, <<x>>>>))
  ELSE Map1(DecFields(d, w.fields, w.shape = "tuple" \/ w.as_array, w.allow_unknown, v), LAMBDA x : Ok(<<w.n, x>>))

\* The first of the candidate variants (indices, in order) that accepts.
RECURSIVE FirstEmbedded(_, _, _)
FirstEmbedded(d, i, v) ==
  IF i > Len(d.variants) THEN Unknown
  ELSE LET w == d.variants[i] IN
       IF w.skip \/ ~w.embed THEN FirstEmbedded(d, i + 1, v)
       ELSE LET r == DecField(d, w.fields[1], v) IN
            IF r.k = "any" THEN Open
            ELSE IF r.k = "ok" THEN Ok(<<w.n, <<r.x>>>>)
            ELSE FirstEmbedded(d, i + 1, v)

Own(d) == {i \in 1..Len(d.variants) : ~d.variants[i].skip /\ ~d.variants[i].embed}
IsUnitVar(d, w) == w.shape = "unit" /\ ~w.as_struct /\ d.tag = <<>>
First(is) == CHOOSE i \in is : \A j \in is : i <= j

DecTagged(d, v) ==
  IF v[1] # 5 THEN TypeErr
  ELSE LET at == Find(v[2], d.tag) IN
       IF Cardinality(at) > 1 THEN Open
       ELSE LET key == IF at = {} THEN VUndef ELSE v[2][CHOOSE j \in at : TRUE][2]
                rest == <<5, IF at = {} THEN v[2]
                             ELSE LET j == CHOOSE j \in at : TRUE IN
                                  SubSeq(v[2], 1, j - 1) \o SubSeq(v[2], j + 1, Len(v[2]))>>
                hit == {i \in Own(d) : d.variants[i].key = key \/ (d.variants[i].missing /\ key = VUndef)}
            IN IF hit = {} THEN Unknown ELSE DecVariantBody(d, d.variants[First(hit)], rest)

DecExternal(d, v) ==
  LET units == {i \in Own(d) : IsUnitVar(d, d.variants[i])}
      others == Own(d) \ units
      unitKey(w) == IF w.disc # <<>> THEN w.disc ELSE w.key
  IN IF v[1] = 5 /\ others # {}
     THEN IF Len(v[2]) # 1 THEN FirstEmbedded(d, 1, v)
          ELSE LET hit == {i \in others : d.variants[i].key = v[2][1][1]} IN
               IF hit # {} THEN DecVariantBody(d, d.variants[First(hit)], v[2][1][2])
               ELSE FirstEmbedded(d, 1, v)
     ELSE LET hit == {i \in units : unitKey(d.variants[i]) = v} IN
          IF hit # {} THEN Ok(<<d.variants[First(hit)].n, <<>>>>)
          ELSE FirstEmbedded(d, 1, v)

DecDef(d, v) ==
  IF d.kind = "struct"
  THEN IF d.transparent THEN Map1(DecField(d, d.fields[1], v), LAMBDA x : Ok(<<x>>))
       ELSE IF d.shape = "unit" THEN (IF IsNullish(v) THEN Ok(<<>>) ELSE Open)  \* it has no contents to look at
       ELSE DecFields(d, d.fields, d.shape = "tuple" \/ d.as_array, d.allow_unknown, v)
  ELSE IF d.tag # <<>> THEN DecTagged(d, v) ELSE DecExternal(d, v)

DecItems(ty, s) == All([i \in 1..Len(s) |-> DecT(ty, s[i])])
\* At element positions.
DecT(ty, v) ==
  CASE ty.t = "u" -> IF v[1] # 0 THEN TypeErr ELSE IF FitsU(v[2], ty.w) THEN Ok(v) ELSE SizeErr
    [] ty.t = "i" -> IF v[1] \notin {0, 1} THEN TypeErr ELSE IF FitsI(v[2], ty.w) THEN Ok(v) ELSE SizeErr
    [] ty.t = "u128" -> IF v[1] # 2 THEN TypeErr ELSE IF Len(v[2]) > 16 THEN SizeErr ELSE Ok(StripZeros(v[2]))
    [] ty.t = "char" -> IF v[1] # 0 THEN TypeErr ELSE IF IsScalar(v[2]) THEN Ok(v[2])
                        ELSE Er({"UnexpectedType", "UnexpectedIntegerSize"})
    [] ty.t = "bool" -> IF v = VTrue THEN Ok(1) ELSE IF v = VFalse THEN Ok(0) ELSE TypeErr
    [] ty.t = "str" -> IF v[1] = 3 THEN Ok(v[2]) ELSE TypeErr
    [] ty.t = "bytes" -> IF v[1] = 2 THEN Ok(v[2]) ELSE TypeErr
    [] ty.t = "barr" -> IF v[1] = 2 /\ Len(v[2]) = ty.n THEN Ok(v[2]) ELSE TypeErr
    [] ty.t = "unit" -> IF IsNullish(v) THEN Ok(<<>>) ELSE TypeErr
    [] ty.t = "value" -> Ok(v)
    [] ty.t = "vec" -> IF v[1] = 4 THEN DecItems(ty.e, v[2]) ELSE TypeErr
    [] ty.t \in {"bset", "hset"} -> IF v[1] = 4 THEN NoDups(DecItems(ty.e, v[2])) ELSE TypeErr
    [] ty.t = "arr" -> IF v[1] # 4 THEN TypeErr
                       ELSE AndAlso(DecItems(ty.e, v[2]), IF Len(v[2]) # ty.n THEN {"UnexpectedType"} ELSE {})
    [] ty.t = "tup" -> IF v[1] # 4 THEN TypeErr
                       ELSE All([i \in 1..Len(ty.es) |-> IF i > Len(v[2]) THEN Missing ELSE DecT(ty.es[i], v[2][i])])
    [] ty.t = "opt" -> IF v = VNull THEN Ok(<<>>) ELSE Map1(DecT(ty.e, v), LAMBDA x : Ok(<<x>>))
    [] ty.t \in {"bmap", "hmap"} ->
         IF v[1] # 5 THEN TypeErr
         ELSE LET ks == All([i \in 1..Len(v[2]) |-> DecT(ty.k, v[2][i][1])])
                  xs == All([i \in 1..Len(v[2]) |-> DecT(ty.v, v[2][i][2])])
              IN IF ks.k = "err" THEN AndAlso(xs, ks.es)
                 ELSE IF xs.k = "err" THEN AndAlso(ks, xs.es)
                 ELSE IF ks.k = "any" \/ xs.k = "any" THEN Open
                 ELSE IF Cardinality({ks.x[i] : i \in 1..Len(ks.x)}) # Len(ks.x) THEN Open
                 ELSE Ok([i \in 1..Len(ks.x) |-> <<ks.x[i], xs.x[i]>>])
    [] OTHER -> DecDef(Defs[ty.n], v)

-----------------------------------------------------------------------------
\* The type can be decoded as well.
RECURSIVE Decodable(_)
Decodable(ty) ==
  CASE ty.t = "bor" -> FALSE
    [] ty.t = "ref" -> Defs[ty.n].der # "enc"
    [] ty.t \in {"vec", "arr", "opt", "bset", "hset"} -> Decodable(ty.e)
    [] ty.t \in {"bmap", "hmap"} -> Decodable(ty.k) /\ Decodable(ty.v)
    [] ty.t = "tup" -> \A i \in 1..Len(ty.es) : Decodable(ty.es[i])
    [] OTHER -> TRUE

(* Which types must round-trip.                                            *)

\* No datum of the type encodes to null or undefined.
RECURSIVE NullFree(_), LosslessBut(_, _, _)
NullFree(ty) ==
  CASE ty.t \in {"unit", "opt", "value"} -> FALSE
    [] ty.t = "ref" -> LET d == Defs[ty.n] IN
         IF d.kind = "struct"
         THEN d.shape # "unit" /\ (d.transparent => d.fields[1].ser = "" /\ NullFree(FTy(d, d.fields[1])))
         ELSE \A i \in 1..Len(d.variants) :
                LET w == d.variants[i] IN
                ~w.skip /\ ((w.embed \/ (d.untagged /\ w.shape = "newtype")) => NullFree(FTy(d, w.fields[1])))
    [] OTHER -> TRUE

Inverses == {<<"", "">>, <<"conv::not", "conv::un_not">>, <<"conv::succ", "conv::pred">>,
             <<"conv::wrap", "conv::unwrap">>, <<"conv::nonzero", "conv::or_zero">>}

\* Nothing in the type's annotations is one-sided or lossy (dflt: at a position
\* where null stands for the default).
LosslessField(d, f, array, seen) ==
  /\ ~f.skip
  /\ <<f.ser, f.de>> \in Inverses
  /\ f.ser = "" => LosslessBut(FTy(d, f), TRUE, seen)
  /\ (f.optional /\ ~array) => /\ f.skipif \in {"", "conv::never", "Option::is_none"}
                               /\ FTy(d, f).t # "ref"
\* The entries of a variant may have the key that the tag has; such data have
\* two entries with the same key, and hence no encoding.
Clash(d) == d.tag # <<>> /\ \E i \in 1..Len(d.variants) :
              LET w == d.variants[i] IN
              \/ w.shape = "named" /\ \E j \in 1..Len(w.fields) : ~w.fields[j].skip /\ w.fields[j].key = d.tag
              \/ w.shape = "newtype" /\ FTy(d, w.fields[1]).t \in {"bmap", "hmap"} /\ FTy(d, w.fields[1]).k.t = "str" /\ d.tag[1] = 3
\* seen: definitions already under way.
LosslessBut(ty, dflt, seen) ==
  LET Lossless(t, b) == LosslessBut(t, b, seen)
      Field(d, f, array) == LosslessField(d, f, array, seen \cup {d.n}) IN
  CASE ty.t = "ref" /\ ty.n \in seen -> TRUE
    [] ty.t = "value" -> ~dflt
    [] ty.t \in {"vec", "arr", "bset", "hset"} -> Lossless(ty.e, FALSE)
    [] ty.t = "opt" -> NullFree(ty.e) /\ Lossless(ty.e, FALSE)
    [] ty.t = "tup" -> \A i \in 1..Len(ty.es) : Lossless(ty.es[i], FALSE)
    [] ty.t \in {"bmap", "hmap"} -> Lossless(ty.k, FALSE) /\ Lossless(ty.v, FALSE)
    [] ty.t = "ref" ->
         LET d == Defs[ty.n] IN
         /\ d.der = "both"
         /\ IF d.kind = "struct"
            THEN IF d.shape = "unit" THEN dflt => (~d.no_default)
                 ELSE /\ \A i \in 1..Len(d.fields) :
                           Field(d, d.fields[i], d.shape = "tuple" \/ d.as_array \/ d.transparent)
                      /\ d.transparent => NullFree(FTy(d, d.fields[1])) /\ d.fields[1].ser # "conv::nonzero"
            ELSE /\ ~d.untagged
                 /\ ~Clash(d)
                 /\ \A i \in 1..Len(d.variants) :
                      LET w == d.variants[i] IN
                      /\ ~w.skip /\ ~w.embed
                      /\ \A j \in 1..Len(w.fields) :
                           Field(d, w.fields[j], w.shape \in {"tuple", "newtype"} \/ w.as_array)
    [] OTHER -> TRUE

Lossless(ty, dflt) == LosslessBut(ty, dflt, {})

\* The type may be used where an always-a-map type is demanded.
IsMapType(ty) ==
  CASE ty.t \in {"bmap", "hmap"} -> TRUE
    [] ty.t = "ref" ->
         LET d == Defs[ty.n] IN
         IF d.kind = "struct" THEN d.shape = "named" /\ ~d.as_array /\ ~d.transparent
         ELSE /\ ~d.untagged /\ Len(d.variants) > 0
              /\ \A i \in 1..Len(d.variants) :
                   LET w == d.variants[i] IN
                   ~w.skip /\ ~w.embed /\ ~IsUnitVar(d, w)
    [] OTHER -> FALSE

=============================================================================
