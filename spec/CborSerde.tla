------------------------------ MODULE CborSerde ------------------------------
(***************************************************************************)
(* The serde layer: what data of a type serializes to, and which items     *)
(* deserialize to which data, and the kind of error otherwise.  Where      *)
(* several things are wrong, or serde's own code decides, any kind will do *)
(* that the (de)serializer gives for data; what is wrong with bytes or in  *)
(* encoding them is told exactly.                                          *)
(***************************************************************************)
EXTENDS TypeData

Other == Er({"other"})
Unsupported == Er({"unsupported"})
Fail == Er({"other", "unsupported", "value:UnexpectedType", "value:UnexpectedIntegerSize"})
\* An item of the wrong kind.
Wrong(v) == IF v[1] = 6 THEN Unsupported ELSE Other

-----------------------------------------------------------------------------
(* Serialization.                                                          *)
OmittedS(f, x) == f.skip \/ (f.skipif # "" /\ Pred(f.skipif, x))

RECURSIVE SerT(_, _), SerFields(_, _, _), SerDef(_, _)

\* Named fields as the entries of a map.
SerFields(d, fs, xs) ==
  LET kept == SelectSeq([i \in 1..Len(fs) |-> i], LAMBDA i : ~OmittedS(fs[i], xs[i]))
      r == All([j \in 1..Len(kept) |-> SerT(FTy(d, fs[kept[j]]), xs[kept[j]])])
  IN Map1(r, LAMBDA vs : Ok(<<5, FlattenSeq([j \in 1..Len(kept) |->
                              IF fs[kept[j]].flatten THEN vs[j][2] ELSE << <<fs[kept[j]].key, vs[j]>> >>])>>))
SerSeq(d, fs, xs) ==
  LET kept == SelectSeq([i \in 1..Len(fs) |-> i], LAMBDA i : ~OmittedS(fs[i], xs[i]))
  IN Map1(All([j \in 1..Len(kept) |-> SerT(FTy(d, fs[kept[j]]), xs[kept[j]])]), LAMBDA vs : Ok(<<4, vs>>))

SerDef(d, x) ==
  IF d.kind = "struct"
  THEN CASE d.transparent -> SerT(FTy(d, d.fields[1]), x[1])
         [] d.shape = "unit" -> Ok(VNull)
         [] d.shape = "tuple" -> SerSeq(d, d.fields, x)
         [] OTHER -> SerFields(d, d.fields, x)
  ELSE LET w == VarOf(d, x[1])
           body == CASE w.shape = "unit" -> Ok(VNull)
                     [] w.shape = "newtype" -> Now(SerT, FTy(d, w.fields[1]), x[2][1])
                     [] w.shape = "tuple" -> SerSeq(d, w.fields, x[2])
                     [] OTHER -> SerFields(d, w.fields, x[2])
       IN IF w.skip THEN Other
          ELSE IF d.untagged THEN body
          ELSE IF d.tag # <<>>
          THEN Map1(body, LAMBDA v : Ok(<<5, << <<d.tag, w.key>> >> \o (IF w.shape = "unit" THEN <<>> ELSE IF d.content # <<>> THEN << <<d.content, v>> >> ELSE v[2])>>))
          ELSE IF w.shape = "unit" THEN Ok(w.key)
          ELSE Map1(body, LAMBDA v : Ok(<<5, << <<w.key, v>> >>>>))

\* Integers that serde can pass on.
FitsI64(v) == v[1] = 0 \/ FitsI(v[2], 8)
RECURSIVE DynSer(_)
DynSer(v) ==
  CASE v[1] = 1 -> IF FitsI64(v) THEN Ok(v) ELSE Fail
    [] v[1] = 6 -> Fail
    [] v = VUndef -> Ok(VNull)
    [] v[1] = 4 -> Map1(All([i \in 1..Len(v[2]) |-> DynSer(v[2][i])]), LAMBDA x : Ok(<<4, x>>))
    [] v[1] = 5 -> LET ks == All([i \in 1..Len(v[2]) |-> DynSer(v[2][i][1])])
                       xs == All([i \in 1..Len(v[2]) |-> DynSer(v[2][i][2])])
                   IN IF ks.k = "err" \/ xs.k = "err" THEN Fail ELSE Ok(<<5, [i \in 1..Len(v[2]) |-> <<ks.x[i], xs.x[i]>>]>>)
    [] OTHER -> Ok(v)

SerT(ty, x) ==
  CASE ty.t \in {"u", "i"} -> IF ty.w > 8 THEN Other ELSE Ok(x)
    [] ty.t = "f" -> Unsupported
    [] ty.t = "u128" -> Ok(<<2, x>>)
    [] ty.t = "char" -> Ok(<<0, x>>)
    [] ty.t = "bool" -> Ok(IF x = 1 THEN VTrue ELSE VFalse)
    [] ty.t \in {"str", "human"} -> Ok(<<3, x>>)
    [] ty.t = "bbuf" -> Ok(<<2, x>>)
    [] ty.t = "unit" -> Ok(VNull)
    [] ty.t = "dyn" -> DynSer(x)
    [] ty.t \in {"vec", "arr"} -> Map1(All([i \in 1..Len(x) |-> SerT(ty.e, x[i])]), LAMBDA vs : Ok(<<4, vs>>))
    [] ty.t = "bset" -> LET s == SortBy(LAMBDA a, b : RustCmp(ty.e, a, b), x)
                        IN Map1(All([i \in 1..Len(s) |-> SerT(ty.e, s[i])]), LAMBDA vs : Ok(<<4, vs>>))
    [] ty.t = "tup" -> Map1(All([i \in 1..Len(x) |-> SerT(ty.es[i], x[i])]), LAMBDA vs : Ok(<<4, vs>>))
    [] ty.t = "opt" -> IF x = <<>> THEN Ok(VNull) ELSE Now(SerT, ty.e, x[1])
    [] ty.t \in {"bmap", "hmap", "pairs"} ->
         LET ks == All([i \in 1..Len(x) |-> SerT(ty.k, x[i][1])])
             vs == All([i \in 1..Len(x) |-> SerT(ty.v, x[i][2])])
         IN IF ks.k = "err" \/ vs.k = "err" THEN Fail
            ELSE Ok(<<5, [i \in 1..Len(x) |-> <<ks.x[i], vs.x[i]>>]>>)
    [] OTHER -> Now(SerDef, Defs[ty.n], x)

\* Serialization to bytes, which fails also for what cannot be encoded.
SerB(ty, x) == Map1(SerT(ty, x), LAMBDA v : IF EncErrs(v, 127) # {} THEN Er({"enc:" \o e : e \in EncErrs(v, 127)}) ELSE Ok(Enc(v)))

-----------------------------------------------------------------------------
(* Deserialization.                                                        *)
RECURSIVE DesT(_, _), DesDef(_, _), DesFields(_, _, _, _), AbsentT(_), HasTag(_), DynDes(_)

HasTag(v) ==
  CASE v[1] = 4 -> \E i \in 1..Len(v[2]) : HasTag(v[2][i])
    [] v[1] = 5 -> \E i \in 1..Len(v[2]) : HasTag(v[2][i][1]) \/ HasTag(v[2][i][2])
    [] v[1] = 6 -> TRUE
    [] OTHER -> FALSE
DynDes(v) ==
  CASE v = VUndef -> VNull
    [] v[1] = 4 -> <<4, [i \in 1..Len(v[2]) |-> DynDes(v[2][i])]>>
    [] v[1] = 5 -> <<5, [i \in 1..Len(v[2]) |-> <<DynDes(v[2][i][1]), DynDes(v[2][i][2])>>]>>
    [] OTHER -> v

\* What an absent field stands for.
AbsentT(ty) == IF ty.t = "opt" THEN Ok(<<>>)
               ELSE IF ty.t = "ref" /\ Defs[ty.n].transparent
               THEN Map1(AbsentT(FTy(Defs[ty.n], Defs[ty.n].fields[1])), LAMBDA x : Ok(<<x>>))
               ELSE Fail

\* serde identifiers: names as text or bytes, or positions.
Named1(i, key, k) == \/ k = key
                     \/ k[1] = 2 /\ k[2] = key[2]
                     \/ k[1] = 0 /\ k = Uint(i - 1)
IsIdent(k) == k[1] \in {0, 2, 3}

\* Leading elements.
DesSeq(tys, v) == IF v[1] # 4 THEN Wrong(v) ELSE IF Len(v[2]) < Len(tys) THEN Fail ELSE All([i \in 1..Len(tys) |-> DesT(tys[i], v[2][i])])

DesFields(d, fs, unknown, v) ==
  IF v[1] # 5 THEN Other
  ELSE LET ps == v[2]
           kept == SelectSeq([i \in 1..Len(fs) |-> i], LAMBDA i : ~fs[i].skip)
           pos(i) == Cardinality({j \in 1..i : ~fs[j].skip})
           at(i) == {j \in 1..Len(ps) : Named1(pos(i), fs[i].key, ps[j][1])}
           claimed == UNION {at(kept[i]) : i \in 1..Len(kept)}
           stray == (1..Len(ps)) \ claimed
           r == All([i \in 1..Len(fs) |->
                       IF fs[i].skip THEN Ok(RustDefault(FTy(d, fs[i])))
                       ELSE CASE Cardinality(at(i)) > 1 -> Fail
                              [] at(i) = {} -> IF fs[i].optional THEN Ok(RustDefault(FTy(d, fs[i]))) ELSE AbsentT(FTy(d, fs[i]))
                              [] OTHER -> DesT(FTy(d, fs[i]), ps[CHOOSE j \in at(i) : TRUE][2])])
       IN IF \E j \in 1..Len(ps) : ~IsIdent(ps[j][1]) THEN Fail
          ELSE IF r.k = "err" THEN r
          ELSE IF stray # {} /\ ~unknown THEN Fail
          ELSE IF \E j \in stray : HasTag(ps[j][2]) THEN Open   \* ignored, but tags are not supported
          ELSE r

DistinctKeys(fs) == Cardinality({fs[i].key : i \in 1..Len(fs)}) = Len(fs)
DesDef(d, v) ==
  IF d.kind = "struct"
  THEN CASE d.transparent -> Map1(DesT(FTy(d, d.fields[1]), v), LAMBDA x : Ok(<<x>>))
         [] d.shape = "unit" -> IF IsNullish(v) THEN Ok(<<>>) ELSE Wrong(v)
         [] d.shape = "tuple" -> DesSeq([i \in 1..Len(d.fields) |-> FTy(d, d.fields[i])], v)
         [] \E i \in 1..Len(d.fields) : d.fields[i].flatten -> Open
         [] ~DistinctKeys(d.fields) -> Open
         [] OTHER -> DesFields(d, d.fields, d.allow_unknown, v)
  ELSE IF d.tag # <<>> \/ d.untagged THEN Open     \* serde buffers these itself
  ELSE IF v[1] # 3 /\ ~(v[1] = 5 /\ Len(v[2]) = 1) THEN Other
  ELSE LET k == IF v[1] = 3 THEN v ELSE v[2][1][1]
           c == IF v[1] = 3 THEN VNull ELSE v[2][1][2]
           pos(i) == Cardinality({j \in 1..i : ~d.variants[j].skip})
           hit == {i \in 1..Len(d.variants) : ~d.variants[i].skip /\ Named1(pos(i), d.variants[i].key, k)}
       IN IF hit = {} THEN Wrong(k)
          ELSE LET w == d.variants[CHOOSE i \in hit : \A j \in hit : i <= j]
                   wrap(r) == Map1(r, LAMBDA x : Ok(<<w.n, x>>))
               IN CASE w.shape = "unit" -> IF c = VNull THEN Ok(<<w.n, <<>>>>) ELSE Other
                    [] w.shape = "newtype" -> Map1(Now(DesT, FTy(d, w.fields[1]), c), LAMBDA x : Ok(<<w.n, <<x>>>>))
                    [] w.shape = "tuple" -> wrap(DesSeq([i \in 1..Len(w.fields) |-> FTy(d, w.fields[i])], c))
                    [] OTHER -> wrap(DesFields(d, w.fields, d.allow_unknown, c))

DesItems(ty, s) == All([i \in 1..Len(s) |-> DesT(ty, s[i])])

DesT(ty, v) ==
  CASE ty.t = "u" -> IF v[1] = 0 /\ FitsU(v[2], ty.w) THEN Ok(v) ELSE Wrong(v)
    [] ty.t = "i" -> IF v[1] \in {0, 1} /\ (ty.w > 8 \/ FitsI(v[2], ty.w)) THEN Ok(v) ELSE Wrong(v)
    [] ty.t = "f" -> Unsupported
    [] ty.t = "u128" -> IF v[1] # 2 THEN Er({"value:UnexpectedType"})
                        ELSE IF Len(v[2]) > 16 THEN Er({"value:UnexpectedIntegerSize"}) ELSE Ok(StripZeros(v[2]))
    [] ty.t = "char" -> IF v[1] # 0 THEN Er({"value:UnexpectedType"})
                        ELSE IF ~IsScalar(v[2]) THEN Er({"value:UnexpectedType", "value:UnexpectedIntegerSize"}) ELSE Ok(v[2])
    [] ty.t = "bool" -> IF v = VTrue THEN Ok(1) ELSE IF v = VFalse THEN Ok(0) ELSE Wrong(v)
    [] ty.t \in {"str", "human"} -> IF v[1] = 3 \/ (v[1] = 2 /\ IsUtf8(v[2])) THEN Ok(v[2]) ELSE Wrong(v)
    [] ty.t = "bbuf" -> IF v[1] \in {2, 3} THEN Ok(v[2])
                        ELSE IF v[1] # 4 THEN Wrong(v)
                        ELSE Map1(DesItems(U8, v[2]), LAMBDA x : Ok([i \in 1..Len(x) |-> ToInt(x[i][2])]))
    [] ty.t = "unit" -> IF IsNullish(v) THEN Ok(<<>>) ELSE Wrong(v)
    [] ty.t = "dyn" -> IF HasTag(v) THEN Unsupported ELSE Ok(DynDes(v))
    [] ty.t = "vec" -> IF v[1] = 4 THEN DesItems(ty.e, v[2]) ELSE Other
    [] ty.t = "bset" -> IF v[1] = 4 THEN NoDups(DesItems(ty.e, v[2])) ELSE Other
    [] ty.t = "arr" -> DesSeq([i \in 1..ty.n |-> ty.e], v)
    [] ty.t = "tup" -> DesSeq(ty.es, v)
    [] ty.t = "opt" -> IF v = VNull THEN Ok(<<>>) ELSE Map1(Now(DesT, ty.e, v), LAMBDA x : Ok(<<x>>))
    [] ty.t \in {"bmap", "hmap", "pairs"} ->
         IF v[1] # 5 THEN Other
         ELSE LET ks == DesItems(ty.k, [i \in 1..Len(v[2]) |-> v[2][i][1]])
                  xs == DesItems(ty.v, [i \in 1..Len(v[2]) |-> v[2][i][2]])
              IN IF ks.k = "err" \/ xs.k = "err" THEN Fail
                 ELSE IF ks.k = "any" \/ xs.k = "any" THEN Open
                 ELSE IF ty.t # "pairs" /\ Cardinality({ks.x[i] : i \in 1..Len(ks.x)}) # Len(ks.x) THEN Open
                 ELSE Ok([i \in 1..Len(ks.x) |-> <<ks.x[i], xs.x[i]>>])
    [] OTHER -> Now(DesDef, Defs[ty.n], v)

\* From bytes: strict, at most 64 levels.
DesB(ty, b) == LET d == Decode(b, 64, TRUE) IN IF d.e # "" THEN Er({"byte:" \o d.e}) ELSE DesT(ty, d.v)

-----------------------------------------------------------------------------
(* Which types must round-trip.                                            *)
RECURSIVE NeverNull(_), LosslessBut(_, _)
NeverNull(ty) ==
  CASE ty.t \in {"unit", "opt", "dyn"} -> FALSE
    [] ty.t = "ref" -> LET d == Defs[ty.n] IN
                       IF IsRecursive(d) THEN TRUE
                       ELSE IF d.kind = "enum" THEN d.untagged => \A i \in 1..Len(d.variants) :
                              d.variants[i].shape # "unit" /\ (d.variants[i].shape = "newtype" => NeverNull(FTy(d, d.variants[i].fields[1])))
                       ELSE d.shape # "unit" /\ (d.transparent => NeverNull(FTy(d, d.fields[1])))
    [] OTHER -> TRUE
\* seen: definitions already under way.
LosslessF(d, f, seen) == /\ ~f.skip /\ f.skipif \in {"", "Option::is_none"} /\ LosslessBut(FTy(d, f), seen \cup {d.n})
LosslessBut(ty, seen) ==
  LET LosslessS(t) == LosslessBut(t, seen) IN
  CASE ty.t = "ref" /\ ty.n \in seen -> TRUE
    [] ty.t = "opt" -> NeverNull(ty.e) /\ LosslessS(ty.e)
    [] ty.t = "dyn" -> FALSE         \* undefined comes back as null
    [] ty.t \in {"vec", "arr", "bset"} -> LosslessS(ty.e)
    [] ty.t = "tup" -> \A i \in 1..Len(ty.es) : LosslessS(ty.es[i])
    [] ty.t \in {"bmap", "hmap"} -> LosslessS(ty.k) /\ LosslessS(ty.v)
    [] ty.t = "pairs" -> FALSE       \* may hold duplicate keys
    [] ty.t = "ref" ->
         LET d == Defs[ty.n] IN
         IF d.kind = "struct"
         THEN /\ \A i \in 1..Len(d.fields) : LosslessF(d, d.fields[i], seen)
              /\ DistinctKeys(d.fields) \/ d.shape # "named"
              /\ \A i \in 1..Len(d.fields) : d.fields[i].flatten => FTy(d, d.fields[i]).t = "ref"
         ELSE \A i \in 1..Len(d.variants) :
                /\ ~d.variants[i].skip
                /\ \A j \in 1..Len(d.variants[i].fields) : LosslessF(d, d.variants[i].fields[j], seen)
    [] OTHER -> TRUE
LosslessS(ty) == LosslessBut(ty, {})
=============================================================================
