------------------------------- MODULE Samples -------------------------------
(***************************************************************************)
(* Sample data of every type, and the edits that encoded data undergo.     *)
(***************************************************************************)
EXTENDS TypeData

-----------------------------------------------------------------------------
(* Sample data of every type, small but at the boundaries.                 *)
Bytes(s) == <<2, s>>
Array(s) == <<4, s>>
Map(ps) == <<5, ps>>
Tag(n, v) == <<6, n, v>>
RECURSIVE NullWithin(_)
NullWithin(v) == CASE v[1] = 4 -> \E i \in 1..Len(v[2]) : NullWithin(v[2][i])
                   [] v[1] = 5 -> \E i \in 1..Len(v[2]) : NullWithin(v[2][i][1]) \/ NullWithin(v[2][i][2])
                   [] v[1] = 6 -> NullWithin(v[3])
                   [] OTHER -> IsNullish(v)
Cap(s, n) == SubSeq(s, 1, IF Len(s) < n THEN Len(s) ELSE n)
UMax(w) == [i \in 1..w |-> 255]
IMax(w) == <<127>> \o [i \in 1..(w - 1) |-> 255]

RECURSIVE Samples(_), RecordSamples(_), ElemSamples(_)
\* For a record of fields with the given samples: one typical record and every
\* record that differs from it in one field, and the one of all first samples.
Forced(s) == TLCEval(<<>> \o s)
RecordSamples(seqs) ==
  LET ss == Forced(seqs) IN Forced(
  IF Len(ss) = 0 THEN << <<>> >>
  ELSE LET base == Forced([i \in 1..Len(ss) |-> IF Len(ss[i]) > 1 THEN ss[i][2] ELSE ss[i][1]])
       IN << [i \in 1..Len(ss) |-> ss[i][1]] >> \o
          FlattenSeq([i \in 1..Len(ss) |-> [j \in 1..Len(ss[i]) |-> [base EXCEPT ![i] = ss[i][j]]]]))
Distinct(s) == FoldLeft(LAMBDA acc, x : IF \E i \in 1..Len(acc) : acc[i] = x THEN acc ELSE Append(acc, x), <<>>, s)
\* Samples of elements: fewer for composed types.
ElemSamples(ty) == LET s == Samples(ty) IN IF ty.t \in {"ref", "tup"} /\ Len(s) > 5 THEN [i \in 1..5 |-> s[((i - 1) * Len(s)) \div 5 + 1]] ELSE s
FieldSamples(d, f) == IF f.ser = "conv::succ" THEN << Uint(0), Uint(7), Uint(255) >> ELSE Samples(FTy(d, f))

Samples(ty) == Forced(
  CASE ty.t = "u" -> << Uint(0), Uint(2), Uint(24), <<0, UMax(ty.w)>> >> \o
                     (IF ty.w > 1 THEN << <<0, <<1>> \o Zeros(ty.w - 1)>>, Uint(3) >> ELSE <<>>)
    [] ty.t = "i" -> << Uint(0), Uint(1), Nint(-1), Nint(-25), <<0, IMax(ty.w)>>, <<1, IMax(ty.w)>> >>
    [] ty.t = "u128" -> << <<>>, <<1>>, <<1, 0>>, UMax(8), <<1>> \o Zeros(8), UMax(16) >>
    [] ty.t = "char" -> << <<>>, <<97>>, <<255>>, <<215, 255>>, <<224, 0>>, <<16, 255, 255>> >>
    [] ty.t = "bool" -> << 0, 1 >>
    [] ty.t \in {"str", "human"} -> << <<>>, <<97>>, <<122, 122>>, <<195, 169, 0>> >>
    [] ty.t \in {"bytes", "bbuf"} -> << <<>>, <<0>>, <<255, 0, 1>> >>
    [] ty.t = "barr" -> IF ty.n = 0 THEN << <<>> >> ELSE << Zeros(ty.n), [i \in 1..ty.n |-> 256 - i] >>
    [] ty.t = "unit" -> << <<>> >>
    [] ty.t = "bor" -> Samples(ty.e)
    [] ty.t = "value" -> << VNull, Uint(1), VUndef, Array(<<Text(<<97>>)>>), Map(<< <<Uint(1), VFalse>> >>), Tag(<<7>>, VTrue) >>
    [] ty.t = "f" -> << <<>> >>
    [] ty.t = "dyn" -> << VNull, Uint(1), <<0, UMax(8)>>, <<1, IMax(8)>>, <<1, <<128>> \o Zeros(7)>>, VTrue, Bytes(<<1>>), Array(<<Text(<<97>>), Array(<<>>)>>),
                          Map(<< <<Uint(9), VFalse>>, <<Text(<<>>), Map(<<>>)>> >>) >>
    [] ty.t = "pairs" -> LET k == Forced(ElemSamples(ty.k))
                             v == Samples(ty.v)
                             ent(i) == <<k[i], v[((i - 1) % Len(v)) + 1]>>
                         IN << <<>>, <<ent(1)>>, [i \in 1..Len(k) |-> ent(i)], Reverse([i \in 1..Len(k) |-> ent(i)]), <<ent(1), ent(2), ent(1)>> >>
    [] ty.t = "vec" -> LET e == Forced(ElemSamples(ty.e)) IN << <<>>, Cap(e, 2), <<e[1]>>, e, IF ty.e.t = "ref" THEN Reverse(e) ELSE e \o e >>
    [] ty.t \in {"bset", "hset"} -> LET e == Distinct(ElemSamples(ty.e)) IN << <<>>, Cap(e, 2), <<e[1]>>, e, Reverse(e) >>
    [] ty.t = "arr" -> LET e == Samples(ty.e) IN
                       << [i \in 1..ty.n |-> e[1]], [i \in 1..ty.n |-> e[((i - 1) % Len(e)) + 1]],
                          [i \in 1..ty.n |-> e[Len(e) - ((i - 1) % Len(e))]] >>
    [] ty.t = "tup" -> RecordSamples([i \in 1..Len(ty.es) |-> Samples(ty.es[i])])
    [] ty.t = "opt" -> LET e == Samples(ty.e) IN << <<>> >> \o [i \in 1..Len(e) |-> <<e[i]>>]
    [] ty.t \in {"bmap", "hmap"} ->
         LET k == Distinct(ElemSamples(ty.k))
             v == Samples(ty.v)
             ent(i) == <<k[i], v[((i - 1) % Len(v)) + 1]>>
         IN << <<>>, <<ent(1)>>, [i \in 1..Len(k) |-> ent(i)], Reverse([i \in 1..Len(k) |-> ent(i)]) >>
    [] ty.t = "ref" ->
         LET d == Defs[ty.n] IN
         IF IsRecursive(d) THEN d.eg
         ELSE IF d.kind = "struct" THEN RecordSamples([i \in 1..Len(d.fields) |-> FieldSamples(d, d.fields[i])])
         ELSE FlattenSeq([i \in 1..Len(d.variants) |->
                LET w == d.variants[i]
                    r == RecordSamples([j \in 1..Len(w.fields) |-> FieldSamples(d, w.fields[j])])
                IN [j \in 1..Len(r) |-> <<w.n, r[j]>>]]))

-----------------------------------------------------------------------------
(* Edits.                                                                  *)
Pool == { VNull, VUndef, VTrue, VFalse, Uint(0), Uint(1), Uint(2), Uint(128), Uint(255), Uint(256), Uint(65536), Uint(70000),
          <<0, <<127, 255>>>>, <<0, <<128, 0>>>>, <<0, <<127, 255, 255, 255>>>>, <<0, <<128, 0, 0, 0>>>>, <<0, <<1, 0, 0, 0, 0>>>>, <<0, IMax(8)>>,
          <<0, <<128>> \o Zeros(7)>>, <<0, UMax(8)>>, <<0, <<216, 0>>>>, <<0, <<17, 0, 0>>>>,
          Nint(-1), Nint(-3), <<1, <<127>>>>, <<1, <<128>>>>, <<1, <<127, 255>>>>, <<1, <<128, 0>>>>, <<1, IMax(4)>>, <<1, <<128, 0, 0, 0>>>>, <<1, IMax(8)>>,
          <<1, <<128>> \o Zeros(7)>>, <<1, UMax(8)>>,
          Bytes(<<>>), Bytes(<<1>>), Bytes(<<0, 1>>), Bytes(<<9, 8>>), Bytes(<<1>> \o Zeros(15)), Bytes(<<0>> \o UMax(16)),
          Text(<<>>), Text(<<97>>), Array(<<>>), Array(<<Uint(1)>>), Array(<<Uint(1), Uint(2)>>), Array(<<Uint(2), Uint(1), Uint(1)>>), Array(<<VNull>>),
          Array(<<Uint(1), Text(<<97>>)>>), Array(<<Text(<<97>>), Uint(1)>>), Array(<<VUndef, VNull>>),
          Map(<<>>), Map(<< <<Text(<<97>>), Uint(1)>> >>), Map(<< <<Uint(1), Uint(1)>> >>), Map(<< <<Text(<<120>>), Uint(1)>> >>),
          Map(<< <<Uint(0), VNull>>, <<Text(<<97>>), Uint(1)>> >>),
          Map(<< <<Text(<<120>>), Uint(1)>>, <<Text(<<121>>), Uint(2)>> >>),
          Tag(<<>>, Uint(1)), Tag(<<2>>, Bytes(<<1>>)) }
Simples == { VNull, VUndef, VTrue, VFalse, Uint(0), Array(<<>>), Map(<<>>) }
FewValues == { VNull, Uint(0), Text(<<120>>), Map(<<>>), Array(<<Uint(1)>>) }
ForeignKeys == { Uint(0), Uint(25), Nint(-1), Text(<<>>), Text(<<109>>), Text(<<122, 122, 122, 122>>), VNull }

\* The keys that play a role in a type.
RECURSIVE KeysBut(_, _)
KeysBut(ty, seen) ==
  LET KeysOf(t) == KeysBut(t, IF ty.t = "ref" THEN seen \cup {ty.n} ELSE seen) IN
  CASE ty.t = "ref" /\ ty.n \in seen -> {}
    [] ty.t = "ref" ->
         LET d == Defs[ty.n] IN
         (IF d.tag = <<>> THEN {} ELSE {d.tag})
         \cup UNION {{d.fields[i].key} \cup KeysOf(FTy(d, d.fields[i])) : i \in 1..Len(d.fields)}
         \cup UNION {{d.variants[i].key} \cup (IF d.variants[i].disc = <<>> THEN {} ELSE {d.variants[i].disc})
                     \cup UNION {(IF d.variants[i].shape = "named" THEN {d.variants[i].fields[j].key} ELSE {})
                                 \cup KeysOf(FTy(d, d.variants[i].fields[j])) : j \in 1..Len(d.variants[i].fields)}
                     : i \in 1..Len(d.variants)}
    [] ty.t \in {"opt", "vec", "arr", "bset", "hset"} -> KeysOf(ty.e)
    [] ty.t \in {"bmap", "hmap", "pairs"} -> KeysOf(ty.v)
    [] ty.t = "tup" -> UNION {KeysOf(ty.es[i]) : i \in 1..Len(ty.es)}
    [] OTHER -> {}

KeysOf(ty) == KeysBut(ty, {})

Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Put(s, i, x) == [s EXCEPT ![i] = x]
HasKey(ps, k) == \E i \in 1..Len(ps) : ps[i][1] = k

RECURSIVE EditsOf(_, _, _)
EditsOf(ks, v, top) ==
  (IF top \/ v[1] \notin {4, 5} THEN Pool \cup ks ELSE FewValues)
  \cup
  \* a name given contents
  (IF v \in ks THEN {Map(<< <<v, x>> >>) : x \in Simples} ELSE {})
  \cup
  CASE v[1] = 4 ->
         {Array(Without(v[2], i)) : i \in 1..Len(v[2])}
         \cup {Array(Append(v[2], x)) : x \in FewValues}
         \cup {Array(<<x>> \o v[2]) : x \in FewValues}
         \cup {Array(Reverse(v[2]))}
         \cup UNION {{Array(Put(v[2], i, x)) : x \in EditsOf(ks, v[2][i], FALSE)} : i \in 1..Len(v[2])}
    [] v[1] = 5 ->
         {Map(Without(v[2], i)) : i \in 1..Len(v[2])}
         \cup {Map(Reverse(v[2])), Map(Canon(v)[2])}
         \cup UNION {{Map(<< <<k, x>> >> \o v[2]) : x \in FewValues} : k \in {k \in ks \cup ForeignKeys : ~HasKey(v[2], k)}}
         \cup UNION {{Map(Put(v[2], i, <<k, v[2][i][2]>>)) : k \in {k \in ks \cup ForeignKeys : ~HasKey(v[2], k)}} : i \in 1..Len(v[2])}
         \cup UNION {{Map(Put(v[2], i, <<v[2][i][1], x>>)) : x \in EditsOf(ks, v[2][i][2], FALSE)} : i \in 1..Len(v[2])}
    [] v[1] = 6 -> {v[3]}
    [] v[1] \in {2, 3} -> {<<v[1], Append(v[2], 0)>>, <<5 - v[1], [i \in 1..Len(v[2]) |-> v[2][i] % 128]>>}
    [] OTHER -> {Tag(<<1>>, v)}

=============================================================================
