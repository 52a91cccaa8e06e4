------------------------------ MODULE TypeData ------------------------------
(***************************************************************************)
(* What the native typed layer and the serde layer share: types, how their *)
(* data is represented, and outcomes.                                      *)
(*                                                                         *)
(* Type expressions are records with field t:                              *)
(*   u, i (width w bytes), u128, bool, str, char, bytes, barr (n), unit,   *)
(*   value, bor (e: a reference), vec (e), arr (e, n), tup (es), opt (e), bmap/hmap (k, v),      *)
(*   bset/hset (e), ref (n: name of a definition), par (a type parameter); *)
(*   only with serde: f (w), bbuf (byte buffer), dyn (whatever there is),  *)
(*   pairs (k, v: a map kept as a sequence), human (a string that is text  *)
(*   where the format is said to be readable by humans).                   *)
(*                                                                         *)
(* Data of these types is represented as                                   *)
(*   integers: the CBOR integer; u128 and char: digits; bool: 0 or 1;      *)
(*   strings and bytes: sequence of bytes; unit: <<>>; option: <<>> or     *)
(*   <<x>>; sequences and sets: sequence of items; maps: sequence of       *)
(*   pairs; structs: sequence of field data in declaration order; enums:   *)
(*   <<variant name, sequence of field data>>; value, dyn: the value.      *)
(***************************************************************************)
EXTENDS CborCodec, CatalogueData

-----------------------------------------------------------------------------
(* Outcomes: data, a set of errors any of which is admissible, or open.    *)
Ok(x) == [k |-> "ok", x |-> x]
Er(es) == [k |-> "err", es |-> es]
Open == [k |-> "any"]
AllErrs == {"UnexpectedType", "MissingField", "UnknownField", "UnexpectedIntegerSize"}
           \cup {"other", "unsupported", "value:UnexpectedType", "value:UnexpectedIntegerSize"}   \* those of serde
Map1(r, f(_)) == Now(LAMBDA q, z : IF q.k = "ok" THEN f(q.x) ELSE q, r, 0)

\* All parts must succeed; an error of any offending part may be reported.
All(results) == Now(LAMBDA rs, z :
  LET bad == {i \in 1..Len(rs) : rs[i].k = "err"}
      open == \E i \in 1..Len(rs) : rs[i].k = "any"
  IN IF bad # {} THEN Er((IF open THEN AllErrs ELSE {}) \cup UNION {rs[i].es : i \in bad})
     ELSE IF open THEN Open
     ELSE Ok([i \in 1..Len(rs) |-> rs[i].x]), <<>> \o results, 0)
AndAlso(r, es) ==   \* r, but es (if non-empty) is also reason to fail
  IF es = {} THEN r ELSE Er(es \cup (IF r.k = "err" THEN r.es ELSE IF r.k = "any" THEN AllErrs ELSE {}))

-----------------------------------------------------------------------------
(* Types named in the specification, and the predicates definitions name.  *)
U8 == [t |-> "u", w |-> 1]
U64 == [t |-> "u", w |-> 8]
BoolT == [t |-> "bool"]
Pred(fn, x) == CASE fn = "conv::is_two" -> x = Uint(2)
                 [] fn = "conv::always" -> TRUE
                 [] fn = "conv::never" -> FALSE
                 [] fn = "Option::is_none" -> x = <<>>

-----------------------------------------------------------------------------
(* The order of set elements (Rust's Ord for the types used in BTreeSet).  *)
RECURSIVE RustCmp(_, _, _), RustCmpSeq(_, _, _, _)
RustCmpSeq(tys, a, b, i) ==
  IF i > Len(a) /\ i > Len(b) THEN 0
  ELSE IF i > Len(a) THEN -1 ELSE IF i > Len(b) THEN 1
  ELSE LET c == RustCmp(tys[i], a[i], b[i]) IN IF c # 0 THEN c ELSE RustCmpSeq(tys, a, b, i + 1)
RustCmp(ty, a, b) ==
  CASE ty.t \in {"u", "i"} -> IF a[1] # b[1] THEN (IF a[1] = 1 THEN -1 ELSE 1)
                              ELSE IF a[1] = 0 THEN NatCmp(a[2], b[2]) ELSE NatCmp(b[2], a[2])
    [] ty.t \in {"u128", "char"} -> NatCmp(a, b)
    [] ty.t = "bool" -> IntCmp(a, b)
    [] ty.t \in {"str", "human", "bytes", "barr"} -> LexCmp(a, b)
    [] ty.t = "tup" -> RustCmpSeq(ty.es, a, b, 1)
    [] ty.t \in {"vec", "arr"} -> RustCmpSeq([i \in 1..(Len(a) + Len(b)) |-> ty.e], a, b, 1)
    [] ty.t = "bor" -> RustCmp(ty.e, a, b)
    [] ty.t = "opt" -> RustCmpSeq(<<ty.e>>, a, b, 1)
    [] OTHER -> 0

SortBy(cmp(_, _), s) == SortSeq(s, LAMBDA a, b : cmp(a, b) < 0)

-----------------------------------------------------------------------------
VarOf(d, n) == d.variants[CHOOSE i \in 1..Len(d.variants) : d.variants[i].n = n]
IsRecursive(d) == "eg" \in DOMAIN d
FTy(d, f) == IF f.ty.t = "par" THEN d.par ELSE f.ty

RECURSIVE RustDefault(_)
Zero(ty) == CASE ty.t \in {"u", "i"} -> Uint(0)
              [] ty.t = "bool" -> 0
              [] ty.t = "barr" -> Zeros(ty.n)
              [] OTHER -> <<>>
\* Rust's Default.
RustDefault(ty) ==
  CASE ty.t = "tup" -> [i \in 1..Len(ty.es) |-> RustDefault(ty.es[i])]
    [] ty.t = "arr" -> [i \in 1..ty.n |-> RustDefault(ty.e)]
    [] ty.t = "ref" -> LET d == Defs[ty.n] IN
                       IF d.dflt # <<>> THEN d.dflt[1]
                       ELSE [i \in 1..Len(d.fields) |-> RustDefault(FTy(d, d.fields[i]))]
    [] OTHER -> Zero(ty)

IsScalar(n) == \/ Len(n) <= 1 \/ (Len(n) = 2 /\ n[1] \notin 216..223) \/ (Len(n) = 3 /\ n[1] <= 16)

HasDupKeys(ps) == Cardinality({Enc(ps[i][1]) : i \in 1..Len(ps)}) # Len(ps)
Find(ps, key) == {i \in 1..Len(ps) : ps[i][1] = key}

NoDups(r) == IF r.k = "ok" /\ Cardinality({r.x[i] : i \in 1..Len(r.x)}) # Len(r.x) THEN Open ELSE r

-----------------------------------------------------------------------------
(* Comparing data: sets and maps have no order.                            *)
RECURSIVE Norm(_, _)
Norm(ty, x) ==
  CASE ty.t \in {"vec", "arr"} -> [i \in 1..Len(x) |-> Norm(ty.e, x[i])]
    [] ty.t \in {"bset", "hset"} -> {Norm(ty.e, x[i]) : i \in 1..Len(x)}
    [] ty.t \in {"bmap", "hmap"} -> {<<Norm(ty.k, x[i][1]), Norm(ty.v, x[i][2])>> : i \in 1..Len(x)}
    [] ty.t = "pairs" -> [i \in 1..Len(x) |-> <<Norm(ty.k, x[i][1]), Norm(ty.v, x[i][2])>>]
    [] ty.t = "tup" -> [i \in 1..Len(x) |-> Norm(ty.es[i], x[i])]
    [] ty.t = "opt" -> IF x = <<>> THEN <<>> ELSE <<Norm(ty.e, x[1])>>
    [] ty.t = "ref" ->
         LET d == Defs[ty.n] IN
         IF d.kind = "struct" THEN [i \in 1..Len(x) |-> Norm(FTy(d, d.fields[i]), x[i])]
         ELSE LET w == VarOf(d, x[1]) IN <<x[1], [i \in 1..Len(x[2]) |-> Norm(FTy(d, w.fields[i]), x[2][i])]>>
    [] OTHER -> x
Same(ty, a, b) == Norm(ty, a) = Norm(ty, b)

=============================================================================
