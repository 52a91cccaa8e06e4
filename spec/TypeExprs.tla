------------------------------ MODULE TypeExprs ------------------------------
(***************************************************************************)
(* How definitions are written down in the catalogues.                     *)
(***************************************************************************)
EXTENDS CborValue, TLC

\* ASCII codes of the characters used in identifiers and keys.
Letters == [a |-> 97, b |-> 98, c |-> 99, d |-> 100, e |-> 101, f |-> 102, g |-> 103, h |-> 104, i |-> 105, j |-> 106,
            k |-> 107, l |-> 108, m |-> 109, n |-> 110, o |-> 111, p |-> 112, q |-> 113, r |-> 114, s |-> 115, t |-> 116,
            u |-> 117, v |-> 118, w |-> 119, x |-> 120, y |-> 121, z |-> 122, A |-> 65, B |-> 66, C |-> 67, D |-> 68,
            E |-> 69, F |-> 70, G |-> 71, H |-> 72, I |-> 73, J |-> 74, K |-> 75, L |-> 76, M |-> 77, N |-> 78, O |-> 79,
            P |-> 80, Q |-> 81, R |-> 82, S |-> 83, T |-> 84, U |-> 85, V |-> 86, W |-> 87, X |-> 88, Y |-> 89, Z |-> 90]
CodeOf(c) == IF c \in DOMAIN Letters THEN Letters[c]
             ELSE IF c = "_" THEN 95 ELSE 48 + (CHOOSE d \in 0..9 : ToString(d) = c)
StrBytes(s) == TLCEval([i \in 1..Len(s) |-> CodeOf(SubSeq(s, i, i))])
Txt(s) == Text(StrBytes(s))

-----------------------------------------------------------------------------
U(w) == [t |-> "u", w |-> w]
I(w) == [t |-> "i", w |-> w]
P(t) == [t |-> t]
\* A reference, which can be encoded only.
Bor(e) == [t |-> "bor", e |-> e]
Vec(e) == [t |-> "vec", e |-> e]
Arr(e, n) == [t |-> "arr", e |-> e, n |-> n]
BArr(n) == [t |-> "barr", n |-> n]
Tup(es) == [t |-> "tup", es |-> es]
Opt(e) == [t |-> "opt", e |-> e]
BMap(k, v) == [t |-> "bmap", k |-> k, v |-> v]
HMap(k, v) == [t |-> "hmap", k |-> k, v |-> v]
BSet(e) == [t |-> "bset", e |-> e]
HSet(e) == [t |-> "hset", e |-> e]
Ref(n) == [t |-> "ref", n |-> n]
Par == [t |-> "par"]
\* A Rust type that is none of the above, with what it implements.
Raw(s, enc, dec, dflt) == [t |-> "raw", s |-> s, enc |-> enc, dec |-> dec, dflt |-> dflt]
u8 == U(1)
u16 == U(2)
u64 == U(8)
str == P("str")
bool == P("bool")
bytes == P("bytes")
unit == P("unit")

\* Fields; rn: the key is given by an annotation.
F(n, ty) == [n |-> n, ty |-> ty, key |-> Txt(n), rn |-> FALSE, optional |-> FALSE, skip |-> FALSE,
             skipif |-> "", ser |-> "", de |-> "", flatten |-> FALSE, raw |-> ""]
Key(f, k) == [f EXCEPT !.key = k, !.rn = TRUE]
Optional(f) == [f EXCEPT !.optional = TRUE]
SkipF(f) == [f EXCEPT !.skip = TRUE]
SkipIf(f, p) == [f EXCEPT !.optional = TRUE, !.skipif = p]
Conv(f, s, d) == [f EXCEPT !.ser = s, !.de = d]

\* In all definitions, raw is the text of further annotations (misplaced or malformed ones).

\* Structs.  head: type parameters; bare: nothing implements Default.  dflt: <<>> for derived Default, else <<datum>>.
S(n, shape, fields) ==
  [n |-> n, kind |-> "struct", shape |-> shape, fields |-> fields, transparent |-> FALSE, as_array |-> FALSE,
   no_default |-> FALSE, with_default |-> FALSE, allow_unknown |-> FALSE, dflt |-> <<>>, der |-> "both",
   par |-> unit, generic |-> "", tag |-> <<>>, content |-> <<>>, untagged |-> FALSE, variants |-> <<>>,
   raw |-> "", head |-> "", bare |-> FALSE]
Named(n, fields) == S(n, "named", fields)
Tuple(n, tys) == S(n, "tuple", [i \in 1..Len(tys) |-> F("f", tys[i])])
AsArray(d) == [d EXCEPT !.as_array = TRUE]
Transparent(d) == [d EXCEPT !.transparent = TRUE]
AllowUnknown(d) == [d EXCEPT !.allow_unknown = TRUE]
NoDefault(d) == [d EXCEPT !.no_default = TRUE]
WithDefault(d, x) == [d EXCEPT !.with_default = TRUE, !.dflt = <<x>>]
Dflt(d, x) == [d EXCEPT !.dflt = <<x>>]
\* One instance of a generic definition.
Generic(d, base, ty) == [d EXCEPT !.generic = base, !.par = ty]
\* A definition that refers to itself comes with its sample data.
Recursive(d, eg) == d @@ [eg |-> eg]

\* Enums.
E(n, vs) == [S(n, "enum", <<>>) EXCEPT !.kind = "enum", !.variants = vs]
Tagged(d, k) == [d EXCEPT !.tag = k]
\* Only with serde: the contents have a key of their own.
Adjacent(d, k, c) == [d EXCEPT !.tag = k, !.content = c]
Var(n, shape, fields) ==
  [n |-> n, shape |-> shape, fields |-> fields, key |-> Txt(n), rn |-> FALSE, disc |-> <<>>, as_array |-> FALSE,
   as_struct |-> FALSE, skip |-> FALSE, embed |-> FALSE, allow_unknown |-> FALSE, missing |-> FALSE, raw |-> ""]
VUnit(n) == Var(n, "unit", <<>>)
VNew(n, ty) == Var(n, "newtype", <<F("f", ty)>>)
VTup(n, tys) == Var(n, "tuple", [i \in 1..Len(tys) |-> F("f", tys[i])])
VNamed(n, fields) == Var(n, "named", fields)
VKey(v, k) == [v EXCEPT !.key = k, !.rn = TRUE]
Disc(v, k) == [v EXCEPT !.disc = k]
VSkip(v) == [v EXCEPT !.skip = TRUE]
Embed(v) == [v EXCEPT !.embed = TRUE]
AsStruct(v) == [v EXCEPT !.as_struct = TRUE]
VArray(v) == [v EXCEPT !.as_array = TRUE]
VUnknown(v) == [v EXCEPT !.allow_unknown = TRUE]
MissingV(v) == [v EXCEPT !.missing = TRUE]
=============================================================================
