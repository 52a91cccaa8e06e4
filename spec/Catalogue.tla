------------------------------ MODULE Catalogue ------------------------------
(***************************************************************************)
(* The types that the typed specification is checked on.  Each entry is    *)
(* rendered into a Rust type (tools/codegen.py) with the real derives, so  *)
(* the text below is the only description of the definitions.              *)
(***************************************************************************)
EXTENDS TypeExprs

-----------------------------------------------------------------------------
Prims == << U(1), U(2), U(4), U(8), I(1), I(2), I(4), I(8), P("u128"), bool, str, P("char"), bytes, unit, P("value") >>

Containers ==
  << Vec(u64), Vec(u16), Vec(str), Vec(Vec(u64)), Vec(Opt(u64)), Vec(unit), Vec(bool), Vec(bytes), Vec(P("value")),
     Vec(P("u128")), Vec(Tup(<<u8, str>>)), Vec(I(4)),
     Arr(u64, 2), Arr(str, 1), Arr(Opt(u8), 3), Arr(u16, 0), Arr(Vec(u16), 2), BArr(0), BArr(3), BArr(32),
     Tup(<<u64>>), Tup(<<u8, str>>), Tup(<<Opt(u64), bool, Vec(u64)>>), Tup(<<str, Arr(u64, 2)>>), Tup(<<Tup(<<u8, u8>>), unit>>),
     Tup(<<u8, u8, u8, u8, u8, u8, u8, u8, u8, u8>>), Tup(<<I(8), P("char"), bytes, BArr(2)>>),
     Opt(u64), Opt(str), Opt(bool), Opt(Opt(u64)), Opt(unit), Opt(P("value")), Opt(Vec(u64)), Opt(bytes), Opt(Tup(<<u8, u8>>)),
     BMap(str, u64), BMap(u64, Vec(str)), BMap(I(2), bool), BMap(Tup(<<u8, u8>>), u8), BMap(bytes, Opt(u8)), BMap(str, BMap(str, u8)),
     BMap(bool, unit), BMap(P("u128"), u64),
     HMap(str, u64), HMap(u64, str), HMap(I(8), Vec(u64)), HMap(str, HMap(u8, u8)), HMap(Vec(u16), unit),
     BSet(u64), BSet(str), BSet(I(2)), BSet(Tup(<<u8, str>>)), BSet(bytes), BSet(P("u128")), BSet(P("char")),
     HSet(u64), HSet(str), HSet(I(1)), HSet(Vec(u64)), HSet(bytes) >>

Pt == Named("Pt", <<F("x", u64), F("y", I(4))>>)

Structs ==
  << Pt,
     Named("Basic", <<F("alpha", u64), F("b", str), F("flag", bool)>>),
     Named("KeyOrder", <<F("zz", u8), F("b", u16), F("aaa", I(4)), Key(F("w", u8), Uint(300)), Key(F("x", u8), Uint(1)),
                         Key(F("y", str), Text(<<>>)), Key(F("v", bool), Uint(24)), Key(F("q", bool), Txt("longer_key_than_23_bytes"))>>),
     Named("Empty", <<>>),
     S("Unit", "unit", <<>>),
     NoDefault(S("UnitNoDefault", "unit", <<>>)),
     Tuple("Pair", <<u64, str>>),
     Tuple("New", <<u64>>),
     Tuple("NewOpt", <<Opt(u64)>>),
     Transparent(Tuple("ThruU64", <<u64>>)),
     Transparent(Tuple("ThruOpt", <<Opt(str)>>)),
     Transparent(Tuple("ThruPt", <<Ref("Pt")>>)),
     Transparent(Tuple("ThruVec", <<Vec(u64)>>)),
     Dflt(Transparent(Tuple("ThruDflt", <<u64>>)), <<Uint(7)>>),
     NoDefault(Transparent(Tuple("ThruNoDefault", <<Opt(u64)>>))),
     Transparent(S("ThruConv", "tuple", <<Conv(F("f", u64), "conv::wrap", "conv::unwrap")>>)),
     AsArray(Named("ArrNamed", <<F("z", u64), F("a", str), F("m", bool)>>)),
     AsArray(Named("ArrSkip", <<F("z", u64), SkipF(F("a", str)), F("m", Opt(u64))>>)),
     AsArray(AllowUnknown(Named("ArrUnknown", <<F("z", u64), F("a", str)>>))),
     AsArray(Named("ArrOptional", <<F("z", u64), Optional(F("a", str)), F("m", Opt(u64))>>)),
     AsArray(Named("ArrConv", <<Conv(F("z", bool), "conv::not", "conv::un_not"), Conv(F("a", u8), "conv::succ", "conv::pred")>>)),
     AsArray(NoDefault(Named("ArrNoDefault", <<F("z", u64)>>))),
     AsArray(Named("ArrEmpty", <<>>)),
     S("TupSkip", "tuple", <<F("f", u64), SkipF(F("f", str)), F("f", bool)>>),
     AllowUnknown(Tuple("TupUnknown", <<u64, str>>)),
     NoDefault(Named("Strict", <<F("id", u64), F("name", str)>>)),
     Dflt(Named("Prefilled", <<F("n", u64), F("s", str)>>), <<Uint(5), <<100, 101, 102>>>>),
     WithDefault(Named("Marked", <<F("n", u64)>>), <<Uint(9)>>),
     AllowUnknown(Named("Open", <<F("dd", u64), F("b", str), Key(F("k", u8), Uint(5))>>)),
     AllowUnknown(Named("OpenOpt", <<Optional(F("dd", u64)), F("b", Opt(str)), F("zzz", Arr(u64, 1))>>)) ,
     AllowUnknown(Named("OpenEmpty", <<>>)),
     NoDefault(AllowUnknown(Named("OpenSkip", <<F("m", u64), SkipF(F("a", u64)), SkipF(F("zz", u64))>>))),
     Named("Fixed", <<F("h", BArr(4)), F("o", Opt(BArr(2)))>>),
     NoDefault(Named("NeedsArr", <<F("two", Arr(u64, 2)), F("one", u64)>>)),
     NoDefault(Named("NeedsInner", <<F("inner", Ref("Strict")), F("pre", Ref("Prefilled")), F("marked", Ref("Marked"))>>)),
     Named("Nested", <<F("pt", Ref("Pt")), F("opt", Opt(Ref("Basic"))), F("list", Vec(Ref("Pt"))), F("map", BMap(str, Ref("Pair"))),
                       F("thru", Ref("ThruU64")), F("pre", Ref("Prefilled"))>>),
     Named("Kinds", <<F("a", Tup(<<u8, str>>)), F("b", BMap(u64, str)), F("c", BSet(u64)), F("d", P("u128")), F("e", P("char")),
                      F("f", bytes), F("g", unit), F("h", I(8))>>),
     NoDefault(Named("HasValue", <<F("v", P("value")), F("w", Vec(P("value")))>>)),
     Named("Single", <<F("only", u64)>>),
     Named("Wide", <<F("f00", u8), F("f01", u8), F("f02", u8), F("f03", u8), F("f04", u8), F("f05", u8), F("f06", u8), F("f07", u8),
                     F("f08", u8), F("f09", u8), F("f10", u8), F("f11", u8), F("f12", u8), F("f13", u8), F("f14", u8), F("f15", u8),
                     F("f16", u8), F("f17", u8), F("f18", u8), F("f19", u8), F("f20", u8), F("f21", u8), F("f22", u8), F("f23", u8),
                     F("f24", u8), F("f25", u8)>>),
     Generic(Named("BoxU64", <<F("item", Par), F("count", u64)>>), "Boxed", u64),
     Generic(Named("BoxStr", <<F("item", Par), F("count", u64)>>), "Boxed", str),
     Generic(Named("BoxPt", <<F("item", Par), F("count", u64)>>), "Boxed", Ref("Pt")) >>

\* One option on the middle field of three, for many field types.
OptTypes == << u64, I(2), P("u128"), bool, str, P("char"), bytes, unit, Vec(u64), Vec(str), Opt(u64), Opt(str), BArr(2), Arr(u64, 2),
               BMap(str, u64), HMap(u64, u64), BSet(u64), HSet(str), Tup(<<u64, str>>), Tup(<<bool>>), Ref("Pt"), Ref("Empty"), Ref("Unit"),
               Ref("ThruU64"), Ref("ThruOpt"), Ref("ThruVec"), Ref("ThruConv"), Ref("ThruDflt"), Ref("Prefilled"), Ref("Marked"), Ref("Pair"), Ref("ArrEmpty"),
               Ref("OptSmall"), Ref("Color"), Ref("Mixed"), Opt(Ref("Pt")), Vec(Ref("Pt")), Ref("Strict"), Opt(P("value")), Opt(Opt(u8)) >>
OptDefs ==
  <<Named("OptSmall", <<Optional(F("a", u64)), Optional(F("b", str))>>)>> \o
  [i \in 1..Len(OptTypes) |-> NoDefault(Named("Optional" \o ToString(i), <<F("aa", u8), Optional(F("m", OptTypes[i])), F("zzz", str)>>))] \o
  << Named("SkipMid", <<F("aa", u8), SkipF(F("m", u64)), F("zzz", str)>>),
     Dflt(Named("SkipDflt", <<SkipF(F("a", Ref("Prefilled"))), F("zzz", str)>>), << <<Uint(5), <<100, 101, 102>>>>, <<>> >>),
     Named("SkipAll", <<SkipF(F("aa", u8)), SkipF(F("m", u64))>>),
     Named("SkipOptional", <<Optional(SkipF(F("aa", u8))), F("m", u64)>>),
     NoDefault(Named("IfTwo", <<F("aa", u8), SkipIf(F("m", u64), "conv::is_two"), F("zzz", str)>>)),
     NoDefault(Named("IfAlways", <<F("aa", u8), SkipIf(F("m", u64), "conv::always"), F("zzz", str)>>)),
     NoDefault(Named("IfNever", <<F("aa", u8), SkipIf(F("m", u64), "conv::never"), F("zzz", str)>>)),
     NoDefault(Named("IfNone", <<F("aa", u8), SkipIf(F("m", Opt(str)), "Option::is_none"), F("zzz", str)>>)),
     NoDefault(Named("IfNeverUnit", <<F("aa", u8), SkipIf(F("m", Opt(unit)), "conv::never"), F("zzz", str)>>)),
     NoDefault(Named("IfConv", <<F("aa", u8), Conv(SkipIf(F("m", u64), "conv::is_two"), "conv::wrap", "conv::unwrap"), F("zzz", str)>>)),
     NoDefault(Named("ConvNot", <<F("aa", u8), Conv(F("m", bool), "conv::not", "conv::un_not"), F("zzz", str)>>)),
     NoDefault(Named("ConvSucc", <<F("aa", u8), Conv(F("m", u8), "conv::succ", "conv::pred"), F("zzz", str)>>)),
     NoDefault(Named("ConvWrap", <<F("aa", u8), Conv(F("m", u64), "conv::wrap", "conv::unwrap"), F("zzz", str)>>)),
     NoDefault(Named("ConvNz", <<F("aa", u8), Conv(F("m", u64), "conv::nonzero", "conv::or_zero"), F("zzz", str)>>)),
     NoDefault(Named("ConvSerOnly", <<F("aa", u8), Conv(F("m", u64), "conv::wrap", ""), F("zzz", str)>>)),
     NoDefault(Named("ConvDeOnly", <<F("aa", u8), Conv(F("m", u64), "", "conv::odd"), F("zzz", str)>>)),
     NoDefault(Named("ConvHide", <<F("aa", u8), Conv(F("m", u64), "conv::hide", ""), F("zzz", str)>>)),
     NoDefault(Named("OptConvNot", <<F("aa", u8), Optional(Conv(F("m", bool), "conv::not", "conv::un_not")), F("zzz", str)>>)),
     NoDefault(Named("OptConvSucc", <<F("aa", u8), Optional(Conv(F("m", u8), "conv::succ", "conv::pred")), F("zzz", str)>>)),
     NoDefault(Named("OptConvWrap", <<F("aa", u8), Optional(Conv(F("m", u64), "conv::wrap", "conv::unwrap")), F("zzz", str)>>)),
     NoDefault(Named("OptConvNz", <<F("aa", u8), Optional(Conv(F("m", u64), "conv::nonzero", "conv::or_zero")), F("zzz", str)>>)),
     NoDefault(Named("OptConvHide", <<F("aa", u8), Optional(Conv(F("m", u64), "conv::hide", "")), F("zzz", str)>>)),
     NoDefault(Named("SkipConv", <<F("aa", u8), SkipF(Conv(F("m", u64), "conv::wrap", "conv::unwrap")), F("zzz", str)>>)),
     NoDefault(Named("TwoConv", <<Conv(F("aa", u64), "conv::wrap", "conv::unwrap"), Optional(Conv(F("m", u64), "conv::nonzero", "conv::or_zero")),
                                  SkipIf(Key(F("r", u64), Uint(7)), "conv::is_two"), Key(Optional(F("zz", u64)), Uint(3))>>)),
     NoDefault(S("TupConv", "tuple", <<Conv(F("f", u64), "conv::wrap", "conv::unwrap"), F("f", u64)>>)),
     NoDefault(Named("AllOptional", <<Optional(F("a", u64)), Optional(F("b", str)), Optional(F("c", bool)), Optional(F("d", Opt(u64)))>>)) >>

ExtEnums ==
  << E("Color", <<VUnit("Red"), VUnit("Green"), VKey(VUnit("Blue"), Txt("azure")), VKey(VUnit("Grey"), Uint(12))>>),
     E("Level", <<Disc(VUnit("Low"), Uint(1)), Disc(VUnit("Mid"), Uint(50)), Disc(VUnit("High"), Uint(70000)), Disc(VUnit("Neg"), Nint(-3)),
                  VUnit("Other")>>),
     E("Mixed", <<VUnit("A"), VNew("B", u64), VTup("C", <<u8, str>>), VNamed("D", <<F("x", u64), F("yy", bool)>>)>>),
     E("MixedKeys", <<VKey(VUnit("A"), Uint(1)), VKey(VNew("B", u64), Uint(2)), VKey(VTup("C", <<u8, str>>), Txt("cc")),
                      VKey(VNamed("D", <<F("x", u64)>>), Txt(""))>>),
     E("NoUnits", <<VNew("N", str), VNamed("S", <<F("a", u64), Optional(F("b", u64))>>)>>),
     E("OneNew", <<VNew("Only", u64)>>),
     E("ArrVar", <<VArray(VNamed("Arr", <<F("z", u64), F("a", str)>>)), VArray(VNamed("Short", <<F("q", u64)>>)), VUnit("U"), VTup("T", <<u64, u64>>)>>),
     E("AsStructVar", <<AsStruct(VUnit("Un")), VUnit("Plain"), VNew("N", bool)>>),
     E("OnlyAsStruct", <<AsStruct(VUnit("Un")), AsStruct(VUnit("Two"))>>),
     E("VarOpts", <<VNamed("V", <<Optional(F("o", u64)), SkipF(F("s", u64)), Conv(F("c", bool), "conv::not", "conv::un_not"),
                                 SkipIf(F("i", u64), "conv::is_two"), Key(F("r", str), Uint(2))>>), VNew("W", Opt(u64))>>),
     E("VarUnknown", <<VUnknown(VNamed("V", <<F("mm", u64)>>)), VNamed("W", <<F("mm", u64)>>), VUnknown(VTup("X", <<u64, u64>>)), VUnknown(AsStruct(VUnit("Y")))>>),
     E("NewDefaults", <<VNew("O", Opt(u64)), VNew("L", Vec(u64)), VNew("P", Ref("Prefilled")), VNew("S", Ref("Strict")), VNew("U", unit),
                        VNew("F", Arr(u64, 1))>>),
     E("NewConv", <<Var("N", "newtype", <<Conv(F("f", u64), "conv::wrap", "conv::unwrap")>>),
                    Var("D", "newtype", <<Conv(F("f", u64), "", "conv::odd")>>), VUnit("U")>>),
     E("SkipVar", <<VNew("Kept", u64), VSkip(VNew("Gone", u64)), VSkip(VUnit("GoneUnit")), VSkip(VNamed("GoneNamed", <<F("x", u64)>>)), VUnit("Also")>>),
     WithDefault(E("Defaulted", <<VUnit("A"), VNew("B", u64)>>), <<"B", <<Uint(4)>>>>),
     E("EmbedPt", <<VNew("Own", u64), Embed(VNew("Inner", Ref("Pt"))), VUnit("Unit")>>),
     E("EmbedOne", <<VNew("Own", u64), Embed(VNew("Inner", Ref("Single"))), VUnit("Unit")>>),
     E("EmbedEnum", <<VNew("Own", u64), Embed(VNew("Inner", Ref("Mixed"))), VUnit("Unit")>>),
     E("EmbedTwo", <<VUnit("Unit"), Embed(VNew("First", Ref("Color"))), Embed(VNew("Second", u64)), Embed(VNew("Third", Ref("Strict")))>>),
     E("EmbedOverlap", <<VNamed("x", <<F("x", u64)>>), Embed(VNew("Inner", BMap(str, Vec(u64)))), Embed(VNew("Last", Ref("Open")))>>),
     E("EmbedOpt", <<VNew("Own", u64), Embed(VNew("Inner", Opt(str)))>>),
     E("EmbedSkip", <<VSkip(Embed(VNew("Gone", u64))), Embed(VNew("Inner", str)), VNew("Own", str)>>),
     [E("Untagged", <<VUnit("A"), VNew("B", u64), VTup("C", <<u8, str>>), VNamed("D", <<F("x", u64), Optional(F("o", u64))>>), AsStruct(VUnit("G"))>>)
        EXCEPT !.untagged = TRUE, !.der = "enc"],
     E("Holder", <<VNew("Color", Ref("Color")), VNew("Mixed", Ref("Mixed")), VNamed("Both", <<F("c", Ref("Color")), F("m", Opt(Ref("Mixed")))>>)>>),
     Generic(E("EitherU64", <<VNew("Left", Par), VNamed("Right", <<F("r", Par)>>), VUnit("Neither")>>), "Either", u64),
     Generic(E("EitherStr", <<VNew("Left", Par), VNamed("Right", <<F("r", Par)>>), VUnit("Neither")>>), "Either", str) >>

IntEnums ==
  << Tagged(E("Shape", <<VNamed("Circle", <<F("r", u64)>>), VNamed("Rect", <<F("w", u64), F("hh", u64)>>), VUnit("Point"), VNew("Pt", Ref("Pt"))>>), Txt("type")),
     Tagged(E("TagFirst", <<VNamed("A", <<F("long_field", u64), F("zz", str)>>), VNamed("B", <<>>)>>), Uint(0)),
     Tagged(E("TagMid", <<VNamed("A", <<F("a", u64), F("zzzz", str)>>), VUnit("B")>>), Txt("mm")),
     Tagged(E("TagLast", <<VNamed("A", <<F("a", u64), F("b", str)>>), VKey(VUnit("B"), Uint(3))>>), Txt("zzzzzzzz")),
     Tagged(E("TagInt", <<VKey(VNamed("A", <<F("a", u64)>>), Uint(0)), VKey(VNamed("B", <<F("a", u64)>>), Uint(1)), VKey(VUnit("C"), Txt("c"))>>), Txt("v")),
     Tagged(E("Fallback", <<VNamed("New", <<F("a", u64), F("b", u64)>>), MissingV(VNamed("Old", <<F("a", u64)>>))>>), Txt("v")),
     Tagged(E("FallbackKey", <<VKey(VNamed("New", <<F("a", u64)>>), Uint(1)), MissingV(VKey(VNamed("Old", <<F("a", u64)>>), Uint(0)))>>), Txt("v")),
     Tagged(E("FallbackNew", <<VNew("New", Ref("Basic")), MissingV(VNew("Old", Ref("Pt")))>>), Txt("v")),
     Tagged(E("FallbackUnit", <<VNamed("New", <<F("a", u64)>>), MissingV(VUnit("Old"))>>), Txt("v")),
     Tagged(E("FallbackFirst", <<MissingV(VNamed("Old", <<Optional(F("a", u64))>>)), VNamed("New", <<Optional(F("a", u64))>>)>>), Txt("v")),
     Tagged(E("TagOpts", <<VNamed("V", <<Optional(F("o", u64)), SkipF(F("s", u64)), Conv(F("c", bool), "conv::not", "conv::un_not"),
                                         SkipIf(F("i", u64), "conv::is_two"), Key(F("r", str), Uint(2))>>), VUnit("U")>>), Txt("t")),
     Tagged(E("TagUnknown", <<VUnknown(VNamed("V", <<F("mm", u64)>>)), VNamed("W", <<F("mm", u64)>>), VUnknown(VUnit("U"))>>), Txt("k")),
     Tagged(E("TagMap", <<VNew("M", BMap(u64, u64)), VNew("O", Ref("Open")), VNew("H", HMap(u64, str))>>), Txt("k")),
     Tagged(E("TagClash", <<VNew("M", BMap(str, u64)), VNamed("V", <<F("a", u64), F("b", u64)>>), VNew("H", HMap(str, Opt(u64)))>>), Txt("a")),
     Tagged(E("TagNest", <<VNew("Outer", Ref("Shape")), VNamed("Leaf", <<F("s", Ref("Shape"))>>)>>), Txt("outer")),
     Tagged(E("TagSkip", <<VNamed("Kept", <<F("a", u64)>>), VSkip(VNamed("Gone", <<F("a", u64)>>)), VSkip(VUnit("GoneUnit"))>>), Txt("k")),
     WithDefault(Tagged(E("TagDefaulted", <<VNamed("A", <<F("a", u64)>>), VUnit("B")>>), Txt("k")), <<"B", <<>>>>),
     Tagged(E("TagStruct", <<AsStruct(VUnit("A")), VNew("B", Ref("Empty"))>>), Txt("k")),
     Generic(Tagged(E("TagGen", <<VNamed("A", <<F("a", Par)>>), VUnit("B")>>), Txt("k")), "TaggedGen", Vec(u64)) >>

Composites ==
  << Vec(Ref("Pt")), Opt(Ref("Pt")), BMap(str, Ref("Basic")), Vec(Ref("Mixed")), BMap(u64, Ref("Color")), Tup(<<Ref("Pt"), Ref("Color")>>),
     Vec(Ref("Unit")), Vec(Ref("ThruOpt")), Opt(Ref("Shape")), Vec(Ref("Fallback")), HMap(str, Ref("OptSmall")), Vec(Ref("Prefilled")),
     Arr(Ref("Pt"), 2), Vec(Ref("Defaulted")), BMap(str, Ref("Strict")), Opt(Ref("Unit")), Vec(Ref("EmbedPt")) >>

\* References, which can only be encoded.
EncOnly(d) == [NoDefault(d) EXCEPT !.der = "enc"]
EncOnlyEnum(d) == [d EXCEPT !.der = "enc"]
BorDefs ==
  << EncOnly(Named("BorNamed", <<F("x", Bor(u64)), F("long", Bor(str)), Optional(F("o", Bor(str))), Optional(F("p", Bor(I(2)))), F("q", Opt(Bor(P("u128"))))>>)),
     EncOnly(Tuple("BorPair", <<Bor(u8), Bor(str)>>)),
     EncOnly(Transparent(Tuple("BorThru", <<Bor(u64)>>))),
     EncOnly(AsArray(Named("BorArr", <<F("x", Bor(P("u128"))), F("a", Bor(I(8)))>>)) ),
     EncOnlyEnum(E("BorEnum", <<VNew("N", Bor(str)), VNamed("S", <<F("x", Bor(u64)), Optional(F("y", Bor(u64)))>>), VTup("T", <<Bor(u8), Bor(u8)>>), VUnit("U")>>)),
     EncOnlyEnum(Tagged(E("BorTagged", <<VNamed("S", <<F("x", Bor(u64)), Optional(F("y", Bor(str)))>>), VUnit("U")>>), Txt("t"))) >>
Borrowed ==
  << Bor(U(1)), Bor(U(2)), Bor(U(4)), Bor(U(8)), Bor(I(1)), Bor(I(2)), Bor(I(4)), Bor(I(8)), Bor(P("u128")), Bor(str),
     Vec(Bor(u64)), Vec(Bor(u8)), Vec(Bor(str)), Arr(Bor(u8), 2), Opt(Bor(str)), Opt(Bor(P("u128"))), Tup(<<Bor(u8), Bor(str), u64>>),
     BMap(Bor(str), u64), BMap(str, Bor(I(8))), HMap(Bor(str), Bor(u64)), HMap(Bor(u64), str), BSet(Bor(str)), BSet(Bor(P("u128"))), HSet(Bor(u8)), HSet(Bor(str)),
     Vec(Ref("BorNamed")), Opt(Ref("BorEnum")) >>

\* Definitions that refer to themselves or to each other, with data up to and beyond the nesting limit.
Leaf(n) == <<Uint(n), <<>>>>
RECURSIVE TreeOf(_), ChainOf(_), ExprOf(_), NestOf(_)
TreeOf(n) == IF n = 0 THEN Leaf(0) ELSE <<Uint(n), <<TreeOf(n - 1), Leaf(n)>>>>
ChainOf(n) == IF n = 0 THEN Leaf(0) ELSE <<Uint(n), <<ChainOf(n - 1)>>>>
ExprOf(n) == IF n = 0 THEN <<"Nil", <<>>>> ELSE <<"Neg", <<<<ExprOf(n - 1)>>>>>>
NestOf(n) == IF n = 0 THEN <<"File", <<Uint(7)>>>> ELSE <<"Dir", << << <<<<97>>, <<NestOf(n - 1)>>>> >> >>>>
RecDefs ==
  << Recursive(Named("Tree", <<F("v", u64), F("kids", Vec(Ref("Tree")))>>),
               << Leaf(0), TreeOf(1), <<Uint(9), <<TreeOf(2), Leaf(3), TreeOf(1)>>>>, TreeOf(31), TreeOf(32), TreeOf(33) >>),
     Recursive(NoDefault(Named("Chain", <<F("v", u8), Optional(F("next", Vec(Ref("Chain"))))>>)),
               << Leaf(0), ChainOf(1), ChainOf(3), ChainOf(31), ChainOf(32), ChainOf(33) >>),
     Recursive(AsArray(Named("Cells", <<F("v", u8), F("next", Vec(Ref("Cells")))>>)),
               << Leaf(0), ChainOf(2), ChainOf(31), ChainOf(32), ChainOf(33) >>),
     Recursive(E("Expr", <<VNew("Num", u64), VNew("Neg", Vec(Ref("Expr"))), VNamed("Let", <<F("n", str), F("body", Vec(Ref("Expr")))>>), VUnit("Nil")>>),
               << <<"Nil", <<>>>>, <<"Num", <<Uint(3)>>>>, ExprOf(2), <<"Let", << <<120>>, <<ExprOf(1), <<"Num", <<Uint(24)>>>>>> >>>>, ExprOf(32), ExprOf(33) >>),
     Recursive(Tagged(E("Node", <<VNamed("File", <<F("size", u64)>>), VNamed("Dir", <<F("ents", BMap(str, Ref("Name")))>>)>>), Txt("kind")),
               << NestOf(0), NestOf(1), NestOf(3), NestOf(31), NestOf(32), NestOf(33) >>),
     Recursive(NoDefault(Transparent(Tuple("Name", <<Ref("Node")>>))), << <<NestOf(0)>>, <<NestOf(2)>> >>) >>

AllDefs == TLCEval(RecDefs \o Structs \o OptDefs \o ExtEnums \o IntEnums \o BorDefs)
DefOf == LET ds == TLCEval(AllDefs)
             name == TLCEval([i \in 1..Len(ds) |-> ds[i].n])
             names == TLCEval({name[i] : i \in 1..Len(ds)})
             at == TLCEval([n \in names |-> CHOOSE i \in 1..Len(ds) : name[i] = n])
         IN TLCEval([n \in names |-> ds[at[n]]])

Entry(g, ty, i) == [id |-> g \o ToString(i), g |-> g, ty |-> ty]
Refs(g, ds) == [i \in 1..Len(ds) |-> [id |-> ds[i].n, g |-> g, ty |-> Ref(ds[i].n)]]
AllTypes == TLCEval([i \in 1..Len(Prims) |-> Entry("prim", Prims[i], i)] \o [i \in 1..Len(Containers) |-> Entry("cont", Containers[i], i)]
            \o Refs("struct", Structs) \o Refs("option", OptDefs) \o Refs("ext", ExtEnums) \o Refs("int", IntEnums)
            \o [i \in 1..Len(Composites) |-> Entry("comp", Composites[i], i)]
            \o Refs("rec", RecDefs) \o Refs("bor", BorDefs) \o [i \in 1..Len(Borrowed) |-> Entry("bor", Borrowed[i], i)])
=============================================================================
