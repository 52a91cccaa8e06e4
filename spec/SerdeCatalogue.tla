---------------------------- MODULE SerdeCatalogue ----------------------------
(***************************************************************************)
(* The types on which the serde layer is specified, rendered into Rust     *)
(* types with serde's derives.  As for the native catalogue, except:       *)
(* optional means #[serde(default)]; skip, skipif and flatten mean serde's *)
(* attributes; unknown fields are denied unless allow_unknown.             *)
(***************************************************************************)
EXTENDS TypeExprs

Float(w) == [t |-> "f", w |-> w]
BBuf == P("bbuf")
Dyn == P("dyn")
Human == P("human")
Pairs(k, v) == [t |-> "pairs", k |-> k, v |-> v]
Loose(n, fields) == AllowUnknown(Named(n, fields))
Flatten(f) == [f EXCEPT !.flatten = TRUE]

Prims == << U(1), U(2), U(4), U(8), I(1), I(2), I(4), I(8), I(16), P("u128"), bool, str, P("char"), BBuf, unit, Dyn, Float(4), Float(8), Human >>

Containers ==
  << Vec(u64), Vec(u8), Vec(str), Vec(Vec(u64)), Vec(Opt(u64)), Vec(unit), Vec(BBuf), Vec(Dyn), Vec(P("u128")), Vec(P("char")), Vec(I(8)),
     Vec(I(16)), Vec(Float(8)), Vec(Tup(<<u8, str>>)),
     Arr(u64, 2), Arr(str, 1), Arr(u8, 0), Arr(Opt(u8), 3), Arr(u8, 4),
     Tup(<<u64>>), Tup(<<u8, str>>), Tup(<<Opt(u64), bool, Vec(u64)>>), Tup(<<Tup(<<u8, u8>>), unit>>), Tup(<<I(8), P("char"), BBuf>>),
     Tup(<<u8, Dyn>>),
     Opt(u64), Opt(str), Opt(bool), Opt(BBuf), Opt(Vec(u64)), Opt(unit), Opt(Opt(u64)), Opt(Dyn), Opt(Float(4)), Opt(P("u128")),
     BMap(str, u64), BMap(u64, Vec(str)), BMap(I(2), bool), BMap(Tup(<<u8, u8>>), u8), BMap(str, BMap(str, u8)), BMap(bool, unit),
     BMap(P("char"), u64), BMap(str, Dyn), BMap(Vec(u8), u8), HMap(str, u64), HMap(u64, str), HMap(str, Opt(u8)),
     Pairs(str, u64), Pairs(u64, Opt(str)), Pairs(Dyn, Dyn), Pairs(Opt(u8), Pairs(str, u8)), Pairs(Pairs(str, u8), u8),
     BSet(u64), BSet(str), BSet(Tup(<<u8, str>>)), BSet(I(2)),
     Vec(Human), Opt(Human), BMap(Human, Human), Tup(<<Human, u8>>) >>

Structs ==
  << Loose("Pt", <<F("x", u64), F("y", I(4))>>),
     Named("Strict", <<F("x", u64), F("name", str)>>),
     Loose("Empty", <<>>),
     Named("EmptyStrict", <<>>),
     S("Unit", "unit", <<>>),
     Tuple("New", <<u64>>),
     Tuple("NewStr", <<str>>),
     Tuple("NewOpt", <<Opt(u64)>>),
     Tuple("NewVec", <<Vec(u64)>>),
     Tuple("NewPt", <<Ref("Pt")>>),
     Tuple("NewNew", <<Ref("New")>>),
     Tuple("NewBytes", <<BBuf>>),
     Tuple("NewDyn", <<Dyn>>),
     Tuple("Pair", <<u64, str>>),
     Tuple("Triple", <<Opt(bool), Ref("New"), P("u128")>>),
     Transparent(Tuple("Thru", <<u64>>)),
     Transparent(Tuple("ThruOpt", <<Opt(u64)>>)),
     Transparent(Named("ThruNamed", <<F("inner", Ref("Pt"))>>)),
     Loose("Renamed", <<Key(F("a", u64), Txt("zz")), Key(F("b", str), Txt("a")), Key(F("c", bool), Txt(""))>>),
     Loose("Opts", <<F("a", Opt(u64)), Optional(F("b", u64)), Optional(F("c", Opt(str))), F("d", Opt(BBuf))>>),
     Loose("SkipMid", <<F("a", u8), SkipF(F("m", u64)), F("z", str)>>),
     Named("SkipFirst", <<SkipF(F("a", str)), F("m", u8), F("z", Opt(u8))>>),
     Loose("IfTwo", <<F("a", u8), SkipIf(F("m", u64), "conv::is_two"), F("z", str)>>),
     Loose("IfNone", <<F("a", u8), SkipIf(F("m", Opt(str)), "Option::is_none")>>),
     Loose("Nested", <<F("pt", Ref("Pt")), F("opt", Opt(Ref("Strict"))), F("list", Vec(Ref("New"))), F("map", BMap(str, Ref("Pair"))),
                       F("thru", Ref("Thru")), F("e", Ref("Mixed"))>>),
     Loose("Kinds", <<F("a", Tup(<<u8, str>>)), F("b", BMap(u64, str)), F("c", BSet(u64)), F("d", P("u128")), F("e", P("char")),
                      F("f", BBuf), F("g", unit), F("h", I(8)), F("i", Arr(u8, 2))>>),
     Loose("HasDyn", <<F("v", Dyn), F("w", Vec(Dyn))>>),
     Loose("HasHuman", <<F("h", Human), F("o", Opt(Human))>>),
     Loose("HasFloat", <<F("a", u8), F("f", Float(8))>>),
     Loose("MaybeFloat", <<F("a", u8), F("f", Opt(Float(4)))>>),
     Loose("Big", <<F("n", I(16)), F("m", P("u128"))>>),
     Loose("Thrus", <<F("o", Ref("ThruOpt")), F("n", Ref("ThruNamed"))>>),
     Loose("Same", <<Key(F("a", u64), Txt("k")), SkipIf(Key(F("b", Opt(u64)), Txt("k")), "Option::is_none")>>),
     Loose("Flat", <<F("a", u64), Flatten(F("inner", Ref("Pt"))), F("z", str)>>),
     Loose("FlatMap", <<F("a", u64), Flatten(F("more", BMap(str, u64)))>>),
     Loose("FlatPairs", <<Flatten(F("more", Pairs(u64, str))), F("a", u64)>>),
     Loose("Wide", <<F("f00", u8), F("f01", u8), F("f02", u8), F("f03", u8), F("f04", u8), F("f05", u8), F("f06", u8), F("f07", u8),
                     F("f08", u8), F("f09", u8), F("f10", u8), F("f11", u8), F("f12", u8), F("f13", u8), F("f14", u8), F("f15", u8),
                     F("f16", u8), F("f17", u8), F("f18", u8), F("f19", u8), F("f20", u8), F("f21", u8), F("f22", u8), F("f23", u8),
                     F("f24", u8), F("f25", u8)>>),
     Generic(Loose("BoxU64", <<F("item", Par), F("count", u64)>>), "Boxed", u64),
     Generic(Loose("BoxPt", <<F("item", Par), F("count", u64)>>), "Boxed", Ref("Pt")) >>

Enums ==
  << AllowUnknown(E("Color", <<VUnit("Red"), VUnit("Green"), VKey(VUnit("Blue"), Txt("azure"))>>)),
     AllowUnknown(E("Mixed", <<VUnit("A"), VNew("B", u64), VTup("C", <<u8, str>>), VNamed("D", <<F("x", u64), F("yy", bool)>>)>>)),
     E("Strictly", <<VNamed("D", <<F("x", u64), F("yy", Opt(bool))>>), VUnit("U")>>),
     AllowUnknown(E("News", <<VNew("O", Opt(u64)), VNew("L", Vec(u64)), VNew("P", Ref("Pt")), VNew("N", Ref("New")), VNew("U", unit),
                              VNew("S", str), VNew("M", BMap(str, u64)), VNew("E", Ref("Mixed")), VNew("Y", Dyn), VNew("F", Float(4)),
                              VNew("K", BBuf), VNew("T", Tup(<<u8, u8>>)), VNew("W", P("u128")), VNew("I", I(8))>>)),
     AllowUnknown(E("Empties", <<VTup("T", <<>>), VNamed("N", <<>>), VUnit("U")>>)),
     AllowUnknown(E("Keys", <<VKey(VNew("A", u64), Txt("")), VKey(VNamed("B", <<Key(F("x", u64), Txt("q")), Optional(F("y", u64))>>), Txt("bee"))>>)),
     AllowUnknown(E("Skips", <<VUnit("A"), VSkip(VNew("B", u64)), VSkip(VUnit("C")), VNamed("D", <<SkipF(F("s", u64)), F("t", u64)>>)>>)),
     AllowUnknown(E("One", <<VTup("Only", <<u64, Opt(str), Ref("New")>>)>>)),
     AllowUnknown(Tagged(E("Internal", <<VUnit("U"), VNamed("N", <<F("x", u64), F("s", str), F("o", Opt(u64))>>), VNew("P", Ref("Pt"))>>), Txt("t"))),
     AllowUnknown([E("Either", <<VNew("S", str), VNew("N", u64), VNew("L", Vec(u64)), VNamed("M", <<F("x", u64), F("s", str)>>)>>) EXCEPT !.untagged = TRUE]),
     \* The name first, and the contents first.
     AllowUnknown(Adjacent(E("Adj", <<VUnit("U"), VNew("N", u64), VNew("P", Ref("Pt")), VNew("O", Opt(u64)), VNew("B", BBuf), VNew("C", P("char")),
                                      VNew("W", P("u128")), VNew("H", Human), VTup("T", <<u8, str>>), VNamed("D", <<F("x", u64), F("o", Opt(str))>>)>>),
                           Txt("t"), Txt("v"))),
     Adjacent(E("Adjoin", <<VUnit("U"), VNew("N", u64), VNew("P", Ref("Pt")), VNew("L", Vec(Opt(u64))), VTup("T", <<u8, str>>),
                            VNamed("D", <<F("x", u64), F("o", Opt(str))>>), VNew("E", Ref("Color"))>>), Txt("t"), Txt("c")) >>

\* Definitions that refer to themselves, with data up to and beyond the nesting limits.
Leaf(n) == <<Uint(n), <<>>>>
RECURSIVE TreeOf(_), ChainOf(_), ExprOf(_), LetOf(_), WrapOf(_)
TreeOf(n) == IF n = 0 THEN Leaf(0) ELSE <<Uint(n), <<TreeOf(n - 1), Leaf(n)>>>>
ChainOf(n) == IF n = 0 THEN Leaf(0) ELSE <<Uint(n), <<ChainOf(n - 1)>>>>
ExprOf(n) == IF n = 0 THEN <<"Nil", <<>>>> ELSE <<"Neg", <<ExprOf(n - 1)>>>>
LetOf(n) == IF n = 0 THEN <<"Nil", <<>>>> ELSE <<"Let", << <<110>>, LetOf(n - 1)>> >>
WrapOf(n) == IF n = 0 THEN <<<<>>>> ELSE <<<<WrapOf(n - 1)>>>>
RecDefs ==
  << Recursive(Loose("Chain", <<F("v", u64), F("next", Opt(Ref("Chain")))>>),
               << Leaf(0), ChainOf(1), ChainOf(3), ChainOf(63), ChainOf(64) >>),
     Recursive(Named("Tree", <<F("v", u64), Optional(F("kids", Vec(Ref("Tree"))))>>),
               << Leaf(0), TreeOf(1), <<Uint(9), <<TreeOf(2), Leaf(3), TreeOf(1)>>>>, TreeOf(31), TreeOf(32), TreeOf(63), TreeOf(64) >>),
     Recursive(Tuple("Link", <<u64, Opt(Ref("Link"))>>), << Leaf(0), ChainOf(2), ChainOf(63), ChainOf(64) >>),
     Recursive(AllowUnknown(E("Expr", <<VNew("Num", u64), VNew("Neg", Ref("Expr")), VNamed("Let", <<F("n", str), F("body", Ref("Expr"))>>),
                                        VTup("Add", <<Ref("Expr"), Ref("Expr")>>), VUnit("Nil")>>)),
               << <<"Nil", <<>>>>, <<"Num", <<Uint(3)>>>>, ExprOf(2), <<"Let", << <<120>>, ExprOf(1)>> >>,
                  <<"Add", <<ExprOf(1), <<"Add", <<<<"Num", <<Uint(24)>>>>, ExprOf(0)>>>>>>>>, ExprOf(64), ExprOf(65),
                  LetOf(32), LetOf(63), <<"Neg", <<LetOf(63)>>>>, LetOf(64) >>),
     Recursive(Tuple("Wrap", <<Vec(Ref("Wrap"))>>), << WrapOf(0), WrapOf(1), WrapOf(3), <<<<WrapOf(1), WrapOf(0), WrapOf(2)>>>>, WrapOf(31), WrapOf(32), WrapOf(63), WrapOf(64) >>),
     Recursive(Loose("Dir", <<F("name", str), F("kids", BMap(str, Ref("Dir")))>>),
               << <<<<97>>, <<>>>>, <<<<>>, << <<<<98>>, <<<<97>>, <<>>>>>>, <<<<99>>, <<<<100>>, << <<<<>>, <<<<>>, <<>>>>>> >>>>>> >>>> >>) >>

Composites ==
  << Vec(Ref("Pt")), Opt(Ref("Pt")), BMap(str, Ref("Strict")), Vec(Ref("Mixed")), BMap(u64, Ref("Color")), Tup(<<Ref("Pt"), Ref("Color")>>),
     Vec(Ref("Unit")), Vec(Ref("ThruOpt")), Opt(Ref("Mixed")), Opt(Ref("New")), HMap(str, Ref("Opts")), Arr(Ref("New"), 2), Opt(Ref("Unit")),
     Pairs(Ref("New"), Ref("Color")), Vec(Ref("Internal")), Vec(Ref("Either")), Opt(Ref("Internal")), Vec(Ref("Adj")), Opt(Ref("Adjoin")),
     Vec(Ref("Chain")), BMap(str, Ref("Expr")), Opt(Ref("Tree")) >>

AllDefs == TLCEval(RecDefs \o Structs \o Enums)
DefOf == LET ds == TLCEval(AllDefs)
             name == TLCEval([i \in 1..Len(ds) |-> ds[i].n])
             names == TLCEval({name[i] : i \in 1..Len(ds)})
             at == TLCEval([n \in names |-> CHOOSE i \in 1..Len(ds) : name[i] = n])
         IN TLCEval([n \in names |-> ds[at[n]]])
Entry(g, ty, i) == [id |-> "s" \o g \o ToString(i), g |-> "s" \o g, ty |-> ty]
Refs(g, ds) == [i \in 1..Len(ds) |-> [id |-> ds[i].n, g |-> "s" \o g, ty |-> Ref(ds[i].n)]]
AllTypes == TLCEval([i \in 1..Len(Prims) |-> Entry("prim", Prims[i], i)] \o [i \in 1..Len(Containers) |-> Entry("cont", Containers[i], i)]
            \o Refs("rec", RecDefs) \o Refs("struct", Structs) \o Refs("enum", Enums) \o [i \in 1..Len(Composites) |-> Entry("comp", Composites[i], i)])
=============================================================================
