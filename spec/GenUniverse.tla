------------------------------ MODULE GenUniverse ------------------------------
(* The specifications code is generated from: one document [n, defs] per kind of *)
(* subject.                                                                       *)
EXTENDS IdlSem

U == INSTANCE IdlUniverse

Doc(n, defs) == [n |-> n, defs |-> defs]
S(i) == ToString(i)
SInt == U!SInt
UIntT == U!UInt
Id(n) == U!IdT(n)
D(t) == U!Dec(t)
Struct(n, b) == U!PStructDef(n, b)
Union(n, cond, cases, def) == U!PUnionDef(n, U!Body(cond, cases, def))
Enum(n, b) == U!PEnum(n, b)
Typedef(d) == U!PTypedef(d)
Const(n, v) == U!PConst(n, v)
Named0(d, n) == [d EXCEPT !.n = n]

\* shared definitions
E1 == Enum("e1", <<U!Asg("e1_lo", D("0")), U!Asg("E1_MID", D("1")), U!Asg("e1Hi", D("2"))>>)
S1 == Struct("s1", <<U!DVar(SInt, "a"), U!DStr("b", <<>>)>>)
U1 == Union("u1", U!DVar(SInt, "d"), <<U!Case(<<D("0")>>, U!Void), U!Case(<<D("1")>>, U!DVar(UIntT, "x"))>>, <<>>)
Base == <<E1, S1, U1>>

\* ---- members of every kind ---------------------------------------------------------
PrimTypes == << SInt, UIntT, Signed("hyper", TRUE), Signed("hyper", FALSE), Signed("char", TRUE), Signed("char", FALSE), Signed("short", TRUE),
                Signed("short", FALSE), Ty("float"), Ty("double"), Ty("bool"), [k |-> "uint"] >>
AllTypes == PrimTypes \o << Id("e1"), Id("s1"), Id("u1") >>
DeclsOfType(ty) == << U!DVar(ty, "m"), U!DOpt(ty, "m"), U!DFixed(ty, "m", D("3")), U!DVarr(ty, "m", <<>>), U!DVarr(ty, "m", <<Lit("hex", "0A")>>) >>
OpaqueSizes == <<"1", "2", "3", "4", "5", "7", "8", "31", "32", "33", "40">>
OtherMembers == << U!DStr("m", <<>>), U!DStr("m", <<D("9")>>), U!DOvar("m", <<>>), U!DOvar("m", <<D("100")>>) >>
                \o [i \in DOMAIN OpaqueSizes |-> U!DOfix("m", D(OpaqueSizes[i]))]
Members == Flat([i \in DOMAIN AllTypes |-> DeclsOfType(AllTypes[i])]) \o OtherMembers
MembersDoc == Doc("members", Base \o [i \in DOMAIN Members |-> Struct("k" \o S(i), <<U!DVar(SInt, "pre"), Members[i], U!DVar(Signed("char", FALSE), "post")>>)])
\* one member only, and many together
AloneDoc == Doc("alone", Base \o [i \in DOMAIN Members |-> Struct("k" \o S(i), <<Members[i]>>)])
Together(n, step) == [i \in 1..n |-> Named0(Members[1 + ((step * i) % Len(Members))], "m" \o S(i))]
WideDoc == Doc("wide", Base \o [j \in 1..12 |-> Struct("w" \o S(j), Together(2 + 2 * j, 2 * j + 5))]
                       \o << Struct("pair", <<U!DVar(Id("w1"), "l"), U!DVar(Id("w2"), "r")>>),
                             Struct("nest", <<U!DOpt(Id("pair"), "o"), U!DVarr(Id("pair"), "v", <<>>), U!DFixed(Id("pair"), "f", D("2"))>>),
                             Struct("deeper", <<U!DVar(Id("nest"), "n"), U!DVar(Id("s1"), "t")>>) >>)
\* sizes by constants of every base, by chains of constants, by enumerators
SizesDoc ==
  Doc("sizes", << Struct("z1", <<U!DOfix("a", Name("OCT")), U!DFixed(SInt, "b", Name("HEX")), U!DVar(SInt, "e")>>),
                  Const("OCT", Lit("oct", "12")), Const("HEX", Lit("hex", "b")), Const("CHAIN", Name("chain_2")), Const("chain_2", Name("chain3")),
                  Const("chain3", D("5")), Enum("sz", <<U!Asg("SZ_A", D("6")), U!Asg("SZ_B", Name("OCT"))>>), Const("E_REF", Name("SZ_A")),
                  Struct("z2", <<U!DOfix("a", Name("CHAIN")), U!DFixed(Ty("bool"), "b", Name("chain_2")), U!DFixed(Signed("char", TRUE), "c", Name("SZ_A")),
                                 U!DOfix("f", Name("SZ_B")), U!DOfix("g", Name("E_REF")), U!DVarr(SInt, "h", <<Name("CHAIN")>>), U!DStr("i", <<Name("OCT")>>)>>),
                  Struct("z3", <<U!DOfix("a", Lit("oct", "17")), U!DOfix("b", Lit("hex", "1F")), U!DFixed(SInt, "c", Lit("oct", "10")), U!DFixed(SInt, "d", Lit("hex", "C"))>>),
                  Struct("z4", <<U!DOfix("a", Name("big")), U!DOfix("b", Lit("hex", "21")), U!DVar(Ty("bool"), "c")>>), Const("big", Lit("hex", "101")) >>)
\* recursion
RecDoc ==
  Doc("rec", << Struct("node", <<U!DVar(SInt, "v"), U!DOpt(Id("node"), "next")>>),
                Struct("tree", <<U!DVar(Ty("bool"), "v"), U!DVarr(Id("tree"), "kids", <<>>)>>),
                Struct("bin", <<U!DOpt(Id("bin"), "l"), U!DVar(UIntT, "v"), U!DOpt(Id("bin"), "r")>>),
                Typedef(U!DOpt(Id("link"), "linkp")), Struct("link", <<U!DStr("v", <<>>), U!DVar(Id("linkp"), "next")>>),
                Struct("ping", <<U!DVar(SInt, "v"), U!DOpt(Id("pong"), "p")>>), Struct("pong", <<U!DOpt(Id("ping"), "p"), U!DVar(SInt, "v")>>),
                Struct("head", <<U!DVar(Id("linkp"), "first"), U!DVar(Id("more"), "rest")>>),
                Union("more", U!DVar(Ty("bool"), "b"), <<U!Case(<<Name("TRUE")>>, U!DVar(Id("cell"), "c")), U!Case(<<Name("FALSE")>>, U!Void)>>, <<>>),
                Struct("cell", <<U!DVar(SInt, "v"), U!DVar(Id("more"), "rest")>>),
                Union("chain", U!DVar(SInt, "d"), <<U!Case(<<D("0")>>, U!Void), U!Case(<<D("1")>>, U!DOpt(Id("chain"), "c")), U!Case(<<D("2")>>, U!DVarr(Id("chain"), "cs", <<>>))>>, <<>>),
                Struct("two", <<U!DFixed(Id("linkp"), "a", D("2")), U!DVarr(Id("node"), "b", <<>>)>>) >>)

\* recursion through the first, a middle and the last of many members, and through many arms
RecMembers == << U!DVar(SInt, "m"), U!DStr("m", <<>>), U!DOvar("m", <<>>), U!DOfix("m", D("6")), U!DVar(Id("e1"), "m"), U!DVarr(Id("s1"), "m", <<>>), U!DVar(Ty("bool"), "m"),
                 U!DOpt(Id("s1"), "m"), U!DFixed(SInt, "m", D("2")), U!DVar(Signed("hyper", FALSE), "m"), U!DVar(Id("u1"), "m"), U!DVar(Signed("char", FALSE), "m") >>
RecFiller(n, off) == [i \in 1..n |-> Named0(RecMembers[1 + ((i + off) % Len(RecMembers))], "m" \o S(i))]
\* k of n members come before the recursive one
RecStruct(name, n, k, off, rec) == LET f == RecFiller(n, off) IN Struct(name, SubSeq(f, 1, k) \o <<rec>> \o SubSeq(f, k + 1, n))
RecShapes == << <<3, 0>>, <<3, 3>>, <<4, 2>>, <<5, 5>>, <<7, 0>>, <<8, 4>>, <<8, 8>>, <<12, 12>> >>
RecLongDoc ==
  Doc("reclong", Base
      \o [i \in DOMAIN RecShapes |-> RecStruct("o" \o S(i), RecShapes[i][1], RecShapes[i][2], 2 * i, U!DOpt(Id("o" \o S(i)), "again"))]
      \o [i \in DOMAIN RecShapes |-> RecStruct("v" \o S(i), RecShapes[i][1], RecShapes[i][2], 3 * i + 1, U!DVarr(Id("v" \o S(i)), "again", <<>>))]
      \o [i \in 1..3 |-> RecStruct("x" \o S(i), RecShapes[2 * i][1], RecShapes[2 * i][2], i, U!DOpt(Id("y" \o S(i)), "again"))]
      \o [i \in 1..3 |-> RecStruct("y" \o S(i), RecShapes[2 * i + 1][1], RecShapes[2 * i + 1][2], 5 * i, U!DVarr(Id("x" \o S(i)), "again", <<>>))]
      \o << Struct("both", RecFiller(3, 0) \o <<U!DOpt(Id("both"), "l"), U!DVar(SInt, "mid"), U!DVarr(Id("both"), "vs", <<>>), U!DOpt(Id("both"), "r"), U!DVar(SInt, "last")>>),
            Union("many", U!DVar(SInt, "d"), [i \in 1..10 |-> U!Case(<<D(S(i - 1))>>, IF i = 4 THEN U!DOpt(Id("many"), "c") ELSE IF i = 8 THEN U!DVar(Id("o4"), "c")
                                                                     ELSE IF i = 10 THEN U!DVarr(Id("many"), "c", <<>>) ELSE IF i = 1 THEN U!Void ELSE Named0(RecMembers[i], "c"))], <<>>) >>)

\* specification names that are names of Rust types
ShadowDoc ==
  Doc("shadow", << Struct("u8", <<U!DOvar("a", <<>>), U!DOfix("b", D("5")), U!DOfix("c", D("40")), U!DStr("d", <<>>), U!DOpt(Id("u8"), "e")>>),
                   Struct("str", <<U!DStr("a", <<>>), U!DOvar("b", <<>>), U!DVar(Id("u8"), "c")>>), Typedef(U!DOvar("u16", <<>>)),
                   Struct("i32", <<U!DVar(SInt, "a"), U!DVarr(Id("i32"), "b", <<>>), U!DVar(Id("u16"), "c")>>),
                   Enum("bool_", <<U!Asg("usize", D("0")), U!Asg("u64", D("4"))>>), Struct("f64", <<U!DVar(Ty("bool"), "a"), U!DVar(Id("bool_"), "b"), U!DOpt(Id("f64"), "c")>>),
                   Union("i64", U!DVar(Id("bool_"), "char_"), <<U!Case(<<Name("u64")>>, U!DOvar("x", <<>>)), U!Case(<<Name("usize")>>, U!DOpt(Id("i64"), "y"))>>, <<>>) >>)

\* ---- enums in every place ------------------------------------------------------------
EnumPlaces(e, x) ==                   \* x: a suffix that keeps names apart
  << Typedef(U!DVar(Id(e), "t1" \o x)), Typedef(U!DVar(Id("t1" \o x), "t2" \o x)), Typedef(U!DVarr(Id(e), "tv" \o x, <<>>)),
     Typedef(U!DFixed(Id("t1" \o x), "tf" \o x, D("2"))), Typedef(U!DOpt(Id("t2" \o x), "to" \o x)),
     Struct("p1" \o x, <<U!DVar(SInt, "a"), U!DVar(Id(e), "b"), U!DVar(SInt, "c")>>),
     Struct("p2" \o x, <<U!DVar(Id("t1" \o x), "a"), U!DVar(Id("t2" \o x), "b")>>),
     Struct("p3" \o x, <<U!DOpt(Id(e), "a"), U!DVarr(Id(e), "b", <<>>), U!DFixed(Id(e), "c", D("2"))>>),
     Struct("p4" \o x, <<U!DOpt(Id("t1" \o x), "a"), U!DVarr(Id("t2" \o x), "b", <<>>), U!DFixed(Id("t1" \o x), "c", D("2"))>>),
     Struct("p5" \o x, <<U!DVar(Id("tv" \o x), "a"), U!DVar(Id("tf" \o x), "b"), U!DVar(Id("to" \o x), "c")>>),
     Union("q1" \o x, U!DVar(SInt, "d"), <<U!Case(<<D("0")>>, U!DVar(Id(e), "m")), U!Case(<<D("1")>>, U!DVar(Id("t2" \o x), "m")),
                                           U!Case(<<D("2")>>, U!DOpt(Id(e), "m")), U!Case(<<D("3")>>, U!DVarr(Id("t1" \o x), "m", <<>>))>>, <<>>) >>
EnumSets == <<
  [n |-> "plain", m |-> {"std", "ix", "gap"}, b |-> <<U!Asg("A", D("0")), U!Asg("B", D("1")), U!Asg("C", D("2"))>>],
  [n |-> "single", m |-> {"std", "ix", "gap"}, b |-> <<U!Asg("ONLY_ONE", D("1"))>>],
  [n |-> "sparse", m |-> {"std", "ix", "gap"}, b |-> <<U!Asg("five", D("5")), U!Asg("two", D("2")), U!Asg("Nine", Lit("hex", "9"))>>],
  [n |-> "far", m |-> {"std", "ix", "gap"}, b |-> <<U!Asg("z300", D("300")), U!Asg("z256", Lit("oct", "400")), U!Asg("z255", Lit("hex", "FF")), U!Asg("z0", D("0"))>>],
  [n |-> "gaps", m |-> {"std", "ix", "gap"}, b |-> <<U!Asg("one", D("1")), U!Asg("k700", D("700")), U!Asg("k302", D("302")), U!Asg("k1000", Lit("hex", "3E8"))>>],
  [n |-> "minus", m |-> {"std", "ix"}, b |-> <<U!Asg("zero", D("0")), U!Asg("neg", D("-3")), U!Asg("pos", D("7")), U!Asg("neg1", D("-1"))>>],
  [n |-> "ends", m |-> {"std", "ix"}, b |-> <<U!Asg("hi", D("2147483647")), U!Asg("lo", D("-2147483648")), U!Asg("mid", Lit("hex", "10000"))>>],
  [n |-> "named", m |-> {"std", "ix", "gap"}, b |-> <<U!Asg("na", Name("K_ONE")), U!Asg("nb", Name("K_TWO")), U!Asg("nc", D("4"))>>] >>
EnumDoc(i) ==
  LET e == EnumSets[i]
  IN Doc("enum_" \o e.n, << Enum("e", e.b) >> \o EnumPlaces("e", "x")
                         \o (IF e.n = "named" THEN << Const("K_TWO", Name("K_ONE_")), Const("K_ONE_", Name("other_e")), Const("K_ONE", D("1")),
                                                     Enum("o", <<U!Asg("other_e", Lit("hex", "2"))>>) >> ELSE <<>>))

\* ---- unions ------------------------------------------------------------------------
UnionBase == Base \o << Enum("col", <<U!Asg("RED", D("0")), U!Asg("GREEN", D("1")), U!Asg("BLUE", D("2"))>>),
                        Enum("spr", <<U!Asg("S_SEVEN", D("7")), U!Asg("S_THREE", D("3")), U!Asg("S_FOUR", D("4"))>>),
                        Typedef(U!DVar(Id("spr"), "spr_t")), Typedef(U!DVar(Id("spr_t"), "spr_t2")), Typedef(U!DVar(SInt, "int_t")), Typedef(U!DVar(Ty("bool"), "bool_t")),
                        Typedef(U!DVar(UIntT, "uint_t")), Typedef(U!DVar([k |-> "uint"], "uint_t2")),
                        Const("ONE", D("1")), Const("FIVE", Name("FIVE_")), Const("FIVE_", Lit("oct", "5")),
                        Typedef(U!DOfix("of5", D("5"))), Typedef(U!DOvar("ov", <<>>)), Typedef(U!DStr("st", <<>>)) >>
\* contents of arms
Contents == << U!Void, U!DVar(SInt, "m"), U!DStr("m", <<>>), U!DOvar("m", <<>>), U!DOfix("m", D("5")), U!DOfix("m", D("40")), U!DVar(Id("s1"), "m"),
               U!DOpt(Id("s1"), "m"), U!DFixed(SInt, "m", D("2")), U!DVarr(Id("e1"), "m", <<>>), U!DVar(Id("e1"), "m"), U!DVar(Id("u1"), "m"),
               U!DVar(Id("of5"), "m"), U!DVar(Id("ov"), "m"), U!DVar(Id("st"), "m"), U!DVar(Signed("hyper", TRUE), "m"), U!DOpt(Ty("bool"), "m"),
               U!DVarr(Id("ov"), "m", <<>>), U!DFixed(Id("of5"), "m", D("2")), U!DOpt(Id("ov"), "m"), U!DVar(Ty("double"), "m") >>
Content(i) == Contents[1 + (i % Len(Contents))]
LabelSets == <<
  [c |-> SInt, ls |-> << <<D("0")>>, <<D("1")>> >>], [c |-> SInt, ls |-> << <<D("1")>> >>],
  [c |-> SInt, ls |-> << <<D("2"), D("0")>>, <<Lit("hex", "7")>>, <<D("4"), Lit("oct", "11"), D("3")>> >>],
  [c |-> SInt, ls |-> << <<Name("FIVE")>>, <<Name("ONE")>> >>], [c |-> SInt, ls |-> << <<Name("BLUE")>>, <<Name("S_SEVEN"), Name("RED")>> >>],
  [c |-> UIntT, ls |-> << <<D("0")>>, <<D("3"), D("2")>> >>], [c |-> [k |-> "uint"], ls |-> << <<D("1"), Name("FIVE")>> >>],
  [c |-> Id("int_t"), ls |-> << <<D("6")>>, <<D("5")>> >>], [c |-> Id("uint_t"), ls |-> << <<D("1")>>, <<D("0")>> >>], [c |-> Id("uint_t2"), ls |-> << <<D("1")>>, <<D("0")>> >>],
  [c |-> Ty("bool"), ls |-> << <<Name("FALSE")>>, <<Name("TRUE")>> >>], [c |-> Ty("bool"), ls |-> << <<Name("TRUE")>> >>],
  [c |-> Ty("bool"), ls |-> << <<Name("FALSE")>> >>], [c |-> Id("bool_t"), ls |-> << <<Name("TRUE"), Name("FALSE")>> >>],
  [c |-> Id("col"), ls |-> << <<Name("RED")>>, <<Name("GREEN")>>, <<Name("BLUE")>> >>], [c |-> Id("col"), ls |-> << <<Name("BLUE"), Name("RED")>> >>],
  [c |-> Id("col"), ls |-> << <<D("1")>> >>], [c |-> Id("spr"), ls |-> << <<Name("S_SEVEN")>>, <<Name("S_THREE")>> >>],
  [c |-> Id("spr"), ls |-> << <<Name("S_THREE"), D("4")>>, <<Name("S_SEVEN")>> >>], [c |-> Id("spr_t"), ls |-> << <<Name("S_FOUR")>>, <<Lit("hex", "3")>> >>],
  [c |-> Id("spr_t2"), ls |-> << <<Name("S_FOUR")>>, <<Name("S_SEVEN")>> >>] >>
Defaults == << <<>>, <<U!Void>>, <<U!DVar(SInt, "z")>>, <<U!DOvar("z", <<>>)>>, <<U!DStr("z", <<>>)>>, <<U!DVar(Id("s1"), "z")>>, <<U!DOfix("z", D("5"))>>, <<U!DOpt(Id("s1"), "z")>> >>
UnionOf(n, l, k, def) == Union(n, U!DVar(l.c, "d"), [i \in DOMAIN l.ls |-> U!Case(l.ls[i], Content(k + 5 * i))], def)
FullBool(l) == l.c \in {Ty("bool"), Id("bool_t")} /\ Len(Flat(l.ls)) = 2
UnionDoc(d) ==                        \* every label set, with the d-th default
  Doc("union_" \o S(d),
      UnionBase \o Flat([i \in DOMAIN LabelSets |-> IF FullBool(LabelSets[i]) /\ Defaults[d] # <<>> THEN <<>>
                           ELSE << UnionOf("n" \o S(i), LabelSets[i], 3 * i + d, Defaults[d]) >>]))
ArmsDoc ==                            \* every content
  Doc("arms", UnionBase \o [i \in DOMAIN Contents |-> Union("n" \o S(i), U!DVar(SInt, "d"), <<U!Case(<<D("0")>>, U!Void), U!Case(<<D("1"), D("2")>>, Contents[i])>>, <<>>)]
                        \o [i \in DOMAIN Contents |-> Union("o" \o S(i), U!DVar(Id("spr"), "d"), <<U!Case(<<Name("S_THREE")>>, Contents[i]), U!Case(<<Name("S_FOUR")>>, U!Void)>>, <<>>)]
                        \o << Struct("holds", <<U!DVar(Id("n1"), "a"), U!DOpt(Id("n2"), "b"), U!DVarr(Id("o3"), "c", <<>>), U!DFixed(Id("n5"), "d", D("2"))>>) >>)
\* discriminants beyond 2^31 (unsigned), at the ends of int
HighDoc ==
  Doc("high", Base \o << Union("h1", U!DVar(UIntT, "d"), <<U!Case(<<D("2147483648")>>, U!DVar(SInt, "m")), U!Case(<<Lit("hex", "FFFFFFFF")>>, U!Void), U!Case(<<D("1")>>, U!DStr("m", <<>>))>>, <<>>),
                         Union("h2", U!DVar(SInt, "d"), <<U!Case(<<D("2147483647")>>, U!DVar(SInt, "m")), U!Case(<<Lit("hex", "10000")>>, U!Void)>>, <<>>),
                         Struct("h3", <<U!DVar(Id("h1"), "a"), U!DVar(Id("h2"), "b")>>) >>)

\* ---- typedefs -------------------------------------------------------------------------
Meanings == << U!DVar(SInt, "m"), U!DVar(Signed("hyper", FALSE), "m"), U!DVar(Ty("bool"), "m"), U!DVar(Ty("double"), "m"), U!DVar(Signed("short", FALSE), "m"),
               U!DStr("m", <<>>), U!DOvar("m", <<D("12")>>), U!DOfix("m", D("6")), U!DOfix("m", D("36")), U!DVar(Id("e1"), "m"), U!DVar(Id("s1"), "m"),
               U!DVar(Id("u1"), "m"), U!DFixed(SInt, "m", D("2")), U!DVarr(SInt, "m", <<>>), U!DVarr(Id("s1"), "m", <<>>), U!DOpt(Id("s1"), "m"), U!DOpt(SInt, "m"),
               U!DFixed(Id("e1"), "m", D("3")), U!DVarr(Id("e1"), "m", <<>>) >>
\* i-th meaning: t names it, v a name for that name; both used every way
UsesOf(i) ==
  LET t == "t" \o S(i)
      v == "v" \o S(i)
  IN << Struct("a" \o S(i), <<U!DVar(Id(t), "x"), U!DVar(Id(v), "y"), U!DVar(SInt, "z")>>),
        Typedef(U!DVar(Id(t), v)), Typedef(Named0(Meanings[i], t)),
        Struct("b" \o S(i), <<U!DOpt(Id(t), "x"), U!DVarr(Id(v), "y", <<>>), U!DFixed(Id(t), "z", D("2"))>>),
        Typedef(U!DVarr(Id(v), "w" \o S(i), <<>>)), Typedef(U!DFixed(Id(t), "f" \o S(i), D("2"))),
        Struct("c" \o S(i), <<U!DVar(Id("w" \o S(i)), "x"), U!DOpt(Id("f" \o S(i)), "y")>>),
        Union("g" \o S(i), U!DVar(SInt, "d"), <<U!Case(<<D("0")>>, U!DVar(Id(t), "x")), U!Case(<<D("1")>>, U!DOpt(Id(v), "x")), U!Case(<<D("2")>>, U!DVarr(Id(t), "x", <<>>))>>, <<>>) >>
TypedefDoc == Doc("typedefs", Base \o Flat([i \in DOMAIN Meanings |-> UsesOf(i)]))
\* the same with every typedef replaced by its meaning where it can be
Reversed(defs) == [i \in DOMAIN defs |-> defs[Len(defs) + 1 - i]]
Rotated(defs, k) == [i \in DOMAIN defs |-> defs[1 + ((i + k - 1) % Len(defs))]]
Sprinkled(defs) == Flat([i \in DOMAIN defs |-> (IF i % 3 = 0 THEN <<U!PLine>> ELSE <<>>) \o (IF i % 5 = 1 THEN <<U!ProgN(1 + (i % 2), 2)>> ELSE <<>>) \o <<defs[i]>>])
                   \o <<U!PLine>>
IsOpaqueName(d) == d.d \in {"ofix", "ovar"}
\* with typedefs kept as aliases, names of opaque data cannot be generated
KeptDoc == Doc("kept", Base \o Flat([i \in DOMAIN Meanings |-> IF IsOpaqueName(Meanings[i]) THEN <<>> ELSE UsesOf(i)]))
\* ---- members of named types: a name for every kind of member, and names for that name ----
NamedMembers == Members
RECURSIVE Aliases(_, _, _)            \* n, then n_1 .. n_k, each a name for the one before
Aliases(n, i, k) == IF i > k THEN <<>> ELSE <<Typedef(U!DVar(Id(IF i = 1 THEN n ELSE n \o "_" \o S(i - 1)), n \o "_" \o S(i)))>> \o Aliases(n, i + 1, k)
AliasLen(i) == IF i % 4 = 0 THEN <<2, 3, 5, 9, 17>>[1 + (i % 5)] ELSE 1
NamedDoc ==
  Doc("named", Base \o Flat([i \in DOMAIN NamedMembers |->
      LET t == "t" \o S(i)
      IN << Typedef(Named0(NamedMembers[i], t)),
            Struct("k" \o S(i), <<U!DVar(Id(t), "a"), U!DOpt(Id(t), "b"), U!DFixed(Id(t), "c", D("2")), U!DVarr(Id(t), "d", <<>>), U!DVar(Signed("char", FALSE), "post")>>) >>]))
AliasDoc ==
  Doc("aliases", Base \o Flat([i \in DOMAIN NamedMembers |->
      LET t == "t" \o S(i)
          v == t \o "_" \o S(AliasLen(i))
      IN << Typedef(Named0(NamedMembers[i], t)) >> \o Aliases(t, 1, AliasLen(i)) \o
         << Struct("k" \o S(i), <<U!DVar(Id(v), "a"), U!DOpt(Id(v), "b"), U!DFixed(Id(v), "c", D("2")), U!DVarr(Id(v), "d", <<>>), U!DVar(SInt, "post")>>) >>]))

\* ---- many of everything -------------------------------------------------------------
RECURSIVE LongName(_, _)
LongName(n, x) == IF n = 0 THEN x ELSE LongName(n - 1, "letters_" \o x)
RECURSIVE ConstChain(_, _, _)         \* n_1 = n_2, ..., the last a number
ConstChain(n, i, k) == IF i = k THEN <<Const(n \o S(i), D("6"))>> ELSE <<Const(n \o S(i), Name(n \o S(i + 1)))>> \o ConstChain(n, i + 1, k)
ManyMembersDoc ==
  Doc("manymembers", Base
      \o [i \in 1..4 |-> LET n == <<20, 33, 65, 130>>[i] IN Struct("big" \o S(i), [j \in 1..n |-> Named0(RecMembers[1 + ((i * j) % Len(RecMembers))], "m" \o S(j))])]
      \o [i \in 1..14 |-> Struct("lvl" \o S(i), <<U!DVar(SInt, "v"), IF i = 14 THEN U!DStr("d", <<>>) ELSE U!DVar(Id("lvl" \o S(i + 1)), "d")>>)]
      \o [i \in 1..10 |-> Struct("opt" \o S(i), <<IF i = 10 THEN U!DOfix("d", D("6")) ELSE U!DOpt(Id("opt" \o S(i + 1)), "d")>>)]
      \o ConstChain("CH_A_", 1, 9) \o ConstChain("CH_B_", 1, 20) \o Reversed(ConstChain("CH_C_", 1, 40))
      \o << Struct("chains", <<U!DOfix("a", Name("CH_A_1")), U!DFixed(SInt, "b", Name("CH_B_1")), U!DOfix("c", Name("CH_C_1")), U!DOfix("d", Name("CH_C_30"))>>) >>
      \o [i \in 1..5 |-> LET n == LongName(<<3, 4, 8, 16, 33>>[i], "end") IN Struct(n, <<U!DVar(SInt, n), U!DOfix(n \o "_2", D("5")), U!DOpt(Id("s1"), "x" \o n)>>)])
ManyNumbers(n, k) == [j \in 1..n |-> U!Asg("N" \o S(k) \o "_" \o S(j), D(S(IF k = 3 THEN 2 * j ELSE j - 1)))]
ManyEnumDoc == Doc("enum_many", << Enum("e1", ManyNumbers(40, 1)), Enum("e2", ManyNumbers(140, 2)), Enum("e3", ManyNumbers(90, 3)), Enum("e4", ManyNumbers(300, 4)),
                                   Struct("s", <<U!DVar(Id("e1"), "a"), U!DVar(Id("e2"), "b"), U!DVarr(Id("e3"), "c", <<>>), U!DOpt(Id("e4"), "d")>>) >>)
\* arms of many labels, many arms; label j of arm i
RECURSIVE LabelRuns(_, _)
LabelRuns(from, ns) == IF ns = <<>> THEN <<>> ELSE <<[j \in 1..ns[1] |-> D(S(from + j - 1))]>> \o LabelRuns(from + ns[1], Tail(ns))
RunsOf(i) == << <<9>>, <<8, 1>>, <<1, 10, 2>>, <<16, 17>>, <<3, 33, 1>>, <<65>>, <<5, 5, 5, 5, 5, 5>>, <<2, 130, 1>> >>[i]
NamedRuns(i) == LET ls == LabelRuns(0, RunsOf(i)) IN [a \in DOMAIN ls |-> [j \in DOMAIN ls[a] |-> IF j % 4 = 0 THEN ls[a][j] ELSE Name("N2_" \o S(1 + NumberOf(ls[a][j]).l[5]))]]
ManyArms(n) == [i \in 1..n |-> U!Case(<<D(S(i - 1))>>, IF i % 7 = 0 THEN U!Void ELSE Content(2 + ((3 * i) % 11)))]
ManyLabelsDoc(def) ==
  Doc("labels_many" \o S(Len(def)), UnionBase \o <<Enum("e2", ManyNumbers(140, 2))>>
      \o [i \in 1..8 |-> UnionOf("a" \o S(i), [c |-> SInt, ls |-> LabelRuns(1, RunsOf(i))], i, def)]
      \o [i \in 1..8 |-> UnionOf("b" \o S(i), [c |-> UIntT, ls |-> LabelRuns(0, Reversed(RunsOf(i)))], 3 * i + 1, def)]
      \o [i \in 1..8 |-> UnionOf("c" \o S(i), [c |-> Id("e2"), ls |-> NamedRuns(i)], 5 * i + 2, def)]
      \o [i \in 1..4 |-> Union("d" \o S(i), U!DVar(IF i = 2 THEN Id("int_t") ELSE SInt, "d"), ManyArms(<<12, 35, 70, 135>>[i]), def)])
\* ---- numbers ----------------------------------------------------------------------------
\* every base at every end of every range
NumLits == << D("0"), D("1"), D("7"), D("8"), D("9"), D("10"), D("31"), D("32"), D("99"), D("255"), D("256"), D("300"), D("32768"), D("65535"), D("65536"),
              D("1234567"), D("2147483647"), D("2147483648"), D("4294967295"), D("4294967296"), D("4294967297"), D("9007199254740993"),
              D("9223372036854775807"), D("9223372036854775808"), D("18446744073709551615"),
              Lit("hex", "0"), Lit("hex", "9"), Lit("hex", "a"), Lit("hex", "F"), Lit("hex", "10"), Lit("hex", "11"), Lit("hex", "1f"), Lit("hex", "20"), Lit("hex", "FF"),
              Lit("hex", "100"), Lit("hex", "0000000000000000000012"), Lit("hex", "fFfF"), Lit("hex", "10000"), Lit("hex", "7FFFFFFF"), Lit("hex", "80000000"),
              Lit("hex", "DEADbeef"), Lit("hex", "ffffffff"), Lit("hex", "100000000"), Lit("hex", "123456789ABCDEF"), Lit("hex", "7fffffffffffffff"),
              Lit("hex", "8000000000000000"), Lit("hex", "FFFFFFFFFFFFFFFF"),
              Lit("oct", "0"), Lit("oct", "7"), Lit("oct", "10"), Lit("oct", "11"), Lit("oct", "17"), Lit("oct", "40"), Lit("oct", "100"), Lit("oct", "377"), Lit("oct", "400"),
              Lit("oct", "00000000000000000000000000031"), Lit("oct", "177777"), Lit("oct", "200000"), Lit("oct", "17777777777"), Lit("oct", "20000000000"),
              Lit("oct", "37777777777"), Lit("oct", "40000000000"), Lit("oct", "777777777777777777777"), Lit("oct", "1000000000000000000000"), Lit("oct", "1777777777777777777777") >>
Fitting(Fits(_)) == SelectSeq(NumLits, LAMBDA v : Fits(NumberOf(v)))
AtMost(x, n) == FitsU32(x) /\ x.l[4] = 0 /\ x.l[5] <= n
Prefixed(p, i) == p \o "_" \o S(i)
\* constants, constants for constants (used before and after they are defined), for enumerators of enums
ConstsDoc ==
  LET ls == Fitting(FitsU64)
      es == Fitting(FitsI32)
  IN Doc("consts", Flat([i \in DOMAIN ls |-> << Const(Prefixed("C3", i), Name(Prefixed("c2", i))), Const(Prefixed("c2", i), Name(Prefixed("C1", i))), Const(Prefixed("C1", i), ls[i]) >>])
                   \o Flat([i \in DOMAIN es |-> << Const(Prefixed("d2", i), Name(Prefixed("D_1", i))), Enum(Prefixed("den", i), <<U!Asg(Prefixed("den_a", i), es[i])>>),
                                                   Const(Prefixed("D_1", i), Name(Prefixed("den_a", i))) >>])
                   \o [i \in DOMAIN ls |-> Const(Prefixed("C4", i), Name(Prefixed("C3", i)))])
\* enumerators by literal, by constant, by chain, by an enumerator of another enum, of the same enum
EnumsOf(ls) ==
  Flat([i \in DOMAIN ls |-> << Enum(Prefixed("ea", i), <<U!Asg(Prefixed("la", i), ls[i])>>), Const(Prefixed("k2", i), Name(Prefixed("k", i))),
                               Enum(Prefixed("eb", i), <<U!Asg(Prefixed("lb", i), Name(Prefixed("k", i)))>>), Const(Prefixed("k", i), ls[i]),
                               Enum(Prefixed("ec", i), <<U!Asg(Prefixed("lc", i), Name(Prefixed("k2", i)))>>),
                               Enum(Prefixed("ed", i), <<U!Asg(Prefixed("ld", i), Name(Prefixed("lb", i)))>>) >>])
Minus == << D("-1"), D("-2"), D("-255"), D("-65536"), D("-2147483647"), D("-2147483648") >>
EnumNumsDoc == Doc("enumnums", EnumsOf(Fitting(FitsI32)) \o Flat([i \in DOMAIN Minus |->
                 << Enum(Prefixed("ma", i), <<U!Asg(Prefixed("na", i), Minus[i])>>), Enum(Prefixed("mb", i), <<U!Asg(Prefixed("nb", i), Name(Prefixed("na", i))), U!Asg(Prefixed("nc", i), D("3"))>>) >>]))
SmallNums == Fitting(LAMBDA x : AtMost(x, 300))
EnumSmallDoc == Doc("enumsmall", EnumsOf(SmallNums))
\* labels by literal, constant, chain, enumerator
UnionsOf(n, cond, ls) ==
  Flat([i \in DOMAIN ls |-> << Union(n \o Prefixed("a", i), U!DVar(cond, "d"), <<U!Case(<<ls[i]>>, U!DVar(SInt, "x"))>>, <<>>), Const(n \o Prefixed("k2", i), Name(n \o Prefixed("k", i))),
                               Union(n \o Prefixed("b", i), U!DVar(cond, "d"), <<U!Case(<<Name(n \o Prefixed("k", i))>>, U!DStr("x", <<>>))>>, <<>>), Const(n \o Prefixed("k", i), ls[i]),
                               Union(n \o Prefixed("c", i), U!DVar(cond, "d"), <<U!Case(<<Name(n \o Prefixed("k2", i))>>, U!Void)>>, <<>>) >>])
LabelsDoc == Doc("labels", UnionsOf("i", SInt, Fitting(FitsI32)) \o UnionsOf("u", UIntT, Fitting(FitsU32)))
LabelSmallDoc == Doc("labelsmall", UnionsOf("i", SInt, SmallNums) \o UnionsOf("u", UIntT, SmallNums)
                   \o << Enum("en", <<U!Asg("en_a", Lit("oct", "11")), U!Asg("en_b", Lit("hex", "11")), U!Asg("en_c", Name("en_k"))>>), Const("en_k", D("11")),
                         Union("n1", U!DVar(Id("en"), "d"), <<U!Case(<<Name("en_a")>>, U!DVar(SInt, "x")), U!Case(<<Name("en_b")>>, U!DStr("x", <<>>)), U!Case(<<Name("en_c")>>, U!Void)>>, <<>>),
                         Union("n2", U!DVar(Id("en"), "d"), <<U!Case(<<Lit("oct", "13")>>, U!DVar(SInt, "x")), U!Case(<<D("17"), Lit("hex", "9")>>, U!DStr("x", <<>>))>>, <<>>),
                         Union("n3", U!DVar(SInt, "d"), <<U!Case(<<Name("en_b")>>, U!DVar(SInt, "x")), U!Case(<<Name("en_k"), Name("en_a")>>, U!DStr("x", <<>>))>>, <<>>) >>)
\* sizes
SizesOf(p, ls, D1(_)) ==
  Flat([i \in DOMAIN ls |-> << Struct(p \o Prefixed("a", i), <<D1(ls[i])>>), Const(p \o Prefixed("k2", i), Name(p \o Prefixed("k", i))),
                               Struct(p \o Prefixed("b", i), <<D1(Name(p \o Prefixed("k", i)))>>), Const(p \o Prefixed("k", i), ls[i]),
                               Struct(p \o Prefixed("c", i), <<D1(Name(p \o Prefixed("k2", i)))>>), Enum(p \o Prefixed("e", i), <<U!Asg(p \o Prefixed("en", i), ls[i])>>),
                               Struct(p \o Prefixed("d", i), <<D1(Name(p \o Prefixed("en", i)))>>) >>])
NumSizesDoc ==
  Doc("numsizes", SizesOf("o", Fitting(LAMBDA x : AtMost(x, 300) /\ ~AtMost(x, 0)), LAMBDA v : U!DOfix("m", v))
               \o SizesOf("f", Fitting(LAMBDA x : AtMost(x, 32) /\ ~AtMost(x, 0)), LAMBDA v : U!DFixed(SInt, "m", v))
               \o SizesOf("t", Fitting(LAMBDA x : AtMost(x, 12) /\ ~AtMost(x, 0)), LAMBDA v : U!DFixed(Ty("bool"), "m", v)))

\* one value at one place
Values ==
  LET cs == { D(t) : t \in { "0", "2", "2147483646", "2147483647", "2147483648", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616",
                             "340282366920938463463374607431768211456", "99999999999999999999999999999999999999999", "-1", "-2", "-2147483648", "-2147483649",
                             "-4294967295", "-9223372036854775808", "-9223372036854775809", "-18446744073709551616" } }
            \cup { Lit("hex", t) : t \in { "0", "7fffffff", "80000000", "FFFFFFFF", "100000000", "ffffffffffffffff", "10000000000000000", "FFFFFFFFFFFFFFFFFFFFFFFFF", "00000000000000000000000000000000000002" } }
            \cup { Lit("oct", t) : t \in { "0", "17777777777", "20000000000", "37777777777", "40000000000", "1777777777777777777777", "2000000000000000000000", "7777777777777777777777777777777", "0000000000000000000000000000000000000000000000002" } }
      Lone == { [n |-> "", e |-> <<>>, v |-> c] : c \in cs }
      By(k, e) == [n |-> k, e |-> e, v |-> Name("zz")]
      C1(n, v) == Const(n, v)
      Named1 == { By("one", <<C1("zz", c)>>) : c \in cs }
      Named2 == { By("two", <<C1("zz", Name("yy")), C1("yy", Name("xx")), C1("xx", c)>>) : c \in cs }
      Enumd == { By("enum", <<Enum("ee", <<U!Asg("zz", c), U!Asg("yy", D("1"))>>)>>) : c \in cs }
      Mixed == { By("mixed", <<C1("zz", Name("yy")), Enum("ee", <<U!Asg("yy", Name("xx"))>>), C1("xx", c)>>) : c \in { D("2"), D("4294967296"), D("-2"), D("18446744073709551616") } }
      Bad == { By("unknown", <<>>), By("unknown2", <<C1("zz", Name("yy"))>>), By("circle1", <<C1("zz", Name("zz"))>>),
               By("circle2", <<C1("zz", Name("yy")), C1("yy", Name("zz"))>>), By("circle3", <<C1("xx", Name("zz")), C1("zz", Name("yy")), C1("yy", Name("xx"))>>),
               By("rho", <<C1("zz", Name("yy")), C1("yy", Name("xx")), C1("xx", Name("yy"))>>),
               By("ecircle", <<Enum("ee", <<U!Asg("zz", Name("zz"))>>)>>), By("ecircle2", <<Enum("ee", <<U!Asg("zz", Name("yy")), U!Asg("yy", Name("zz"))>>)>>),
               By("mcircle", <<Enum("ee", <<U!Asg("zz", Name("yy"))>>), C1("yy", Name("zz"))>>), By("case", <<C1("ZZ", D("2")), C1("zZ", D("2"))>>),
               By("type", <<Struct("zz", <<U!DVar(SInt, "m")>>)>>), By("enumname", <<Enum("zz", <<U!Asg("yy", D("2"))>>)>>), By("member", <<Struct("s", <<U!DVar(SInt, "zz")>>)>>) }
  IN Lone \cup Named1 \cup Named2 \cup Enumd \cup Mixed \cup Bad
PlaceNames == { "const", "enum", "enum2", "lint", "luint", "lenum", "lbool", "ltype", "lsecond", "size", "osize", "tsize", "alone", "arm", "default", "bound", "obound", "prog" }
TwoArms(cond, vs) == <<Union("p", U!DVar(cond, "d"), <<U!Case(<<D("5")>>, U!Void), U!Case(vs, U!DVar(SInt, "m"))>>, <<>>)>>
PlaceOf(p, v) ==
  CASE p = "const" -> <<Const("p", v)>>
    [] p = "enum" -> <<Enum("p", <<U!Asg("pa", v)>>)>>
    [] p = "enum2" -> <<Enum("p", <<U!Asg("pa", D("7")), U!Asg("pb", v)>>)>>
    [] p = "lint" -> TwoArms(SInt, <<v>>) [] p = "luint" -> TwoArms(UIntT, <<v>>) [] p = "lbool" -> TwoArms(Ty("bool"), <<v>>)
    [] p = "lenum" -> <<Enum("q", <<U!Asg("qa", D("2")), U!Asg("qb", D("5"))>>)>> \o TwoArms(Id("q"), <<v>>)
    [] p = "ltype" -> <<Typedef(U!DVar(SInt, "q"))>> \o TwoArms(Id("q"), <<v>>)
    [] p = "lsecond" -> TwoArms(SInt, <<D("9"), v>>)
    [] p = "size" -> <<Struct("p", <<U!DFixed(SInt, "m", v)>>)>>
    [] p = "osize" -> <<Struct("p", <<U!DOfix("m", v)>>)>>
    [] p = "tsize" -> <<Struct("p", <<U!DVar(Id("q"), "m")>>), Typedef(U!DFixed(Id("r"), "q", D("2"))), Typedef(U!DOfix("r", v))>>
    [] p = "alone" -> <<Typedef(U!DFixed(SInt, "q", v))>>
    [] p = "arm" -> <<Union("p", U!DVar(SInt, "d"), <<U!Case(<<D("5")>>, U!DOfix("m", v))>>, <<>>)>>
    [] p = "default" -> <<Union("p", U!DVar(SInt, "d"), <<U!Case(<<D("5")>>, U!Void)>>, <<U!DFixed(UIntT, "m", v)>>)>>
    [] p = "bound" -> <<Struct("p", <<U!DVarr(SInt, "m", <<v>>), U!DStr("s", <<v>>)>>)>>
    [] p = "obound" -> <<Struct("p", <<U!DOvar("m", <<v>>)>>)>>
    [] p = "prog" -> <<U!Prog("p", <<U!Vers("q", <<U!Proc(Ty("void"), "r", Ty("void"), v)>>, v)>>, v)>>
\* ---- names that must be escaped, in code that is compiled ------------------------------
Words0 == LET set == { w \in RustKeywords \cup NeverRaw : IsName(w) } \cup { "_", "_1", "_1a", "_9_9" }
              RECURSIVE Listed(_)
              Listed(s) == IF s = {} THEN <<>> ELSE LET w == CHOOSE w \in s : TRUE IN <<w>> \o Listed(s \ {w})
          IN Listed(set)
Members0 == SelectSeq(Words0, LAMBDA w : w # "Self")            \* one member per Rust name
WordsDoc ==
  Doc("words", << Struct("self", <<U!DVar(SInt, "self")>>), Struct("holder", [i \in DOMAIN Members0 |-> U!DVar(Signed("char", FALSE), Members0[i])]),
                  Struct("opaques", [i \in DOMAIN Members0 |-> IF i % 2 = 0 THEN U!DOvar(Members0[i], <<>>) ELSE U!DOfix(Members0[i], D("3"))]),
                  Enum("kinds", [i \in DOMAIN Members0 |-> U!Asg(Members0[i], D(S(3 + 2 * i)))]),
                  Struct("uses", <<U!DVar(Id("kinds"), "type"), U!DOpt(Id("self"), "SELF"), U!DFixed(SInt, "move", D("2"))>>),
                  Union("gen", U!DVar(Id("kinds"), "match"), [i \in 1..6 |-> U!Case(<<Name(Members0[i])>>, IF i % 2 = 0 THEN U!Void ELSE U!DVar(Id("kinds"), "in"))], <<>>),
                  Union("where", U!DVar(SInt, "match"), [i \in 1..6 |-> U!Case(<<Name(Members0[i])>>, IF i % 2 = 0 THEN U!Void ELSE U!DVar(Id("self"), "in"))], <<>>) >>)
WordConstsDoc ==
  Doc("wordconsts", << Struct("type", <<U!DFixed(SInt, "move", Name("final")), U!DOfix("async", Name("crate"))>>),
                       Const("final", D("2")), Const("super", D("7")), Const("crate", Name("r_self")), Const("r_self", Name("super")), Const("Self", D("1")), Const("_", D("4")) >>)
=============================================================================
