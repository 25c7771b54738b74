----------------------------- MODULE IdlUniverse -----------------------------
(* The specifications the model talks about: sequences of definitions.        *)
EXTENDS IdlSyntax

Dec(t) == Lit("dec", t)
Hex(t) == Lit("hex", t)
Oct(t) == Lit("oct", t)
Asg(n, v) == [n |-> n, v |-> v]
SInt == Signed("int", TRUE)
UInt == Signed("int", FALSE)
IdT(n) == [k |-> "id", n |-> n]
Void == [d |-> "void"]
DVar(ty, n) == [d |-> "var", ty |-> ty, n |-> n, v |-> <<>>]
DOpt(ty, n) == [d |-> "opt", ty |-> ty, n |-> n, v |-> <<>>]
DFixed(ty, n, v) == [d |-> "fixed", ty |-> ty, n |-> n, v |-> <<v>>]
DVarr(ty, n, v) == [d |-> "varr", ty |-> ty, n |-> n, v |-> v]
DOfix(n, v) == [d |-> "ofix", n |-> n, v |-> <<v>>]
DOvar(n, v) == [d |-> "ovar", n |-> n, v |-> v]
DStr(n, v) == [d |-> "str", n |-> n, v |-> v]
Case(vs, d) == [vs |-> vs, d |-> d]
Body(cond, cases, def) == [cond |-> cond, cases |-> cases, def |-> def]
PConst(n, v) == [p |-> "const", a |-> Asg(n, v)]
PTypedef(d) == [p |-> "typedef", d |-> d]
PEnum(n, b) == [p |-> "enum", n |-> n, b |-> b]
PStructDef(n, b) == [p |-> "struct", n |-> n, b |-> b]
PUnionDef(n, b) == [p |-> "union", n |-> n, u |-> b]
PLine == [p |-> "line"]
Proc(res, n, req, v) == [res |-> res, n |-> n, req |-> req, v |-> v]
Vers(n, procs, v) == [n |-> n, procs |-> procs, v |-> v]
Prog(n, vers, v) == [p |-> "prog", n |-> n, vers |-> vers, v |-> v]

\* ---- names -----------------------------------------------------------------------
Keywordish(w) == { w \o "x", w \o "_", w \o "1", "x" \o w, "_" \o w }
NameUniverse == UNION { Keywordish(w) : w \in Reserved \cup Extra }
                \cup { "a", "Z", "_", "__", "a1", "A_b_C", "TRUE", "x0x", "o", "unsignedint", "structure", "enumeration",
                       "typedefs", "Const", "INT", "Void", "switches", "versions", "programs", "l", "I", "E1", "type", "match",
                       "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789" }
NamePlaces(n) ==
  { <<PConst(n, Dec("1"))>>, <<PConst("a", Name(n))>>,
    <<PTypedef(DVar(SInt, n))>>, <<PTypedef(DVar(Ty("bool"), n))>>, <<PTypedef(DVar(IdT(n), "a"))>>, <<PTypedef(DVar(Ty("uint"), n))>>,
    <<PTypedef(DOpt(IdT(n), n))>>, <<PTypedef(DFixed(IdT(n), n, Name(n)))>>, <<PTypedef(DVarr(IdT(n), n, <<Name(n)>>))>>,
    <<PTypedef(DVarr(UInt, n, <<>>))>>, <<PTypedef(DOfix(n, Name(n)))>>, <<PTypedef(DOvar(n, <<Name(n)>>))>>,
    <<PTypedef(DOvar(n, <<>>))>>, <<PTypedef(DStr(n, <<Name(n)>>))>>, <<PTypedef(DStr(n, <<>>))>>,
    <<PEnum(n, <<Asg(n, Name(n)), Asg("b", Dec("2"))>>)>>, <<PEnum("e", <<Asg("b", Dec("2")), Asg(n, Dec("0"))>>)>>,
    <<PStructDef(n, <<DVar(IdT(n), n), DOpt(SInt, n)>>)>>,
    <<PUnionDef(n, Body(DVar(IdT(n), n), <<Case(<<Name(n)>>, DVar(IdT(n), n)), Case(<<Name("b"), Name(n)>>, Void)>>, <<DVar(IdT(n), n)>>))>>,
    <<PTypedef(DVar([k |-> "enum", b |-> <<Asg(n, Dec("1"))>>], n))>>,
    <<PTypedef(DVar([k |-> "struct", b |-> <<DVar(IdT(n), n)>>], n))>>,
    <<PTypedef(DVar([k |-> "union", u |-> Body(DVar(SInt, n), <<Case(<<Name(n)>>, Void)>>, <<>>)], n))>>,
    <<Prog(n, <<Vers(n, <<Proc(IdT(n), n, IdT(n), Name(n)), Proc(Ty("void"), n, Ty("void"), Dec("2"))>>, Name(n))>>, Name(n))>> }

\* ---- types and declarations ----------------------------------------------------------
Plains == { Signed(k, s) : k \in {"int", "hyper", "char", "short"}, s \in BOOLEAN }
          \cup { Ty(k) : k \in {"float", "double", "quadruple", "bool", "uint"} } \cup { IdT("t"), IdT("unsigned_t"), IdT("int8_t") }
InlineOf(ts) == UNION { { [k |-> "struct", b |-> <<DVar(t, "m"), DOpt(t, "o")>>],
                          [k |-> "union", u |-> Body(DVar(SInt, "d"), <<Case(<<Dec("1")>>, DVar(t, "m"))>>, <<>>)],
                          [k |-> "union", u |-> Body(DVar(t, "d"), <<Case(<<Dec("1"), Name("A")>>, Void)>>, <<DVar(t, "m")>>)] } : t \in ts }
InlineEnums == { [k |-> "enum", b |-> <<Asg("A", Dec("1"))>>], [k |-> "enum", b |-> <<Asg("A", Hex("0")), Asg("B", Dec("-3"))>>] }
Inline1 == InlineEnums \cup InlineOf({SInt, Ty("uint"), IdT("t"), Ty("bool")})
Inline2 == InlineOf({ [k |-> "enum", b |-> <<Asg("A", Dec("1"))>>], [k |-> "struct", b |-> <<DVar(SInt, "m")>>] })
Types == Plains \cup Inline1 \cup Inline2
DeclsOf(ts) == UNION { { DVar(t, "n"), DOpt(t, "n"), DFixed(t, "n", Dec("3")), DVarr(t, "n", <<>>), DVarr(t, "n", <<Hex("aF")>>) } : t \in ts }
OtherDecls == { Void, DOfix("n", Dec("8")), DOfix("n", Oct("10")), DOvar("n", <<>>), DOvar("n", <<Name("MAX")>>), DStr("n", <<>>), DStr("n", <<Dec("255")>>) }
DeclPlaces(d) ==
  { <<PTypedef(d)>>, <<PStructDef("s", <<d>>)>>, <<PStructDef("s", <<DVar(SInt, "a"), d, DStr("z", <<>>)>>)>>,
    <<PUnionDef("u", Body(d, <<Case(<<Dec("1")>>, Void)>>, <<>>))>>,
    <<PUnionDef("u", Body(DVar(SInt, "c"), <<Case(<<Dec("1")>>, d), Case(<<Dec("2"), Dec("3")>>, d)>>, <<d>>))>> }
TypePlaces(t) ==
  { <<Prog("P", <<Vers("V", <<Proc(t, "f", Ty("void"), Dec("1")), Proc(Ty("void"), "g", t, Dec("2"))>>, Dec("1"))>>, Hex("20000000"))>> }
TypeUniverse == UNION { DeclPlaces(d) : d \in DeclsOf(Types) \cup OtherDecls } \cup UNION { TypePlaces(t) : t \in Types }

\* ---- values ------------------------------------------------------------------------
Values == { Dec(t) : t \in {"0", "1", "9", "10", "-1", "-9", "1234567890", "-2147483648", "2147483647", "2147483648", "4294967295",
                            "4294967296", "99999999999999999999", "7", "8", "6", "5", "100", "109", "987654321"} }
          \cup { Hex(t) : t \in {"0", "1", "a", "F", "00ff", "DEADBEEF", "0123456789abcdefABCDEF", "20000099", "e1"} }
          \cup { Oct(t) : t \in {"0", "7", "17", "007", "01234567", "37777777777", "00"} }
          \cup { Name(n) : n \in {"A", "TRUE", "FALSE", "x0", "_9", "a_b"} }
ValuePlaces(v) ==
  { <<PConst("a", v)>>, <<PEnum("e", <<Asg("a", v)>>)>>, <<PEnum("e", <<Asg("a", v), Asg("b", v), Asg("c", Dec("1"))>>)>>,
    <<PTypedef(DFixed(SInt, "n", v))>>, <<PTypedef(DVarr(SInt, "n", <<v>>))>>, <<PTypedef(DOfix("n", v))>>,
    <<PTypedef(DOvar("n", <<v>>))>>, <<PTypedef(DStr("n", <<v>>))>>,
    <<PUnionDef("u", Body(DVar(SInt, "c"), <<Case(<<v>>, Void), Case(<<Dec("1"), v>>, Void)>>, <<>>))>>,
    <<Prog("P", <<Vers("V", <<Proc(SInt, "f", SInt, v)>>, v)>>, v)>> }
ValueUniverse == UNION { ValuePlaces(v) : v \in Values }

\* ---- shapes: how many of everything -----------------------------------------------------
Take(s, n) == SubSeq(s, 1, n)
EnumN(n) == PEnum("e", [i \in 1..n |-> Asg("v" \o ToString(i), Dec(ToString(i)))])
StructN(n) == PStructDef("s", [i \in 1..n |-> DVar(SInt, "m" \o ToString(i))])
UnionN(n, l, def) == PUnionDef("u", Body(DVar(SInt, "c"), [i \in 1..n |->
                       Case([j \in 1..l |-> Dec(ToString(10 * i + j))], IF i % 2 = 0 THEN Void ELSE DVar(SInt, "m"))], def))
ProgN(n, m) == Prog("P", [i \in 1..n |-> Vers("V" \o ToString(i), [j \in 1..m |->
                 Proc(IF j % 2 = 0 THEN Ty("void") ELSE IdT("r"), "f" \o ToString(j), IF j % 3 = 0 THEN Ty("bool") ELSE Ty("void"), Dec(ToString(j)))],
                 Dec(ToString(i)))], Dec("100000"))
ShapeUniverse ==
  { <<EnumN(n)>> : n \in 1..6 } \cup { <<StructN(n)>> : n \in 1..6 }
  \cup { <<UnionN(n, l, def)>> : n \in 1..4, l \in 1..4, def \in { <<>>, <<Void>>, <<DStr("z", <<>>)>>, <<DOvar("z", <<Dec("4")>>)>> } }
  \cup { <<ProgN(n, m)>> : n \in 1..4, m \in 1..4 }
  \cup { <<>>, <<PLine>>, <<PLine, PLine>>, [i \in 1..40 |-> PConst("c" \o ToString(i), Dec(ToString(i)))] }

\* ---- many of everything, long names and literals ---------------------------------------------
RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN "" ELSE IF n = 1 THEN s ELSE Times(s, n \div 2) \o Times(s, n - n \div 2)
Several == {7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 130, 255, 256, 257}
Fewer == {5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 129}
StructMixed(n) == PStructDef("s", [i \in 1..n |-> LET m == "m" \o ToString(i) IN
                    CASE i % 7 = 0 -> DOpt(IdT("t"), m) [] i % 7 = 1 -> DVar(SInt, m) [] i % 7 = 2 -> DOvar(m, <<>>) [] i % 7 = 3 -> DFixed(Ty("bool"), m, Dec("3"))
                      [] i % 7 = 4 -> DStr(m, <<Name("MAX")>>) [] i % 7 = 5 -> DVarr(IdT("t"), m, <<>>) [] i % 7 = 6 -> DOfix(m, Hex("1f"))])
UnionNames(n, l) == PUnionDef("u", Body(DVar(IdT("c"), "c"), [i \in 1..n |-> Case([j \in 1..l |-> Name("L" \o ToString(i) \o "_" \o ToString(j))], IF i % 3 = 0 THEN Void ELSE DVar(IdT("t"), "m" \o ToString(i)))],
                                   IF n % 2 = 0 THEN <<Void>> ELSE <<>>))
DefsMixed(n) == [i \in 1..n |-> LET m == ToString(i) IN
                  CASE i % 6 = 0 -> PConst("c" \o m, Dec(m)) [] i % 6 = 1 -> PTypedef(DVar(UInt, "t" \o m)) [] i % 6 = 2 -> PEnum("e" \o m, <<Asg("v" \o m, Dec("0"))>>)
                    [] i % 6 = 3 -> PStructDef("s" \o m, <<DVar(IdT("t" \o m), "a"), DStr("b", <<>>)>>) [] i % 6 = 4 -> PUnionDef("u" \o m, Body(DVar(SInt, "d"), <<Case(<<Dec(m)>>, Void)>>, <<>>))
                    [] i % 6 = 5 -> PLine]
\* types written within types, n deep
RECURSIVE StructIn(_), UnionIn(_), MixedIn(_)
StructIn(n) == [k |-> "struct", b |-> IF n = 0 THEN <<DVar(SInt, "x")>> ELSE <<DVar(StructIn(n - 1), "m")>>]
UnionIn(n) == [k |-> "union", u |-> Body(DVar(SInt, "d"), <<Case(<<Dec("1")>>, IF n = 0 THEN Void ELSE DVar(UnionIn(n - 1), "m"))>>, IF n % 2 = 0 THEN <<>> ELSE <<Void>>)]
MixedIn(n) == IF n = 0 THEN [k |-> "enum", b |-> <<Asg("A", Dec("1"))>>]
              ELSE IF n % 2 = 0 THEN [k |-> "struct", b |-> <<DVar(SInt, "a"), DFixed(MixedIn(n - 1), "m", Dec("2")), DStr("z", <<>>)>>]
              ELSE [k |-> "union", u |-> Body(DVar(Ty("bool"), "d"), <<Case(<<Name("TRUE")>>, DOpt(MixedIn(n - 1), "m")), Case(<<Name("FALSE")>>, Void)>>, <<>>)]
LongNames == UNION { { Times(w, n) : w \in {"a", "Z", "_", "aB_", "x9", "int", "_e_"} } : n \in {20, 31, 32, 33, 63, 64, 65, 85, 86, 127, 128, 129, 255, 256, 257, 400} }
LongValues == UNION { { Dec(Times("9", n)), Dec("-" \o Times("1", n)), Dec("1" \o Times("0", n)), Hex(Times("0", n)), Hex(Times("fF", n)), Oct(Times("7", n)), Oct(Times("0", n)), Name(Times("v", n)) }
                      : n \in {8, 9, 10, 11, 16, 17, 19, 20, 21, 31, 32, 33, 39, 40, 64, 65, 100, 128, 129, 255, 256, 257} }
ManyUniverse ==
  { <<EnumN(n)>> : n \in Several } \cup { <<StructN(n)>> : n \in Several } \cup { <<StructMixed(n)>> : n \in Several }
  \cup { <<UnionN(n, 1, <<>>)>> : n \in Several } \cup { <<UnionN(2, n, <<Void>>)>> : n \in Several } \cup { <<UnionNames(n, 3)>> : n \in Fewer } \cup { <<UnionNames(2, n)>> : n \in Fewer }
  \cup { <<ProgN(n, 1)>> : n \in Fewer } \cup { <<ProgN(1, n)>> : n \in Fewer } \cup { <<ProgN(n, n)>> : n \in {5, 8, 9, 12} }
  \cup { DefsMixed(n) : n \in Several } \cup { [i \in 1..n |-> PLine] : n \in Several }
  \cup UNION { { <<PTypedef(DVar(StructIn(n), "t"))>>, <<PStructDef("s", <<DVar(UnionIn(n), "m"), DVar(SInt, "z")>>)>>, <<PTypedef(DVarr(MixedIn(n), "t", <<>>))>> } : n \in (1..12) \cup {16} }
  \cup UNION { { <<PConst(n, Dec("1"))>>, <<PTypedef(DVar(IdT(n), n))>>, <<PEnum(n, <<Asg(n, Name(n)), Asg("z", Dec("1"))>>)>>, <<PStructDef(n, <<DVarr(IdT(n), n, <<Name(n)>>), DStr("z", <<>>)>>)>>,
                 <<PUnionDef(n, Body(DVar(IdT(n), n), <<Case(<<Name(n)>>, DVar(IdT(n), n)), Case(<<Name("b"), Name(n)>>, Void)>>, <<DOvar(n, <<>>)>>))>>,
                 <<Prog(n, <<Vers(n, <<Proc(IdT(n), n, IdT(n), Name(n)), Proc(Ty("void"), n, Ty("void"), Dec("2"))>>, Name(n))>>, Name(n))>> } : n \in LongNames }
  \cup UNION { ValuePlaces(v) : v \in LongValues }

\* ---- sequences ------------------------------------------------------------------------
Singles == { PConst("A", Hex("10")), PTypedef(DVar(UInt, "t")), PTypedef(DOpt(IdT("s"), "p")), PEnum("e", <<Asg("A", Dec("1")), Asg("B", Dec("-2"))>>),
             PStructDef("s", <<DVar(IdT("t"), "x"), DOvar("y", <<>>)>>), UnionN(2, 1, <<Void>>), ProgN(1, 1), PLine,
             PTypedef(DVar(Ty("uint"), "inty")), PStructDef("structs", <<DVar(IdT("enums"), "cases")>>) }
SeqUniverse == { <<a, b>> : a \in Singles, b \in Singles } \cup { <<a, b, c>> : a \in Singles, b \in Singles, c \in Singles }

\* ---- a few of everything, for edits ------------------------------------------------------
Few == { <<PConst("a", Dec("1"))>>, <<PConst("max", Hex("1F"))>>, <<PConst("a", Oct("17"))>>, <<PConst("a", Dec("-5"))>>, <<PConst("a", Name("b"))>>,
         <<PTypedef(DVar(Ty("uint"), "t"))>>, <<PTypedef(DVar(Signed("hyper", FALSE), "t"))>>, <<PTypedef(DVar(Ty("bool"), "t"))>>,
         <<PTypedef(DOpt(IdT("s"), "t"))>>, <<PTypedef(DOfix("t", Dec("16")))>>, <<PTypedef(DOvar("t", <<Name("M")>>))>>, <<PTypedef(DStr("t", <<>>))>>,
         <<PTypedef(DFixed(Ty("float"), "t", Name("N")))>>, <<PTypedef(DVarr(IdT("s"), "t", <<>>))>>, <<PTypedef(DVarr(UInt, "t", <<Dec("4")>>))>>,
         <<PTypedef(DVar([k |-> "enum", b |-> <<Asg("A", Dec("1"))>>], "t"))>>,
         <<PTypedef(DVar([k |-> "struct", b |-> <<DVar(SInt, "m")>>], "t"))>>,
         <<PEnum("e", <<Asg("A", Dec("0")), Asg("B", Hex("2"))>>)>>, <<PStructDef("s", <<DVar(SInt, "a"), DStr("b", <<Dec("9")>>)>>)>>,
         <<PStructDef("s", <<DOpt(IdT("s"), "next"), DVar(Ty("double"), "d")>>)>>,
         <<UnionN(2, 2, <<Void>>)>>, <<UnionN(1, 1, <<>>)>>, <<PUnionDef("u", Body(DVar(Ty("bool"), "c"), <<Case(<<Name("TRUE")>>, DOvar("o", <<>>))>>, <<DVar(SInt, "z")>>))>>,
         <<ProgN(1, 2)>>, <<ProgN(2, 1)>>, <<PLine, PConst("a", Dec("1")), PLine>>, <<PConst("a", Dec("1")), PTypedef(DVar(SInt, "t"))>>,
         <<PStructDef("s", <<DVar([k |-> "union", u |-> Body(DVar(SInt, "c"), <<Case(<<Dec("1")>>, Void)>>, <<>>)], "m")>>)>>, <<>> }
Tiny == { <<PConst("ab", Dec("10"))>>, <<PTypedef(DVar(Ty("uint"), "t"))>>, <<PTypedef(DOvar("t", <<Hex("1F")>>))>>, <<PTypedef(DOpt(UInt, "ty"))>>,
          <<PEnum("e", <<Asg("A", Oct("7")), Asg("B", Dec("-2"))>>)>>, <<PStructDef("s", <<DFixed(Ty("bool"), "ab", Name("N")), DStr("c", <<>>)>>)>>,
          <<UnionN(1, 2, <<Void>>)>>, <<ProgN(1, 1)>>, <<PLine, PConst("a", Dec("1"))>> }
=============================================================================
