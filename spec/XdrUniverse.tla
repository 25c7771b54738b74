----------------------------- MODULE XdrUniverse -----------------------------
(* The values the model talks about: entries [t, vs], a type and two values   *)
(* of it, built bottom-up by wrapping.                                        *)
EXTENDS XdrCodec

E(t, a, c) == [t |-> t, vs |-> <<a, c>>]
T(k) == [k |-> k]
N(n) == [n |-> n]
L(l) == [l |-> l]
S(s) == [s |-> s]
C(c) == [c |-> c]
B(b) == [b |-> b]
U == [u |-> 0]

Ramp(n) == [i \in 1..n |-> (37 * i + 11) % 256]
Text(n) == [i \in 1..n |-> 97 + ((i * 7) % 26)]

IntLeaves ==
  { E(T("i8"), N(-128), N(127)), E(T("i8"), N(-1), N(1)),
    E(T("u8"), N(0), N(255)), E(T("u8"), N(128), N(127)),
    E(T("i16"), N(-32768), N(32767)), E(T("i16"), N(-2), N(258)),
    E(T("u16"), N(0), N(65535)), E(T("u16"), N(32768), N(513)),
    E(T("i32"), N(MinInt), N(MaxInt)), E(T("i32"), N(-1), N(16909060)),
    E(T("u32"), L(<<0, 0>>), L(<<65535, 65535>>)), E(T("u32"), L(<<32768, 1>>), L(<<258, 772>>)),
    E(T("i64"), L(<<32768, 0, 0, 0>>), L(<<32767, 65535, 65535, 65535>>)),
    E(T("i64"), L(<<65535, 65535, 65535, 65535>>), L(<<258, 772, 1286, 1800>>)),
    E(T("u64"), L(<<65535, 65535, 65535, 65535>>), L(<<0, 0, 0, 0>>)),
    E(T("u64"), L(<<0, 1, 0, 0>>), L(<<32768, 0, 0, 7>>)) }
FloatLeaves ==
  { E(T("f32"), L(<<0, 0>>), L(<<32768, 0>>)), E(T("f32"), L(<<32704, 1>>), L(<<16256, 0>>)),
    E(T("f32"), L(<<65408, 0>>), L(<<0, 1>>)),
    E(T("f64"), L(<<0, 0, 0, 0>>), L(<<32768, 0, 0, 0>>)),
    E(T("f64"), L(<<32760, 0, 0, 1>>), L(<<16368, 0, 0, 0>>)),
    E(T("f64"), L(<<65520, 0, 0, 0>>), L(<<0, 0, 0, 1>>)) }
CharLeaves ==
  { E(T("char"), C(0), C(1114111)), E(T("char"), C(55295), C(57344)), E(T("char"), C(65), C(65536)),
    E(T("char"), C(127), C(233)) }
TextLeaves ==
  { E(T("str"), S(Text(n)), S(Text(n + 1))) : n \in 0..9 } \cup
  { E(T("str"), S(Utf8(<<233>>)), S(Utf8(<<8364, 65>>))),
    E(T("str"), S(Utf8(<<128512>>)), S(Utf8(<<0, 55295, 57344>>))),
    E(T("str"), S(Utf8(<<1114111, 2048, 2047>>)), S(<<>>)) }
ByteLeaves ==
  { E(T("bytes"), S(Ramp(n)), S(Rep(255, n + 1))) : n \in {0, 1, 2, 3, 4, 7} } \cup
  { E(T("ovar"), S(Ramp(n)), S(Rep(0, n + 1))) : n \in 0..9 } \cup
  { E([k |-> "ofix", n |-> n], S(Ramp(n)), S(Rep(255, n))) : n \in 0..9 }
OtherLeaves ==
  { E(T("bool"), B(TRUE), B(FALSE)), E(T("unit"), U, U), E(T("ustruct"), U, U),
    E([k |-> "s32", acc |-> <<MinInt, -7, -1, 0, 5, 6, 70000, MaxInt>>], N(-7), N(70000)),
    E([k |-> "s32", acc |-> <<MinInt, -7, -1, 0, 5, 6, 70000, MaxInt>>], N(MinInt), N(MaxInt)) }

UnitV(n) == [j \in 1..n |-> [vk |-> "unit", ts |-> <<>>]]
UnitEnum(n, a, c) == E([k |-> "enum", vs |-> UnitV(n)], [i |-> a, xs |-> <<>>], [i |-> c, xs |-> <<>>])
EnumLeaves == { UnitEnum(1, 0, 0), UnitEnum(2, 0, 1), UnitEnum(3, 2, 1), UnitEnum(300, 299, 256) }

AllLeaves == IntLeaves \cup FloatLeaves \cup CharLeaves \cup TextLeaves \cup ByteLeaves
             \cup OtherLeaves \cup EnumLeaves
FewLeaves ==
  { E(T("u8"), N(0), N(255)), E(T("i16"), N(-2), N(258)), E(T("i64"), L(<<32768, 0, 0, 0>>), L(<<0, 0, 0, 7>>)),
    E(T("str"), S(Text(5)), S(<<>>)), E(T("ovar"), S(Ramp(3)), S(<<>>)),
    E([k |-> "ofix", n |-> 6], S(Ramp(6)), S(Rep(255, 6))),
    E(T("bool"), B(TRUE), B(FALSE)), E(T("unit"), U, U), UnitEnum(3, 2, 1) }

\* leaves whose words can be wrong, and counted bytes
SourLeaves ==
  { E(T("i8"), N(-128), N(127)), E(T("u16"), N(0), N(65535)), E(T("char"), C(55295), C(65)),
    E(T("str"), S(Utf8(<<233>>)), S(Text(5))), E(T("bytes"), S(Ramp(5)), S(<<>>)), E(T("ovar"), S(Ramp(6)), S(<<>>)),
    E([k |-> "s32", acc |-> <<MinInt, -7, -1, 0, 5, 6, 70000, MaxInt>>], N(-7), N(70000)), UnitEnum(3, 2, 1) }

\* parts that stand next to an entry in a composite
Sib1 == E(T("u16"), N(513), N(0))
Sib2 == E(T("str"), S(<<120, 121>>), S(<<>>))
Sib3 == E([k |-> "ofix", n |-> 5], S(Ramp(5)), S(Rep(0, 5)))

Variant(vk, ts) == [vk |-> vk, ts |-> ts]

WrapOpt(e) == { E([k |-> "opt", e |-> e.t], [o |-> <<e.vs[1]>>], [o |-> <<>>]),
                E([k |-> "opt", e |-> e.t], [o |-> <<e.vs[2]>>], [o |-> <<e.vs[1]>>]) }
WrapSeq(e) == { E([k |-> "seq", e |-> e.t], [xs |-> <<e.vs[1]>>], [xs |-> <<>>]),
                E([k |-> "seq", e |-> e.t], [xs |-> <<e.vs[1], e.vs[2]>>], [xs |-> <<e.vs[2], e.vs[2], e.vs[1]>>]) }
WrapArr(e) == { E([k |-> "arr", e |-> e.t, n |-> 3], [xs |-> <<e.vs[1], e.vs[2], e.vs[1]>>],
                                                     [xs |-> <<e.vs[2], e.vs[1], e.vs[2]>>]),
                E([k |-> "arr", e |-> e.t, n |-> 1], [xs |-> <<e.vs[2]>>], [xs |-> <<e.vs[1]>>]) }
WrapProd(e) == { E([k |-> k, ts |-> <<Sib1.t, e.t, Sib2.t>>],
                   [xs |-> <<Sib1.vs[1], e.vs[1], Sib2.vs[1]>>],
                   [xs |-> <<Sib1.vs[2], e.vs[2], Sib2.vs[2]>>]) : k \in Products }
               \cup { E([k |-> "struct", ts |-> <<e.t, e.t>>], [xs |-> <<e.vs[1], e.vs[2]>>],
                        [xs |-> <<e.vs[2], e.vs[1]>>]) }
WrapNew(e) == { E([k |-> "newtype", e |-> e.t], e.vs[1], e.vs[2]) }
WrapMap(e) == { E([k |-> "map", a |-> Sib2.t, d |-> e.t],
                  [kv |-> <<<<Sib2.vs[1], e.vs[1]>>, <<Sib2.vs[2], e.vs[2]>>>>],
                  [kv |-> <<<<Sib2.vs[2], e.vs[1]>>>>]),
                E([k |-> "map", a |-> e.t, d |-> Sib1.t],
                  [kv |-> <<<<e.vs[2], Sib1.vs[1]>>, <<e.vs[1], Sib1.vs[2]>>>>],
                  [kv |-> <<>>]) }
WrapEnum(e) ==
  LET vs == << Variant("unit", <<>>), Variant("newtype", <<e.t>>), Variant("tuple", <<e.t, Sib3.t>>),
               Variant("struct", <<Sib2.t, e.t>>), Variant("unit", <<>>), Variant("newtype", <<Sib1.t>>) >>
      t == [k |-> "enum", vs |-> vs]
  IN { E(t, [i |-> 1, xs |-> <<e.vs[1]>>], [i |-> 4, xs |-> <<>>]),
       E(t, [i |-> 2, xs |-> <<e.vs[1], Sib3.vs[1]>>], [i |-> 0, xs |-> <<>>]),
       E(t, [i |-> 3, xs |-> <<Sib2.vs[1], e.vs[2]>>], [i |-> 5, xs |-> <<Sib1.vs[1]>>]) }
BigEnum(e) ==       \* variants on both sides of 256
  LET t == [k |-> "enum", vs |-> UnitV(256) \o <<Variant("newtype", <<e.t>>), Variant("tuple", <<e.t, e.t>>)>>]
  IN { E(t, [i |-> 256, xs |-> <<e.vs[1]>>], [i |-> 257, xs |-> <<e.vs[1], e.vs[2]>>]) }

Wrap(e) == WrapOpt(e) \cup WrapSeq(e) \cup WrapArr(e) \cup WrapProd(e) \cup WrapNew(e)
           \cup WrapMap(e) \cup WrapEnum(e)

\* ---- what must be refused, and parts that fail (C08, C11) --------------------
Claim(k, l) == E([k |-> k, l |-> l], U, U)
RefusedLeaves ==
  { E(T("useq"), U, U), E(T("umap"), U, U), E(T("i128"), U, U), E(T("u128"), U, U), E(T("cbytes"), U, U) }
  \cup { Claim(k, l) : k \in {"cseq", "cmap"},
           l \in { <<0, 1, 0, 0>>, <<0, 1, 0, 2>>, <<0, 65535, 65535, 65535>>, <<1, 0, 0, 0>>, <<32768, 0, 0, 1>>,
                   <<65535, 65535, 65535, 65535>>, <<0, 256, 0, 0>> } }
  \cup { E([k |-> "vbig", vk |-> vk, l |-> l], U, U) : vk \in {"unit", "newtype", "tuple", "struct"},
           l \in { <<32768, 0>>, <<32768, 1>>, <<65535, 65535>>, <<49152, 3>> } }
\* the extremes that are still fine
ClaimLeaves ==
  { Claim(k, l) : k \in {"cseq", "cmap"},
      l \in { <<0, 0, 65535, 65535>>, <<0, 0, 32768, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 0>> } }
  \cup { E([k |-> "vbig", vk |-> vk, l |-> l], U, U) : vk \in {"unit", "newtype", "tuple", "struct"},
           l \in { <<32767, 65535>>, <<1, 0>>, <<0, 256>> } }
\* variants of every kind at both sides of every power of two: the word is the variant
FarLeaves == { E([k |-> "vbig", vk |-> vk, l |-> l], U, U) : vk \in {"unit", "newtype", "tuple", "struct"},
                 l \in { <<p - d, 65535 - e>> : p \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768}, d \in {1}, e \in {0, 1, 65535} }
                      \cup { <<p, e>> : p \in {0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384}, e \in {0, 1, 2, 128, 255, 256, 32767, 32768, 65535} } }
BombLeaves == { E(T("bomb"), U, U) }

\* ---- opaque data of every length (C09), signed words (C10), discriminants (C06) ----
OpaqueLeaves ==
  { E(T(k), S(Ramp(n)), S(Rep(128, n))) : k \in {"ovar", "bytes"}, n \in 0..72 }
  \cup { E([k |-> "ofix", n |-> n], S(Ramp(n)), S(Rep(254, n))) : n \in 0..72 }
Accepts == { <<0, 1, 2>>, <<-1>>, <<MinInt, MaxInt>>, <<-7, 5, 70000>>, <<256, -256, 65536, -65536>>,
             <<128, -128, 255, 32768, -32768, 65535>>, <<16777216, -16777216, MinInt + 1>> }
S32Leaves == UNION { { E([k |-> "s32", acc |-> a], N(a[1]), N(a[Len(a)])),
                       E([k |-> "s32", acc |-> a], N(a[(Len(a) + 1) \div 2]), N(a[1])) } : a \in Accepts }
VariantEnum(n, i, ts, xs) ==      \* n variants, the i-th with content, the others void
  LET vk == IF Len(ts) = 0 THEN "unit" ELSE IF Len(ts) = 1 THEN "newtype" ELSE "tuple"
      vs == [j \in 1..n |-> IF j = i + 1 THEN Variant(vk, ts) ELSE Variant("unit", <<>>)]
  IN E([k |-> "enum", vs |-> vs], [i |-> i, xs |-> xs], [i |-> (i + 1) % n, xs |-> IF n = 1 THEN xs ELSE <<>>])
EnumUniverse ==
  EnumLeaves \cup UNION { WrapEnum(e) : e \in FewLeaves } \cup BigEnum(Sib1) \cup BigEnum(Sib2)
  \cup { VariantEnum(n, i, <<Sib1.t>>, <<Sib1.vs[1]>>) : n \in {1, 2, 3, 7}, i \in {0} }
  \cup { VariantEnum(n, n - 1, <<Sib1.t, Sib2.t>>, <<Sib1.vs[1], Sib2.vs[1]>>) : n \in {1, 2, 4, 9, 128, 129, 256, 257} }

\* ---- many parts ---------------------------------------------------------------
WideParts == << Sib1, E(T("i64"), L(<<32768, 0, 0, 5>>), L(<<0, 0, 0, 7>>)), E(T("bool"), B(TRUE), B(FALSE)), Sib3, E(T("i8"), N(-128), N(127)), Sib2,
                E([k |-> "opt", e |-> T("char")], [o |-> <<C(233)>>], [o |-> <<>>]) >>
WidePart(i) == WideParts[1 + (i % Len(WideParts))]
WideTs(n) == [i \in 1..n |-> WidePart(i).t]
WideVs(n, p) == [i \in 1..n |-> WidePart(i).vs[1 + ((i + p) % 2)]]
WideSizes == {0, 1, 2, 3, 4, 8, 9, 10, 12, 13, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300}
WideLeaves == { E([k |-> k, ts |-> WideTs(n)], [xs |-> WideVs(n, 0)], [xs |-> WideVs(n, 1)]) : k \in Products, n \in WideSizes }
              \cup { E([k |-> "enum", vs |-> <<Variant(k, WideTs(n)), Variant("unit", <<>>)>>], [i |-> 0, xs |-> WideVs(n, 0)], [i |-> 0, xs |-> WideVs(n, 1)])
                     : k \in {"tuple", "struct"}, n \in WideSizes }
              \cup { E([k |-> "arr", e |-> Sib1.t, n |-> n], [xs |-> [i \in 1..n |-> N((i * 7919) % 65536)]], [xs |-> [i \in 1..n |-> Sib1.vs[1 + (i % 2)]]]) : n \in WideSizes }

\* ---- sample values of any type: p is 1 or 2 ------------------------------------
RECURSIVE Samp(_, _)
Samps(ts, p) == [i \in DOMAIN ts |-> Samp(ts[i], 1 + ((i + p) % 2))]
Samp(t, p) ==
  CASE t.k = "bool" -> B(p = 1)
    [] t.k \in {"i8", "i16", "i32", "u8", "u16"} -> N(IF p = 1 THEN IntLo(t.k) ELSE IntHi(t.k) - 1)
    [] t.k = "u32" -> L(IF p = 1 THEN <<65535, 65534>> ELSE <<1, 2>>)
    [] t.k \in {"i64", "u64"} -> L(IF p = 1 THEN <<65535, 1, 2, 65533>> ELSE <<1, 2, 3, 4>>)
    [] t.k = "f32" -> L(IF p = 1 THEN <<49352, 0>> ELSE <<16256, 3>>)
    [] t.k = "f64" -> L(IF p = 1 THEN <<49193, 0, 0, 1>> ELSE <<16368, 0, 0, 3>>)
    [] t.k = "char" -> C(IF p = 1 THEN 233 ELSE 65)
    [] t.k = "str" -> S(IF p = 1 THEN Text(5) ELSE <<>>)
    [] t.k \in {"bytes", "ovar"} -> S(IF p = 1 THEN Ramp(6) ELSE <<>>)
    [] t.k = "ofix" -> S(IF p = 1 THEN Ramp(t.n) ELSE Rep(255, t.n))
    [] t.k = "s32" -> N(IF p = 1 THEN t.acc[1] ELSE t.acc[Len(t.acc)])
    [] t.k \in {"unit", "ustruct"} -> U
    [] t.k = "opt" -> [o |-> IF p = 1 THEN <<Samp(t.e, 1)>> ELSE <<>>]
    [] t.k = "newtype" -> Samp(t.e, p)
    [] t.k = "seq" -> [xs |-> IF p = 1 THEN <<Samp(t.e, 2), Samp(t.e, 1)>> ELSE <<>>]
    [] t.k = "arr" -> [xs |-> [i \in 1..t.n |-> Samp(t.e, 1 + ((i + p) % 2))]]
    [] t.k = "map" -> [kv |-> IF p = 1 THEN <<<<Samp(t.a, 1), Samp(t.d, 1)>>>> ELSE <<>>]
    [] t.k \in Products -> [xs |-> Samps(t.ts, p)]
    [] t.k \in {"enum", "ix"} -> LET i == IF p = 1 THEN Len(t.vs) ELSE 1
                              IN [i |-> i - 1, xs |-> Samps(t.vs[i].ts, p)]
    [] t.k = "un" -> LET i == IF p = 1 THEN Len(t.vs) ELSE 1
                         ds == IF t.vs[i].def THEN t.vs[i].ds ELSE t.vs[i].ls
                     IN [i |-> i - 1, xs |-> <<ds[1]>> \o Samps(t.vs[i].ts, p)]

\* ---- derived enums (C12, C13) ----------------------------------------------------
IxV(num, ts) == [num |-> num, ts |-> ts]
\* a default variant has no labels; ds are discriminants to try it with
UnV(ls, ts) == [ls |-> ls, def |-> FALSE, ts |-> ts, ds |-> <<>>]
UnD(ds, ts) == [ls |-> <<>>, def |-> TRUE, ts |-> ts, ds |-> ds]
Ix(vs) == [k |-> "ix", vs |-> vs]
Un(d, vs) == [k |-> "un", d |-> d, vs |-> vs]

Pairing == [k |-> "struct", ts |-> <<T("u16"), T("str")>>]
Ring(i) == CASE i % 13 = 0 -> <<>>
             [] i % 13 = 1 -> <<T("u8")>>
             [] i % 13 = 2 -> <<T("i16"), T("str")>>
             [] i % 13 = 3 -> <<[k |-> "opt", e |-> T("u32")]>>
             [] i % 13 = 4 -> <<[k |-> "seq", e |-> T("u16")], T("bool")>>
             [] i % 13 = 5 -> <<T("ovar")>>
             [] i % 13 = 6 -> <<T("i64"), T("unit"), Pairing>>
             [] i % 13 = 7 -> <<[k |-> "arr", e |-> T("i8"), n |-> 3], T("char")>>
             [] i % 13 = 8 -> <<[k |-> "ofix", n |-> 5], T("f64")>>
             [] i % 13 = 9 -> <<[k |-> "tup", ts |-> <<T("i32"), T("u32")>>], T("f32"), [k |-> "seq", e |-> T("str")]>>
             [] i % 13 = 10 -> <<UnitEnum(3, 0, 0).t, T("u64")>>
             [] i % 13 = 11 -> <<T("str"), T("str"), T("str"), T("u8"), T("str")>>
             [] i % 13 = 12 -> <<[k |-> "seq", e |-> [k |-> "opt", e |-> Pairing]]>>
NumSets == << <<0>>, <<1, 3, 5, 7>>, <<-1, 0, 1>>, <<MinInt, MaxInt>>, <<100, -100, 256, 65536, -65536>>, <<2, 1, 0>>,
              <<255, 256, 257, 511, 512>>, <<-2, -3, -128, -129, -256>>, <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12>> >>
Prims == <<T("u8"), T("str"), T("i16"), T("bool"), T("u64"), T("i32")>>
PrimFields(n) == [i \in 1..n |-> Prims[1 + (i % 6)]]
IxTypes ==
  { Ix([j \in DOMAIN NumSets[q] |-> IxV(NumSets[q][j], Ring(q + j))]) : q \in DOMAIN NumSets }
  \cup { Ix(<<IxV(4, PrimFields(n)), IxV(-4, <<>>), IxV(9, PrimFields(2))>>) : n \in 0..13 }
  \cup { Ix(<<IxV(1, <<>>), IxV(2, PrimFields(n))>>) : n \in {1, 8, 9, 10, 11, 16, 24} }
  \cup { Ix([j \in 1..40 |-> IxV(7 * j - 100, IF j % 3 = 0 THEN Ring(j) ELSE <<>>)]) }
  \cup { Ix([j \in 1..6 |-> IxV(3 - j, <<>>)]), Ix(<<IxV(70000, <<>>)>>) }
Nine == Ix(<<IxV(1, <<>>), IxV(2, PrimFields(3)), IxV(-9, <<T("str")>>)>>)
Kinds == UnitEnum(3, 0, 0).t
IxUnits == Ix(<<IxV(-5, <<>>), IxV(0, <<>>), IxV(300, <<>>)>>)
V3(i) == [i |-> i, xs |-> <<>>]
UnTypes ==
  { Un(T("i32"), <<UnV(<<N(0)>>, Ring(q)), UnV(<<N(-1), N(MinInt)>>, Ring(q + 1)), UnV(<<N(MaxInt)>>, Ring(q + 2))>>) : q \in 0..5 }
  \cup { Un(T("i32"), <<UnV(<<N(1), N(2), N(-3)>>, Ring(q)), UnD(<<N(0), N(MinInt), N(77)>>, Ring(q + 3))>>) : q \in 5..8 }
  \cup { Un(T("u32"), <<UnV(<<L(<<0, 0>>)>>, Ring(q)), UnV(<<L(<<65535, 65535>>), L(<<32768, 0>>)>>, Ring(q + 1))>>) : q \in 9..11 }
  \cup { Un(T("u32"), <<UnD(<<L(<<32768, 1>>), L(<<0, 7>>)>>, Ring(q)), UnV(<<L(<<0, 1>>)>>, Ring(q + 2))>>) : q \in 11..12 }
  \cup { Un(T("bool"), <<UnV(<<B(TRUE)>>, Ring(1)), UnV(<<B(FALSE)>>, <<>>)>>),
          Un(T("bool"), <<UnV(<<B(FALSE)>>, Ring(2)), UnV(<<B(TRUE)>>, Ring(11))>>),
          Un(T("bool"), <<UnV(<<B(TRUE)>>, Ring(4))>>),
          Un(T("u8"), <<UnV(<<N(0)>>, <<T("u8")>>), UnV(<<N(255)>>, <<>>)>>),
          Un(T("i64"), <<UnV(<<L(<<65535, 65535, 65535, 65535>>)>>, <<T("u8")>>), UnD(<<L(<<0, 1, 0, 0>>)>>, <<>>)>>),
          Un(Kinds, <<UnV(<<V3(0)>>, Ring(6)), UnV(<<V3(1), V3(2)>>, Ring(7))>>),
          Un(Kinds, <<UnV(<<V3(2)>>, Ring(3)), UnD(<<V3(0), V3(1)>>, <<T("str")>>)>>),
          Un(Kinds, <<UnV(<<V3(1)>>, <<>>)>>),
          Un(IxUnits, <<UnV(<<V3(0)>>, Ring(8)), UnV(<<V3(2)>>, Ring(9))>>),
          Un(IxUnits, <<UnV(<<V3(1)>>, Ring(12)), UnD(<<V3(2), V3(0)>>, Ring(2))>>),
          Un(T("i32"), <<UnV(<<N(5)>>, <<Nine>>), UnV(<<N(6)>>, <<[k |-> "seq", e |-> Nine], [k |-> "opt", e |-> Nine]>>)>>),
          Un(T("i32"), [j \in 1..30 |-> UnV(<<N(j * j - 40)>>, IF j % 2 = 0 THEN <<T("u16")>> ELSE <<>>)]) }
  \cup { Un(T("i32"), <<UnV(<<N(4)>>, PrimFields(n)), UnV(<<N(1)>>, <<>>)>>) : n \in 0..13 }
  \cup { Un(T("u32"), <<UnV(<<L(<<0, 4>>)>>, <<>>), UnD(<<L(<<0, 9>>)>>, PrimFields(n))>>) : n \in {8, 9, 10, 16, 24} }
Mixed == { Ix(<<IxV(3, <<Nine>>), IxV(4, <<Un(T("i32"), <<UnV(<<N(1)>>, <<Nine>>), UnD(<<N(9)>>, <<>>)>>), T("u8")>>),
                IxV(5, <<[k |-> "opt", e |-> IxUnits], [k |-> "arr", e |-> Nine, n |-> 2]>>)>>) }
\* every variant (and every discriminant of it) appears in some entry
AllIx(t) == { E(t, [i |-> i - 1, xs |-> Samps(t.vs[i].ts, 1)], [i |-> i - 1, xs |-> Samps(t.vs[i].ts, 2)]) : i \in DOMAIN t.vs }
AllUn(t) == UNION { { E(t, [i |-> i - 1, xs |-> <<d>> \o Samps(t.vs[i].ts, 1)], [i |-> i - 1, xs |-> <<d>> \o Samps(t.vs[i].ts, 2)])
                      : d \in { t.vs[i].ls[h] : h \in DOMAIN t.vs[i].ls } \cup { t.vs[i].ds[h] : h \in DOMAIN t.vs[i].ds } }
                    : i \in DOMAIN t.vs }
IxLeaves == UNION { AllIx(t) : t \in IxTypes \cup Mixed }
UnLeaves == UNION { AllUn(t) : t \in UnTypes }
\* some of them inside composites
IxInside == UNION { Wrap(E(t, Samp(t, 1), Samp(t, 2))) : t \in {Nine, Ix([j \in 1..5 |-> IxV(NumSets[5][j], Ring(j))])} }
UnInside == UNION { Wrap(E(t, Samp(t, 1), Samp(t, 2))) :
              t \in { Un(T("i32"), <<UnV(<<N(1), N(2)>>, Ring(2)), UnD(<<N(0)>>, Ring(3))>>),
                      Un(Kinds, <<UnV(<<V3(0)>>, Ring(6)), UnV(<<V3(1), V3(2)>>, <<Nine>>)>>) } }
=============================================================================
