-------------------------------- MODULE MCWords --------------------------------
(* Every one of the 2^32 words, read as each type that is one word: the words   *)
(* fall into intervals with one outcome each.  Words are numbered as the signed  *)
(* numbers they are the two's complement of.  That the intervals are exactly     *)
(* what From says is checked at and around every edge and on sample words; the   *)
(* intervals are printed and every word of them is given to the code.            *)
EXTENDS XdrUniverse, Json, SequencesExt

CONSTANTS Groups       \* subset of {"num", "enum", "s32", "ix"}
VARIABLES t, w
vars == <<t, w>>

Numeric == { T(k) : k \in {"i8", "u8", "i16", "u16", "i32", "u32", "f32", "char", "bool", "str", "bytes", "ovar"} }
           \cup { [k |-> "opt", e |-> T("unit")], [k |-> "seq", e |-> T("u32")], [k |-> "map", a |-> T("u8"), d |-> T("bool")] }
Enums == { [k |-> "enum", vs |-> UnitV(n)] : n \in {1, 2, 3, 5, 256, 300} }
Signeds == { [k |-> "s32", acc |-> a] : a \in Accepts }
Numbered(ns) == [k |-> "ix", vs |-> [i \in DOMAIN ns |-> [num |-> ns[i], ts |-> <<>>]]]
Indexers == { Numbered(ns) : ns \in { <<0, 1, 2>>, <<5>>, <<-3, 7, 70000, 0>>, <<MaxInt, MinInt>>, <<255, 256, 65536, -1>> } }
Types == (IF "num" \in Groups THEN Numeric ELSE {}) \cup (IF "enum" \in Groups THEN Enums ELSE {})
         \cup (IF "s32" \in Groups THEN Signeds ELSE {}) \cup (IF "ix" \in Groups THEN Indexers ELSE {})

\* an outcome is a form (the value as a function of the word), or a constant, or a refusal
Form(f) == [f |-> f, v |-> U]
Const(v) == [f |-> "const", v |-> v]
No == [f |-> "no", v |-> U]
I(lo, hi, o) == [lo |-> lo, hi |-> hi, o |-> o]
\* intervals which fill the gaps between those given (in order) with o
RECURSIVE Filled(_, _, _)
Filled(is, from, o) ==
  IF is = <<>> THEN <<I(from, MaxInt, o)>>
  ELSE LET h == Head(is)
           gap == IF from < h.lo THEN <<I(from, h.lo - 1, o)>> ELSE <<>>
       IN gap \o <<h>> \o (IF h.hi = MaxInt THEN <<>> ELSE Filled(Tail(is), h.hi + 1, o))
Around(is, o) == Filled(SortSeq(is, LAMBDA a, b : a.lo < b.lo), MinInt, o)
Intervals(x) ==
  CASE x.k \in {"i8", "u8", "i16", "u16"} -> Around(<<I(IntLo(x.k), IntHi(x.k), Form("n"))>>, No)
    [] x.k = "i32" -> <<I(MinInt, MaxInt, Form("n"))>>
    [] x.k \in {"u32", "f32"} -> <<I(MinInt, MaxInt, Form("l"))>>
    [] x.k = "char" -> Around(<<I(0, 55295, Form("c")), I(57344, 1114111, Form("c"))>>, No)
    [] x.k = "bool" -> Around(<<I(0, 0, Const(B(FALSE)))>>, Const(B(TRUE)))
    [] x.k = "opt" -> Around(<<I(0, 0, Const([o |-> <<>>]))>>, Const([o |-> <<U>>]))
    [] x.k \in {"str", "bytes", "ovar"} -> Around(<<I(0, 0, Const(S(<<>>)))>>, No)
    [] x.k = "seq" -> Around(<<I(0, 0, Const([xs |-> <<>>]))>>, No)
    [] x.k = "map" -> Around(<<I(0, 0, Const([kv |-> <<>>]))>>, No)
    [] x.k = "enum" -> Around(<<I(0, Len(x.vs) - 1, Form("i"))>>, No)
    [] x.k = "s32" -> Around([i \in DOMAIN x.acc |-> I(x.acc[i], x.acc[i], Form("n"))], No)
    [] x.k = "ix" -> Around([i \in DOMAIN x.vs |-> I(x.vs[i].num, x.vs[i].num, Const([i |-> i - 1, xs |-> <<>>]))], No)
Value(o, n) == CASE o.f = "n" -> N(n) [] o.f = "l" -> L(BytesLimbs(IntWord(n))) [] o.f = "c" -> C(n)
                 [] o.f = "i" -> [i |-> n, xs |-> <<>>] [] o.f = "const" -> o.v

Near == { -300, -2, -1, 0, 1, 2, 300 }
Within(x) == x >= MinInt /\ x <= MaxInt
Edges(is) == UNION { { is[i].lo + (IF is[i].lo > MaxInt - 300 THEN (IF d > 0 THEN 0 ELSE d) ELSE IF is[i].lo < MinInt + 300 THEN (IF d < 0 THEN 0 ELSE d) ELSE d) : d \in Near }
                     \cup { is[i].hi } : i \in DOMAIN is }
Sampled == { 0, 1, 2, 3, 7, 100, 127, 128, 129, 254, 255, 256, 257, 299, 300, 301, 1000, 32767, 32768, 32769, 55296, 57343, 65535, 65536, 65537, 1114111, 1114112,
             16777215, 16777216, 2130706432, 1073741824, MaxInt, MaxInt - 1, MinInt, MinInt + 1, -1, -2, -128, -129, -255, -256, -32768, -32769, -65535, -65536, -65537,
             -16777216, -1073741824, 123456789, -987654321, 305419896 }
Init == t \in Types /\ w = <<>>
Probe == w = <<>> /\ w' \in { <<x>> : x \in Edges(Intervals(t)) \cup Sampled } /\ t' = t
Spec == Init /\ [][Probe]_vars

\* the intervals are all the words, each once
Partition == LET is == Intervals(t)
             IN w = <<>> => /\ is[1].lo = MinInt /\ is[Len(is)].hi = MaxInt
                            /\ \A i \in DOMAIN is : is[i].lo <= is[i].hi /\ (i < Len(is) => is[i].hi + 1 = is[i + 1].lo)
\* and say what From says; what they give is encoded as the word unless the type has several words for it
Meaning == w # <<>> => LET is == Intervals(t)
                           h == is[CHOOSE i \in DOMAIN is : is[i].lo <= w[1] /\ w[1] <= is[i].hi]
                           r == From(t, IntWord(w[1]))
                       IN /\ r.ok = (h.o.f # "no")
                          /\ r.ok => r.v = Value(h.o, w[1])
                          /\ (r.ok /\ t.k \notin {"bool", "opt"}) => Enc(t, r.v) = Ok(IntWord(w[1]))
Emit == w = <<>> => PrintT(ToJson([p |-> "words", t |-> t, is |-> Intervals(t)]))
=============================================================================
