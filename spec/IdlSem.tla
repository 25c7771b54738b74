-------------------------------- MODULE IdlSem --------------------------------
(* What a specification means: the numbers its names and literals denote, the  *)
(* XDR type of every definition under each mode of generation, whether code    *)
(* must, may or must not be generated, sample values, and the text by which     *)
(* Rust shows a value (Debug).                                                  *)
(*                                                                              *)
(* A mode is [e, u, keep]: how enums are written ("std" by number, "ix" by      *)
(* XdrIndexer, "gap" as serde enums with gaps filled), how unions are ("un"     *)
(* XdrUnion, "ix", "gap"), and whether typedefs become type aliases.            *)
EXTENDS RustNames, FiniteSets

C == INSTANCE XdrCodec

\* ---- numbers: 80 bits in five limbs, the first of them for overflow -------------
Zero5 == <<0, 0, 0, 0, 0>>
MulAdd(l, b, d) ==
  LET x5 == l[5] * b + d
      x4 == l[4] * b + x5 \div 65536
      x3 == l[3] * b + x4 \div 65536
      x2 == l[2] * b + x3 \div 65536
      x1 == l[1] * b + x2 \div 65536
  IN <<IF x1 > 65535 THEN 65535 ELSE x1, x2 % 65536, x3 % 65536, x4 % 65536, x5 % 65536>>
DigitOf == [c \in HexDigits |-> LET i == CHOOSE i \in 1..22 : Ch("0123456789abcdefABCDEF", i) = c IN IF i <= 16 THEN i - 1 ELSE i - 7]
RECURSIVE Digits5(_, _, _, _)
Digits5(cs, i, b, acc) == IF i > Len(cs) THEN acc ELSE Digits5(cs, i + 1, b, MulAdd(acc, b, DigitOf[cs[i]]))
NumberOf(c) ==
  LET cs == Chars(c.t)
      neg == cs # <<>> /\ cs[1] = "-"
      b == CASE c.c = "dec" -> 10 [] c.c = "hex" -> 16 [] c.c = "oct" -> 8
  IN [neg |-> neg, l |-> Digits5(cs, IF neg THEN 2 ELSE 1, b, Zero5)]
FitsU64(x) == ~x.neg /\ x.l[1] = 0
FitsU32(x) == FitsU64(x) /\ x.l[2] = 0 /\ x.l[3] = 0
FitsI32(x) == /\ x.l[1] = 0 /\ x.l[2] = 0 /\ x.l[3] = 0
              /\ (x.l[4] < 32768 \/ (x.neg /\ x.l[4] = 32768 /\ x.l[5] = 0))
\* the signed 32-bit reading of 32 bits
Int32(x) == IF x.neg THEN (0 - x.l[4]) * 65536 - x.l[5]
            ELSE IF x.l[4] >= 32768 THEN (x.l[4] - 65536) * 65536 + x.l[5] ELSE x.l[4] * 65536 + x.l[5]
IsZero(l) == \A i \in DOMAIN l : l[i] = 0
RECURSIVE DivSmall(_, _, _)           \* limbs divided by ten: quotient, remainder
DivSmall(l, i, r) == IF i > Len(l) THEN [q |-> <<>>, r |-> r]
                     ELSE LET x == r * 65536 + l[i]
                              more == DivSmall(l, i + 1, x % 10)
                          IN [q |-> <<x \div 10>> \o more.q, r |-> more.r]
RECURSIVE DecText(_)
DecText(l) == LET d == DivSmall(l, 1, 0) IN (IF IsZero(d.q) THEN "" ELSE DecText(d.q)) \o ToString(d.r)

\* ---- names ------------------------------------------------------------------------
Named(defs) == SelectSeq(defs, LAMBDA x : x.p \in {"enum", "struct", "union"} \/ (x.p = "typedef" /\ x.d.d # "void"))
NameOfDef(x) == IF x.p = "typedef" THEN x.d.n ELSE x.n
Constants(defs) == LET cs == SelectSeq(defs, LAMBDA x : x.p = "const") IN [i \in DOMAIN cs |-> cs[i].a]
Enumerators(defs) == LET es == SelectSeq(defs, LAMBDA x : x.p = "enum") IN Flat([i \in DOMAIN es |-> es[i].b])
\* everything a name may denote; constants come before enumerators
Env(defs) ==
  LET vs == Constants(defs) \o Enumerators(defs)
      ts == Named(defs)
      First(s, P(_)) == CHOOSE i \in DOMAIN s : P(s[i]) /\ \A j \in 1..(i - 1) : ~P(s[j])
  IN [v |-> [n \in { vs[i].n : i \in DOMAIN vs } |-> vs[First(vs, LAMBDA x : x.n = n)].v],
      t |-> [n \in { NameOfDef(ts[i]) : i \in DOMAIN ts } |-> ts[First(ts, LAMBDA x : NameOfDef(x) = n)]]]
RECURSIVE Resolve(_, _, _)
Resolve(env, v, seen) ==
  IF "c" \in DOMAIN v THEN [ok |-> TRUE, x |-> NumberOf(v)]
  ELSE IF v.id \in seen \/ v.id \notin DOMAIN env.v THEN [ok |-> FALSE, x |-> [neg |-> FALSE, l |-> Zero5]]
  ELSE Resolve(env, env.v[v.id], seen \cup {v.id})
Num(env, v) == Resolve(env, v, {}).x
Good(env, v, Fits(_)) == LET r == Resolve(env, v, {}) IN r.ok /\ Fits(r.x)

\* ---- types --------------------------------------------------------------------------
\* a typedef of a plain type stands for that type
RECURSIVE Through(_, _, _)
Through(env, ty, fuel) ==
  IF ty.k = "id" /\ ty.n \in DOMAIN env.t /\ env.t[ty.n].p = "typedef" /\ env.t[ty.n].d.d = "var" /\ fuel > 0
  THEN Through(env, env.t[ty.n].d.ty, fuel - 1) ELSE ty
ByNumber(s) == SortSeq(s, LAMBDA a, b : a.num < b.num)
NumberedItems(env, x) == [i \in DOMAIN x.b |-> [num |-> Int32(Num(env, x.b[i].v)), nm |-> TypeShown(x.b[i].n)]]
Reserve(i) == "_Reserved" \o ToString(i)
Unit(ts) == [vk |-> "unit", ts |-> ts]
EnumType(env, m, x) ==
  LET items == ByNumber(NumberedItems(env, x))
      top == items[Len(items)].num
      At0(i) == { j \in DOMAIN items : items[j].num = i }
  IN CASE m.e = "std" -> [k |-> "s32", acc |-> [i \in DOMAIN items |-> items[i].num], ns |-> [i \in DOMAIN items |-> items[i].nm]]
       [] m.e = "ix" -> [k |-> "ix", vs |-> [i \in DOMAIN items |-> [num |-> items[i].num, ts |-> <<>>]],
                         ns |-> [i \in DOMAIN items |-> items[i].nm], def |-> 1, odd |-> {}]
       [] m.e = "gap" -> [k |-> "enum", vs |-> [i \in 1..(top + 1) |-> Unit(<<>>)],
                          ns |-> [i \in 1..(top + 1) |-> IF At0(i - 1) = {} THEN Reserve(i - 1) ELSE items[CHOOSE j \in At0(i - 1) : TRUE].nm],
                          odd |-> { i \in 1..(top + 1) : At0(i - 1) = {} }]
Labels(env, b) ==
  Flat([i \in DOMAIN b.cases |-> [j \in DOMAIN b.cases[i].vs |->
    LET v == b.cases[i].vs[j]
        truth == "id" \in DOMAIN v /\ v.id \in {"TRUE", "FALSE"}
        x == IF truth THEN [neg |-> FALSE, l |-> IF v.id = "TRUE" THEN <<0, 0, 0, 0, 1>> ELSE Zero5] ELSE Num(env, v)
    IN [x |-> x, num |-> Int32(x), d |-> b.cases[i].d,
        nm |-> IF "id" \in DOMAIN v THEN TypeShown(v.id) ELSE "_" \o DecText(x.l)]]])
DeepType == [k |-> "deep"]
Often(path, n) == Len(SelectSeq(path, LAMBDA x : x = n)) >= 2

RECURSIVE TypeOf(_, _, _, _), DeclOf(_, _, _, _), NameOf(_, _, _, _), UnionType(_, _, _, _)
TypeOf(env, m, ty, path) ==
  CASE ty.k = "int" -> [k |-> IF ty.s THEN "i32" ELSE "u32"]
    [] ty.k = "uint" -> [k |-> "u32"]
    [] ty.k = "hyper" -> [k |-> IF ty.s THEN "i64" ELSE "u64"]
    [] ty.k = "char" -> [k |-> IF ty.s THEN "i8" ELSE "u8"]
    [] ty.k = "short" -> [k |-> IF ty.s THEN "i16" ELSE "u16"]
    [] ty.k = "float" -> [k |-> "f32"]
    [] ty.k = "double" -> [k |-> "f64"]
    [] ty.k = "bool" -> [k |-> "bool"]
    [] ty.k = "id" -> NameOf(env, m, ty.n, path)
Size(env, v) == Num(env, v).l[5]
DeclOf(env, m, d, path) ==
  CASE d.d = "var" -> TypeOf(env, m, d.ty, path)
    [] d.d = "opt" -> [k |-> "opt", e |-> TypeOf(env, m, d.ty, path)]
    [] d.d = "fixed" -> [k |-> "arr", e |-> TypeOf(env, m, d.ty, path), n |-> Size(env, d.v[1])]
    [] d.d = "varr" -> [k |-> "seq", e |-> TypeOf(env, m, d.ty, path)]
    [] d.d = "ofix" -> [k |-> "ofix", n |-> Size(env, d.v[1])]
    [] d.d = "ovar" -> [k |-> "ovar"]
    [] d.d = "str" -> [k |-> "str"]
NameOf(env, m, n, path) ==
  LET x == env.t[n]
      p == Append(path, n)
  IN IF Often(path, n) THEN DeepType
     ELSE CASE x.p = "typedef" -> DeclOf(env, m, x.d, p)
            [] x.p = "enum" -> EnumType(env, m, x)
            [] x.p = "struct" -> [k |-> "struct", ts |-> [i \in DOMAIN x.b |-> DeclOf(env, m, x.b[i], p)],
                                  nm |-> TypeShown(n), fs |-> [i \in DOMAIN x.b |-> MemberShown(x.b[i].n)]]
            [] x.p = "union" -> UnionType(env, m, x.u, p)
UnionType(env, m, b, path) ==
  LET cond == TypeOf(env, m, Through(env, b.cond.ty, 9), <<>>)
      ls == Labels(env, b)
      Arm(d) == IF d.d = "void" THEN <<>> ELSE <<DeclOf(env, m, d, path)>>
      Default == IF b.def = <<>> THEN <<>> ELSE Arm(b.def[1])
      \* the value of the discriminant that has a label's number
      Disc(l) == CASE cond.k \in {"i32", "s32"} -> [n |-> l.num]
                   [] cond.k = "u32" -> [l |-> SubSeq(l.x.l, 4, 5)]
                   [] cond.k = "bool" -> [b |-> l.num = 1]
                   [] cond.k = "enum" -> [i |-> l.num, xs |-> <<>>]
                   [] cond.k = "ix" -> [i |-> (CHOOSE j \in DOMAIN cond.vs : cond.vs[j].num = l.num) - 1, xs |-> <<>>]
      sorted == SortSeq(ls, LAMBDA p, q : p.num < q.num)
      top == IF cond.k = "bool" THEN 1 ELSE sorted[Len(sorted)].num
      At0(i) == { j \in DOMAIN ls : ls[j].num = i }
  IN CASE m.u = "un" ->
            [k |-> "un", d |-> cond, odd |-> {},
             vs |-> [i \in DOMAIN ls |-> [ls |-> <<Disc(ls[i])>>, def |-> FALSE, ts |-> Arm(ls[i].d)]]
                    \o (IF b.def = <<>> THEN <<>> ELSE <<[ls |-> <<>>, def |-> TRUE, ts |-> Default]>>),
             ns |-> [i \in DOMAIN ls |-> ls[i].nm] \o (IF b.def = <<>> THEN <<>> ELSE <<"Default">>)]
       [] m.u = "ix" ->
            [k |-> "ix",
             vs |-> [i \in DOMAIN ls |-> [num |-> ls[i].num, ts |-> Arm(ls[i].d)]]
                    \o (IF b.def = <<>> THEN <<>> ELSE <<[ts |-> Default]>>),
             ns |-> [i \in DOMAIN ls |-> ls[i].nm] \o (IF b.def = <<>> THEN <<>> ELSE <<"Default">>),
             def |-> IF b.def = <<>> THEN 0 ELSE Len(ls) + 1, odd |-> IF b.def = <<>> THEN {} ELSE {Len(ls) + 1}]
       [] m.u = "gap" ->
            [k |-> "enum",
             vs |-> [i \in 1..(top + 1) |-> IF At0(i - 1) = {} THEN Unit(<<>>) ELSE Unit(Arm(ls[CHOOSE j \in At0(i - 1) : TRUE].d))]
                    \o (IF b.def = <<>> THEN <<>> ELSE <<Unit(Default)>>),
             ns |-> [i \in 1..(top + 1) |-> IF At0(i - 1) = {} THEN Reserve(i - 1) ELSE ls[CHOOSE j \in At0(i - 1) : TRUE].nm]
                    \o (IF b.def = <<>> THEN <<>> ELSE <<"Default">>),
             odd |-> { i \in 1..(top + 1) : At0(i - 1) = {} } \cup (IF b.def = <<>> THEN {} ELSE {top + 2})]

\* a type with no values within the depth to which recursion is unfolded
RECURSIVE Deep(_)
Deep(t) == CASE t.k = "deep" -> TRUE
             [] t.k = "arr" -> t.n > 0 /\ Deep(t.e)
             [] t.k = "struct" -> \E i \in DOMAIN t.ts : Deep(t.ts[i])
             [] t.k \in {"un", "ix", "enum"} -> \A i \in DOMAIN t.vs : \E j \in DOMAIN t.vs[i].ts : Deep(t.vs[i].ts[j])
             [] OTHER -> FALSE

\* ---- must code be generated? ------------------------------------------------------------
\* "ok" it must, "err" it must not, "any" either
Worst(set) == IF "err" \in set THEN "err" ELSE IF "any" \in set THEN "any" ELSE "ok"
RECURSIVE Ends(_, _, _)               \* a chain of typedefs comes to an end
Ends(env, n, fuel) == IF fuel = 0 THEN FALSE
                      ELSE IF n \notin DOMAIN env.t THEN TRUE
                      ELSE LET x == env.t[n]
                           IN IF x.p = "typedef" /\ "ty" \in DOMAIN x.d /\ x.d.ty.k = "id" THEN Ends(env, x.d.ty.n, fuel - 1) ELSE TRUE
Generable(ty) == ty.k \notin {"quadruple", "enum", "struct", "union"}
\* what a use of a type or declaration asks for, looking through typedefs
RECURSIVE UseDecl(_, _, _)
UseDecl(env, d, fuel) ==
  Worst((IF d.d \in {"fixed", "ofix"} THEN {IF Good(env, d.v[1], FitsU64) THEN "ok" ELSE "err"} ELSE {})
        \cup (IF "ty" \in DOMAIN d /\ ~Generable(d.ty) THEN {"any"} ELSE {})
        \cup (IF "ty" \in DOMAIN d /\ d.ty.k = "id" /\ fuel > 0
              THEN IF d.ty.n \notin DOMAIN env.t THEN {"any"}
                   ELSE IF env.t[d.ty.n].p = "typedef" THEN {UseDecl(env, env.t[d.ty.n].d, fuel - 1)} ELSE {} ELSE {}))
LabelVerdict(env, m, cond, v) ==
  LET r == Resolve(env, v, {})
      truth == "id" \in DOMAIN v /\ v.id \in {"TRUE", "FALSE"}
  IN IF cond.k = "bool" THEN IF truth THEN "ok" ELSE "any"
     ELSE IF ~r.ok THEN "err"
     ELSE IF r.x.neg THEN IF FitsI32(r.x) /\ cond # Signed("int", FALSE) /\ cond.k # "uint" THEN "any" ELSE "err"
     ELSE IF ~FitsU32(r.x) THEN "err"
     ELSE IF cond.k = "id" \/ (cond.k = "int" /\ cond.s) THEN
            IF ~FitsI32(r.x) THEN "err"
            ELSE IF m.u = "gap" /\ (r.x.l[4] > 0) THEN "any"
            ELSE IF cond.k = "id" /\ (cond.n \notin DOMAIN env.t \/ env.t[cond.n].p # "enum") THEN "any"
            ELSE IF cond.k = "id" /\ ~(\E i \in DOMAIN env.t[cond.n].b : Num(env, env.t[cond.n].b[i].v) = r.x) THEN "any"
            ELSE "ok"
     ELSE IF m.u = "gap" /\ r.x.l[4] > 0 THEN "any" ELSE "ok"
DefVerdict(env, m, x) ==
  CASE x.p = "const" -> IF ~Resolve(env, x.a.v, {}).ok THEN "err"
                        ELSE IF Num(env, x.a.v).neg THEN "any" ELSE IF FitsU64(Num(env, x.a.v)) THEN "ok" ELSE "err"
    [] x.p = "enum" -> Worst({ IF ~Good(env, x.b[i].v, FitsI32) THEN "err"
                               ELSE IF m.e # "gap" THEN "ok"
                               ELSE IF Num(env, x.b[i].v).neg /\ ~IsZero(Num(env, x.b[i].v).l) THEN "err"
                               ELSE IF Num(env, x.b[i].v).l[4] > 0 THEN "any" ELSE "ok" : i \in DOMAIN x.b })
    [] x.p = "struct" -> Worst({ IF x.b[i].d = "void" THEN "any" ELSE UseDecl(env, x.b[i], 9) : i \in DOMAIN x.b })
    [] x.p = "union" ->
         LET b == x.u
             cond == IF b.cond.d = "var" THEN Through(env, b.cond.ty, 9) ELSE [k |-> "none"]
         IN IF cond.k \notin {"int", "uint", "bool", "id"} THEN "any"
            ELSE Worst({ UseDecl(env, b.cases[i].d, 9) : i \in DOMAIN b.cases } \cup { UseDecl(env, b.def[i], 9) : i \in DOMAIN b.def }
                       \cup UNION { { LabelVerdict(env, m, cond, b.cases[i].vs[j]) : j \in DOMAIN b.cases[i].vs } : i \in DOMAIN b.cases })
    [] x.p = "typedef" ->
         IF x.d.d = "void" THEN "any"
         ELSE IF ~Ends(env, x.d.n, 1 + Cardinality(DOMAIN env.t)) THEN "err"
         ELSE IF m.keep /\ x.d.d \in {"ofix", "ovar"} THEN Worst({"any"} \cup { UseDecl(env, x.d, 9) })
         ELSE IF UseDecl(env, x.d, 9) = "ok" THEN "ok" ELSE "any"
    [] OTHER -> "ok"
Verdict(defs, m) == LET env == Env(defs) IN Worst({ DefVerdict(env, m, defs[i]) : i \in DOMAIN defs })

\* ---- sample values ----------------------------------------------------------------------
Nth(s, n) == s[1 + (n % Len(s))]
Bytes(n, k) == [i \in 1..k |-> (17 * n + 40 * i) % 256]
Letter(i) == 97 + (i % 26)
Floats32 == << [l |-> <<16320, 0>>, t |-> "1.5"], [l |-> <<0, 0>>, t |-> "0.0"], [l |-> <<49152, 0>>, t |-> "-2.0"], [l |-> <<16000, 0>>, t |-> "0.25"] >>
Floats64 == << [l |-> <<16376, 0, 0, 0>>, t |-> "1.5"], [l |-> <<49152, 0, 0, 0>>, t |-> "-2.0"], [l |-> <<0, 0, 0, 0>>, t |-> "0.0"], [l |-> <<16320, 0, 0, 0>>, t |-> "0.125"] >>
\* a discriminant no label covers, if there is one
Uncovered(t) ==
  LET covered == UNION { { t.vs[i].ls[j] : j \in DOMAIN t.vs[i].ls } : i \in DOMAIN t.vs }
      cands == CASE t.d.k = "i32" -> << [n |-> 77], [n |-> -1] >>
                 [] t.d.k = "u32" -> << [l |-> <<0, 77>>], [l |-> <<65535, 65535>>] >>
                 [] t.d.k = "bool" -> << [b |-> TRUE], [b |-> FALSE] >>
                 [] t.d.k = "s32" -> [i \in DOMAIN t.d.acc |-> [n |-> t.d.acc[i]]]
                 [] t.d.k \in {"ix", "enum"} -> [i \in DOMAIN t.d.vs |-> [i |-> i - 1, xs |-> <<>>]]
      free == SelectSeq(cands, LAMBDA v : v \notin covered)
  IN free
RECURSIVE Pick(_, _)
Choices(t) == SelectSeq([i \in DOMAIN t.vs |-> i],
                LAMBDA i : /\ i \notin t.odd /\ \A j \in DOMAIN t.vs[i].ts : ~Deep(t.vs[i].ts[j])
                           /\ (t.k = "un" /\ t.vs[i].def => Uncovered(t) # <<>>))
Pick(t, n) ==
  CASE t.k = "i32" -> [n |-> Nth(<<16909060, 0, -1, 1, C!MaxInt, C!MinInt, -2>>, n)]
    [] t.k = "u32" -> [l |-> Nth(<< <<258, 772>>, <<0, 0>>, <<65535, 65535>>, <<32768, 0>>, <<0, 1>> >>, n)]
    [] t.k = "i64" -> [l |-> Nth(<< <<258, 772, 1286, 1800>>, <<0, 0, 0, 0>>, <<65535, 65535, 65535, 65535>>, <<32768, 0, 0, 0>>, <<32767, 65535, 65535, 65535>> >>, n)]
    [] t.k = "u64" -> [l |-> Nth(<< <<258, 772, 1286, 1800>>, <<65535, 65535, 65535, 65535>>, <<0, 0, 0, 0>>, <<0, 0, 32768, 0>>, <<32768, 0, 0, 0>> >>, n)]
    [] t.k = "i8" -> [n |-> Nth(<<-128, 127, 0, 5, -1>>, n)]
    [] t.k = "u8" -> [n |-> Nth(<<200, 0, 255, 127, 128>>, n)]
    [] t.k = "i16" -> [n |-> Nth(<<-32768, 32767, 258, -1, 0>>, n)]
    [] t.k = "u16" -> [n |-> Nth(<<40000, 65535, 0, 32768, 258>>, n)]
    [] t.k = "f32" -> [l |-> Nth(Floats32, n).l]
    [] t.k = "f64" -> [l |-> Nth(Floats64, n).l]
    [] t.k = "bool" -> [b |-> n % 2 = 0]
    [] t.k = "str" -> [s |-> [i \in 1..((n + 3) % 6) |-> Letter(n + i)]]
    [] t.k = "ovar" -> [s |-> Bytes(n, (n + 2) % 6)]
    [] t.k = "ofix" -> [s |-> Bytes(n, t.n)]
    [] t.k = "opt" -> IF n % 3 = 2 \/ Deep(t.e) THEN [o |-> <<>>] ELSE [o |-> <<Pick(t.e, n)>>]
    [] t.k = "seq" -> [xs |-> IF Deep(t.e) THEN <<>> ELSE [i \in 1..((n + 2) % 4) |-> Pick(t.e, n + i)]]
    [] t.k = "arr" -> [xs |-> [i \in 1..t.n |-> Pick(t.e, n + i)]]
    [] t.k = "struct" -> [xs |-> [i \in DOMAIN t.ts |-> Pick(t.ts[i], n + i - 1)]]
    [] t.k = "s32" -> [n |-> Nth(t.acc, n)]
    [] t.k = "un" -> LET i == Nth(Choices(t), n)
                         d == IF t.vs[i].def THEN Nth(Uncovered(t), n \div Len(t.vs)) ELSE t.vs[i].ls[1]
                     IN [i |-> i - 1, xs |-> <<d>> \o [j \in DOMAIN t.vs[i].ts |-> Pick(t.vs[i].ts[j], n)]]
    [] t.k \in {"ix", "enum"} -> LET i == Nth(Choices(t), n)
                                 IN [i |-> i - 1, xs |-> [j \in DOMAIN t.vs[i].ts |-> Pick(t.vs[i].ts[j], n)]]
Most(a, b) == IF a > b THEN a ELSE b
RECURSIVE Samples(_)                  \* how many samples show all of a type
Samples(t) == CASE t.k \in {"opt", "seq", "arr"} -> Most(3, Samples(t.e))
                [] t.k = "struct" -> LET f[i \in 0..Len(t.ts)] == IF i = 0 THEN 4 ELSE Most(f[i - 1], Samples(t.ts[i])) IN f[Len(t.ts)]
                [] t.k = "s32" -> Len(t.acc)
                [] t.k \in {"un", "ix", "enum"} -> Most(3, Len(Choices(t)) + 1)
                [] OTHER -> 4

\* ---- how Rust shows a value -----------------------------------------------------------------
RECURSIVE Commas(_)
Commas(ss) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o ", " \o Commas(Tail(ss))
Brackets(ss) == "[" \o Commas(ss) \o "]"
Negated(l) == LET f == [i \in DOMAIN l |-> 65535 - l[i]]
                  n == Len(l)
                  g[i \in 1..n] == \* carry into limb i
                    IF i = n THEN 1 ELSE IF f[i + 1] + g[i + 1] > 65535 THEN 1 ELSE 0
              IN [i \in DOMAIN l |-> (f[i] + g[i]) % 65536]
AsciiChar(b) == CASE b >= 97 /\ b <= 122 -> Ch(LowerCase, b - 96) [] OTHER -> "?"
FloatText(fs, l) == IF \E i \in DOMAIN fs : fs[i].l = l THEN fs[CHOOSE i \in DOMAIN fs : fs[i].l = l].t ELSE "??"
\* values no mode can tell apart or bring back are marked: ~
RECURSIVE Show(_, _)
Shown(name, ss) == IF ss = <<>> THEN name ELSE name \o "(" \o Commas(ss) \o ")"
ShowVariant(t, i, ss) == (IF i \in t.odd THEN "~" ELSE "") \o Shown(t.ns[i], ss)
Show(t, v) ==
  CASE t.k \in {"i32", "i8", "u8", "i16", "u16"} -> ToString(v.n)
    [] t.k \in {"u32", "u64"} -> DecText(v.l)
    [] t.k = "i64" -> IF v.l[1] >= 32768 THEN "-" \o DecText(Negated(v.l)) ELSE DecText(v.l)
    [] t.k = "f32" -> FloatText(Floats32, v.l)
    [] t.k = "f64" -> FloatText(Floats64, v.l)
    [] t.k = "bool" -> IF v.b THEN "true" ELSE "false"
    [] t.k = "str" -> "\"" \o Join([i \in DOMAIN v.s |-> AsciiChar(v.s[i])]) \o "\""
    [] t.k \in {"ovar", "ofix"} -> Brackets([i \in DOMAIN v.s |-> ToString(v.s[i])])
    [] t.k = "opt" -> IF v.o = <<>> THEN "None" ELSE "Some(" \o Show(t.e, v.o[1]) \o ")"
    [] t.k \in {"seq", "arr"} -> Brackets([i \in DOMAIN v.xs |-> Show(t.e, v.xs[i])])
    [] t.k = "struct" -> t.nm \o " { " \o Commas([i \in DOMAIN t.ts |-> t.fs[i] \o ": " \o Show(t.ts[i], v.xs[i])]) \o " }"
    [] t.k = "s32" -> t.ns[CHOOSE i \in DOMAIN t.acc : t.acc[i] = v.n]
    [] t.k = "un" -> Shown(t.ns[v.i + 1], [j \in DOMAIN v.xs |-> IF j = 1 THEN Show(t.d, v.xs[1]) ELSE Show(t.vs[v.i + 1].ts[j - 1], v.xs[j])])
    [] t.k \in {"ix", "enum"} -> ShowVariant(t, v.i + 1, [j \in DOMAIN v.xs |-> Show(t.vs[v.i + 1].ts[j], v.xs[j])])
=============================================================================
