------------------------------- MODULE GenRandom -------------------------------
(* Pseudo-random specifications code must be generated from.  A definition uses *)
(* definitions of lower layers only, but for one or two places where, behind an  *)
(* optional or a variable array, it may use any of them (recursion).             *)
EXTENDS GenUniverse, Chance

Nat0(i) == ToString(i)
RECURSIVE InBase(_, _)
InBase(n, b) == (IF n < b THEN "" ELSE InBase(n \div b, b)) \o Ch("0123456789abcdef", 1 + (n % b))
LitOf(k, i, n) ==                     \* a literal of the number n
  LET x == Draw(k, i, 4)
  IN IF n < 0 THEN D("-" \o ToString(0 - n)) ELSE IF x = 1 THEN Lit("hex", InBase(n, 16)) ELSE IF x = 2 THEN Lit("oct", InBase(n, 8)) ELSE D(ToString(n))
\* a way to write the number n: a name for it, if there is one, or a literal
ValueOf(k, i, acc, n) ==
  LET names == SelectSeq(acc.vals, LAMBDA x : x.num = n)
  IN IF names # <<>> /\ ~OneIn(k, i, 3) THEN Name(OneOf(k, i + 1, names).n) ELSE LitOf(k, i + 2, n)
SizeOf(k, i, acc, most) ==
  LET names == SelectSeq(acc.vals, LAMBDA x : x.num >= 1 /\ x.num <= most)
  IN IF names # <<>> /\ OneIn(k, i, 2) THEN Name(OneOf(k, i + 1, names).n) ELSE LitOf(k, i + 2, Draw(k, i + 3, most))

\* ---- the plan of a document ------------------------------------------------------
Kinds0 == [ran_structs |-> <<"struct", "struct", "struct", "struct", "const", "enum", "typedef", "union">>,
           ran_enums |-> <<"enum", "enum", "enum", "const", "struct", "struct", "typedef", "union">>,
           ran_unions |-> <<"union", "union", "union", "union", "enum", "struct", "const", "typedef">>,
           ran_typedefs |-> <<"typedef", "typedef", "typedef", "typedef", "struct", "union", "enum", "const">>]
Many(k) == 5 + Draw(k, 1, 8)
KindAt(subject, k, i) == IF i = 1 THEN "const" ELSE IF i = 2 THEN "enum" ELSE IF i = Many(k) THEN "struct" ELSE OneOf(k, 100 + i, Kinds0[subject])
NameAt(k, i) == OneOf(k, 200 + i, <<"t", "some_", "Kind", "X_y", "zz", "longer_name_", "aB", "_p">>) \o Nat0(i) \o OneOf(k, 300 + i, <<"", "", "_t", "Rec", "_of_it">>)
ConstAt(k, i) == OneOf(k, 200 + i, <<"MAX_", "C", "K_of_", "Size", "n_">>) \o Nat0(i) \o OneOf(k, 300 + i, <<"", "", "_LEN">>)
LayerAt(k, i) == 1 + ((i - 1) * 4) \div Many(k)
Recurs(k, i) == i \in { Draw(k, 3, 2 * Many(k)), Draw(k, 4, 2 * Many(k)) }
Targets(subject, k) == LET all == [i \in 1..Many(k) |-> i]
                       IN SelectSeq(all, LAMBDA i : KindAt(subject, k, i) \in {"struct", "union"})

\* ---- declarations -----------------------------------------------------------------
PlainOf(k, i) == PrimTypes[Draw(k, i, Len(PrimTypes))]
TypeFor(k, i, acc, layer) ==
  LET lower == SelectSeq(acc.types, LAMBDA x : x.lay < layer)
  IN IF lower # <<>> /\ ~OneIn(k, i, 3) THEN Id(OneOf(k, i + 1, lower).n) ELSE PlainOf(k, i + 2)
\* i: a place for draws, twenty of them; again: "" or a name to recur to
DeclFor(k, i, n, acc, layer, again) ==
  LET x == Draw(k, i, 12)
      t == TypeFor(k, i + 1, acc, layer)
  IN IF again # "" THEN IF OneIn(k, i, 2) THEN U!DOpt(Id(again), n) ELSE U!DVarr(Id(again), n, <<>>)
     ELSE CASE x <= 4 -> U!DVar(t, n)
            [] x = 5 -> U!DOpt(t, n)
            [] x = 6 \/ x = 7 -> U!DFixed(t, n, SizeOf(k, i + 4, acc, 4))
            [] x = 8 \/ x = 9 -> U!DVarr(t, n, IF OneIn(k, i + 8, 2) THEN <<>> ELSE <<SizeOf(k, i + 4, acc, 40)>>)
            [] x = 10 -> U!DOfix(n, SizeOf(k, i + 4, acc, 40))
            [] x = 11 -> U!DOvar(n, IF OneIn(k, i + 8, 2) THEN <<>> ELSE <<SizeOf(k, i + 4, acc, 40)>>)
            [] x = 12 -> U!DStr(n, IF OneIn(k, i + 8, 2) THEN <<>> ELSE <<SizeOf(k, i + 4, acc, 40)>>)
MemberName(k, i, j) == OneOf(k, i, <<"a", "the_", "fieldNo", "M_", "_x", "Len", "type_">>) \o Nat0(j) \o OneOf(k, i + 1, <<"", "", "_", "B", "_z">>)
Again(subject, k, i) == LET ts == Targets(subject, k) IN IF Recurs(k, i) THEN NameAt(k, OneOf(k, 60 + i, ts)) ELSE ""
Place(i, j) == 1000 * i + 30 * j

\* ---- definitions ------------------------------------------------------------------
\* numbers that rise, from the first
RECURSIVE Rising(_, _, _, _)
Rising(k, i, n, from) ==
  IF n = 0 THEN <<>> ELSE <<from>> \o Rising(k, i + 1, n - 1, from + (IF OneIn(k, i, 9) THEN 120 + Draw(k, i + 300, 90) ELSE Draw(k, i + 300, 4)))
Stirred(k, i, s) == LET x == Draw(k, i, 3) IN IF x = 1 THEN s ELSE IF x = 2 THEN Reversed(s) ELSE Rotated(s, Len(s) \div 2)
With(acc, defs, types, vals, conds) ==
  [defs |-> acc.defs \o defs, types |-> acc.types \o types, vals |-> acc.vals \o vals, conds |-> acc.conds \o conds]
AddConst(k, i, acc) ==
  LET small == SelectSeq(acc.vals, LAMBDA x : x.num >= 0)
      byName == small # <<>> /\ OneIn(k, Place(i, 1), 2)
      from == OneOf(k, Place(i, 2), IF small = <<>> THEN <<[n |-> "", num |-> 0]>> ELSE small)
      num == IF byName THEN from.num ELSE IF OneIn(k, Place(i, 3), 4) THEN 30 * Draw(k, Place(i, 4), 30) ELSE Draw(k, Place(i, 5), 9)
  IN With(acc, <<Const(ConstAt(k, i), IF byName THEN Name(from.n) ELSE LitOf(k, Place(i, 6), num))>>, <<>>, <<[n |-> ConstAt(k, i), num |-> num]>>, <<>>)
EnumeratorName(k, i, j) == OneOf(k, Place(i, j) + 9, <<"e", "E_", "ev_", "Item", "RED">>) \o Nat0(i) \o OneOf(k, Place(i, j) + 10, <<"_", "_x", "_Of_">>) \o Ch(LowerCase, j)
AddEnum(k, i, acc) ==
  LET m == Draw(k, Place(i, 1), 6)
      nums == Stirred(k, Place(i, 2), Rising(k, Place(i, 3), m, IF OneIn(k, Place(i, 1) + 1, 5) THEN 0 - Draw(k, Place(i, 1) + 2, 9) ELSE Draw(k, Place(i, 1) + 3, 4) - 1))
      items == [j \in 1..m |-> [n |-> EnumeratorName(k, i, j), num |-> nums[j]]]
  IN With(acc, <<Enum(NameAt(k, i), [j \in 1..m |-> U!Asg(items[j].n, ValueOf(k, Place(i, j + 10), acc, nums[j]))])>>,
          <<[n |-> NameAt(k, i), lay |-> 0]>>, items, <<[ty |-> Id(NameAt(k, i)), kind |-> "enum", items |-> items]>>)
AddStruct(subject, k, i, acc) ==
  LET m == Draw(k, Place(i, 0), 6)
      r == Draw(k, Place(i, 0) + 1, m)
  IN With(acc, <<Struct(NameAt(k, i), [j \in 1..m |-> DeclFor(k, Place(i, j), MemberName(k, Place(i, j) + 20, j), acc, LayerAt(k, i), IF j = r THEN Again(subject, k, i) ELSE "")])>>,
          <<[n |-> NameAt(k, i), lay |-> LayerAt(k, i)]>>, <<>>, <<>>)
AddTypedef(k, i, acc) ==
  LET x == Draw(k, Place(i, 1), 3)
      cond == OneOf(k, Place(i, 2), acc.conds)
      d == IF x = 1 THEN U!DVar(cond.ty, NameAt(k, i)) ELSE DeclFor(k, Place(i, 3), NameAt(k, i), acc, LayerAt(k, i), "")
  IN With(acc, <<Typedef(d)>>, <<[n |-> NameAt(k, i), lay |-> IF x = 1 THEN 0 ELSE LayerAt(k, i)]>>, <<>>,
          IF x = 1 THEN <<[cond EXCEPT !.ty = Id(NameAt(k, i))]>> ELSE <<>>)
\* labels are dealt to arms by twos and ones
RECURSIVE Dealt(_, _, _)
Dealt(k, i, ls) == IF ls = <<>> THEN <<>>
                   ELSE LET n == IF Len(ls) > 1 /\ OneIn(k, i, 3) THEN 2 ELSE 1
                        IN <<SubSeq(ls, 1, n)>> \o Dealt(k, i + 1, SubSeq(ls, n + 1, Len(ls)))
AddUnion(subject, k, i, acc) ==
  LET asked == OneOf(k, Place(i, 1), acc.conds)
      usable == SelectSeq(asked.items, LAMBDA x : x.num >= 0)
      cond == IF asked.kind = "enum" /\ usable = <<>> THEN acc.conds[1] ELSE asked
      some == LET s == Stirred(k, Place(i, 2), usable) IN SubSeq(s, 1, Draw(k, Place(i, 3), Len(s)))
      m == Draw(k, Place(i, 4), 5)
      nums == Stirred(k, Place(i, 5), Rising(k, Place(i, 6), m, Draw(k, Place(i, 7), 4) - 1))
      truths == OneOf(k, Place(i, 8), << <<"TRUE", "FALSE">>, <<"FALSE", "TRUE">>, <<"TRUE">>, <<"FALSE">> >>)
      labels == CASE cond.kind = "bool" -> [j \in DOMAIN truths |-> Name(truths[j])]
                  [] cond.kind = "enum" -> [j \in DOMAIN some |-> IF OneIn(k, Place(i, 9) + j, 4) THEN LitOf(k, Place(i, 9) + j, some[j].num) ELSE Name(some[j].n)]
                  [] OTHER -> [j \in DOMAIN nums |-> ValueOf(k, Place(i, 9) + 3 * j, acc, nums[j])]
      arms == Dealt(k, Place(i, 10), labels)
      full == cond.kind = "bool" /\ Len(truths) = 2
      r == Draw(k, Place(i, 0), Len(arms))
      ArmOf(j) == IF OneIn(k, Place(i, 10 + j) + 15, 4) THEN U!Void
                  ELSE DeclFor(k, Place(i, 10 + j), MemberName(k, Place(i, 10 + j) + 16, j), acc, LayerAt(k, i), IF j = r THEN Again(subject, k, i) ELSE "")
  IN With(acc, <<Union(NameAt(k, i), U!DVar(cond.ty, MemberName(k, Place(i, 0) + 1, 0)), [j \in DOMAIN arms |-> U!Case(arms[j], ArmOf(j))],
                       IF full \/ ~OneIn(k, Place(i, 0) + 4, 3) THEN <<>> ELSE <<ArmOf(9)>>)>>,
          <<[n |-> NameAt(k, i), lay |-> LayerAt(k, i)]>>, <<>>, <<>>)
Conds0 == << [ty |-> SInt, kind |-> "int", items |-> <<>>], [ty |-> UIntT, kind |-> "int", items |-> <<>>], [ty |-> [k |-> "uint"], kind |-> "int", items |-> <<>>],
             [ty |-> Ty("bool"), kind |-> "bool", items |-> <<>>] >>
RECURSIVE Grown(_, _, _, _)
Grown(subject, k, i, acc) ==
  IF i > Many(k) THEN acc
  ELSE LET x == KindAt(subject, k, i)
       IN Grown(subject, k, i + 1, TLCEval(CASE x = "const" -> AddConst(k, i, acc) [] x = "enum" -> AddEnum(k, i, acc) [] x = "struct" -> AddStruct(subject, k, i, acc)
                                             [] x = "typedef" -> AddTypedef(k, i, acc) [] x = "union" -> AddUnion(subject, k, i, acc)))
RandomDefs0(subject, k) ==
  LET defs == Grown(subject, k, 1, [defs |-> <<>>, types |-> <<>>, vals |-> <<>>, conds |-> Conds0]).defs
      x == Draw(k, 7, 4)
      d == IF x = 1 THEN defs ELSE IF x = 2 THEN Reversed(defs) ELSE Rotated(defs, Draw(k, 8, Len(defs)))
  IN IF OneIn(k, 9, 3) THEN Sprinkled(d) ELSE d
ModeFor(k) == [e |-> OneOf(k, 11, <<"std", "ix", "gap">>), u |-> OneOf(k, 12, <<"un", "ix", "gap">>), keep |-> OneIn(k, 13, 4)]
RandomModes(subject, k, defs) ==
  LET wanted == ModeFor(k)
      second == [wanted EXCEPT !.keep = FALSE]
  IN IF Verdict(defs, wanted) = "ok" THEN {wanted}
     ELSE IF Verdict(defs, second) = "ok" THEN {second} ELSE {[e |-> "std", u |-> "un", keep |-> FALSE]}
RandomDoc(subject, k) == LET defs == TLCEval(RandomDefs0(subject, k)) IN [n |-> "r" \o Nat0(k), defs |-> defs, modes |-> RandomModes(subject, k, defs)]

\* how many words the samples of a type may take
RECURSIVE Weight(_)
Weight(t) == CASE t.k = "opt" -> 1 + Weight(t.e)
               [] t.k = "seq" -> 1 + 3 * Weight(t.e)
               [] t.k = "arr" -> t.n * Weight(t.e)
               [] t.k = "ofix" -> 1 + t.n \div 4
               [] t.k = "struct" -> LET f[i \in 0..Len(t.ts)] == IF i = 0 THEN 0 ELSE f[i - 1] + Weight(t.ts[i]) IN f[Len(t.ts)]
               [] t.k \in {"un", "ix", "enum"} ->
                    LET g[i \in 0..Len(t.vs)] == IF i = 0 THEN 0
                                                 ELSE LET ts == t.vs[i].ts
                                                          f[j \in 0..Len(ts)] == IF j = 0 THEN 0 ELSE f[j - 1] + Weight(ts[j])
                                                      IN Most(g[i - 1], f[Len(ts)])
                    IN 1 + g[Len(t.vs)]
               [] t.k \in {"deep"} -> 0
               [] t.k \in {"str", "ovar"} -> 3
               [] OTHER -> 2
=============================================================================
