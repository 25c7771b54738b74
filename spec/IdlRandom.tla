------------------------------- MODULE IdlRandom -------------------------------
(* Pseudo-random specifications of the interface language: random names and    *)
(* literals, types within types, up to sixty definitions.                      *)
EXTENDS IdlUniverse, Chance

\* the j-th place for draws under place i
Pl(i, j) == (i * 37 + j * 1009 + 11) % 64007
Syllables == << "a", "B", "int", "_", "x", "const", "Z", "enum", "case", "void", "struct", "O", "proc", "e", "q7", "typedef", "default", "union", "hyper", "n0" >>
Endings == << "", "", "", "1", "0x", "_", "9a", "int", "opaque", "T", "007", "string" >>
RName(k, i) ==
  LET n == OneOf(k, Pl(i, 1), Syllables) \o (IF OneIn(k, Pl(i, 2), 2) THEN OneOf(k, Pl(i, 3), Syllables) ELSE "")
           \o (IF OneIn(k, Pl(i, 4), 9) THEN OneOf(k, Pl(i, 5), Syllables) \o OneOf(k, Pl(i, 6), Syllables) \o OneOf(k, Pl(i, 7), Syllables) ELSE "")
           \o OneOf(k, Pl(i, 8), Endings)
  IN IF n \in Reserved \cup Extra THEN n \o "_" ELSE n
RECURSIVE RDigits(_, _, _, _)
RDigits(k, i, n, ds) == IF n = 0 THEN "" ELSE Ch(ds, Draw(k, Pl(i, n), Len(ds))) \o RDigits(k, i, n - 1, ds)
RLength(k, i) == IF OneIn(k, i, 6) THEN Draw(k, i + 1, 30) ELSE Draw(k, i + 1, 4)
RValue(k, i) ==
  LET x == Draw(k, Pl(i, 1), 10)
      n == RLength(k, Pl(i, 2))
      body == Ch("123456789", Draw(k, Pl(i, 3), 9)) \o RDigits(k, Pl(i, 4), n - 1, "0123456789")
  IN CASE x <= 3 -> Dec(body)
       [] x = 4 -> Dec("-" \o body)
       [] x <= 6 -> Hex(RDigits(k, Pl(i, 4), n, "0123456789abcdefABCDEF"))
       [] x = 7 -> Oct(RDigits(k, Pl(i, 4), n, "01234567"))
       [] x = 8 -> Dec("0")
       [] OTHER -> Name(RName(k, Pl(i, 5)))
PlainSeq == << Signed("int", TRUE), Signed("int", FALSE), Signed("hyper", TRUE), Signed("hyper", FALSE), Signed("char", TRUE), Signed("char", FALSE),
               Signed("short", TRUE), Signed("short", FALSE), Ty("float"), Ty("double"), Ty("quadruple"), Ty("bool"), Ty("uint") >>
RECURSIVE RType(_, _, _), RDecl(_, _, _), RUnion(_, _, _)
RItems(k, i) == [j \in 1..Draw(k, Pl(i, 1), 5) |-> Asg(RName(k, Pl(i, 2 * j + 2)), RValue(k, Pl(i, 2 * j + 3)))]
RMembers(k, i, deep) == [j \in 1..Draw(k, Pl(i, 1), 5) |-> RDecl(k, Pl(i, j + 1), deep)]
\* deep: how far types may still be written within it
RType(k, i, deep) ==
  LET x == Draw(k, Pl(i, 1), 12)
  IN IF x <= 5 THEN OneOf(k, Pl(i, 2), PlainSeq)
     ELSE IF x <= 9 \/ deep = 0 THEN IdT(RName(k, Pl(i, 3)))
     ELSE CASE x = 10 -> [k |-> "enum", b |-> RItems(k, Pl(i, 4))]
            [] x = 11 -> [k |-> "struct", b |-> RMembers(k, Pl(i, 4), deep - 1)]
            [] x = 12 -> [k |-> "union", u |-> RUnion(k, Pl(i, 4), deep - 1)]
RDecl(k, i, deep) ==
  LET x == Draw(k, Pl(i, 1), 15)
      t == RType(k, Pl(i, 2), deep)
      n == RName(k, Pl(i, 3))
      v == RValue(k, Pl(i, 4))
      vs == IF OneIn(k, Pl(i, 5), 2) THEN <<>> ELSE <<v>>
  IN CASE x <= 5 -> DVar(t, n) [] x <= 7 -> DOpt(t, n) [] x <= 9 -> DFixed(t, n, v) [] x <= 11 -> DVarr(t, n, vs)
       [] x = 12 -> DOfix(n, v) [] x = 13 -> DOvar(n, vs) [] x = 14 -> DStr(n, vs) [] x = 15 -> Void
RUnion(k, i, deep) ==
  Body(RDecl(k, Pl(i, 1), deep),
       [j \in 1..Draw(k, Pl(i, 2), 4) |-> Case([l \in 1..(IF OneIn(k, Pl(i, 2 * j + 10), 2) THEN 1 ELSE Draw(k, Pl(i, 2 * j + 10) + 1, 4)) |-> RValue(k, Pl(i, 40 + 10 * j + l))],
                                               RDecl(k, Pl(i, 2 * j + 11), deep))],
       IF OneIn(k, Pl(i, 3), 2) THEN <<>> ELSE <<RDecl(k, Pl(i, 4), deep)>>)
RResult(k, i) == IF OneIn(k, Pl(i, 1), 3) THEN Ty("void") ELSE RType(k, Pl(i, 2), 1)
RVersion(k, i) == Vers(RName(k, Pl(i, 1)), [j \in 1..Draw(k, Pl(i, 2), 3) |-> Proc(RResult(k, Pl(i, 4 * j)), RName(k, Pl(i, 4 * j + 1)), RResult(k, Pl(i, 4 * j + 2)), RValue(k, Pl(i, 4 * j + 3)))],
                       RValue(k, Pl(i, 3)))
RDef(k, i) ==
  LET x == Draw(k, Pl(i, 1), 20)
      n == RName(k, Pl(i, 2))
  IN CASE x <= 3 -> PConst(n, RValue(k, Pl(i, 3)))
       [] x <= 8 -> PTypedef(RDecl(k, Pl(i, 3), 2))
       [] x <= 11 -> PEnum(n, RItems(k, Pl(i, 3)))
       [] x <= 15 -> PStructDef(n, RMembers(k, Pl(i, 3), 2))
       [] x <= 18 -> PUnionDef(n, RUnion(k, Pl(i, 3), 2))
       [] x = 19 -> Prog(n, [j \in 1..Draw(k, Pl(i, 4), 3) |-> RVersion(k, Pl(i, 4 + j))], RValue(k, Pl(i, 3)))
       [] x = 20 -> PLine
HowMany(k) == LET x == OneOf(k, 3, <<1, 1, 2, 3, 5, 8, 13, 30, 60>>) IN Draw(k, 4, x)
RDefs(k, most) == [i \in 1..(IF HowMany(k) > most THEN most ELSE HowMany(k)) |-> TLCEval(RDef(k, 100 * i))]
=============================================================================
