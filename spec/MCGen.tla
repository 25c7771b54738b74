--------------------------------- MODULE MCGen ---------------------------------
(* Code is generated from a document under a mode; a value of one of its types  *)
(* is encoded, the wire may be damaged, and it is decoded.  Every document is    *)
(* printed as text, to be generated and compiled, and every decoding, to be      *)
(* replayed into the compiled code.                                              *)
EXTENDS GenRandom, Json

CONSTANTS Subject,     \* "structs" "enums" "unions" "typedefs" "orders" "numbers"
          Deepness,    \* 0: few modes; 1: few samples damaged; 2: more
          Seed, Count  \* "ran_": which and how many pseudo-random documents
VARIABLES doc, mode, ty, n, fault, wire
vars == <<doc, mode, ty, n, fault, wire>>

Docs == CASE Subject = "structs" -> <<MembersDoc, AloneDoc, WideDoc, SizesDoc, RecDoc, RecLongDoc, ShadowDoc, NamedDoc, ManyMembersDoc>>
          [] Subject = "enums" -> [i \in DOMAIN EnumSets |-> EnumDoc(i)] \o <<ManyEnumDoc>>
          [] Subject = "unions" -> [d \in DOMAIN Defaults |-> UnionDoc(d)] \o <<ArmsDoc, HighDoc, ManyLabelsDoc(<<>>), ManyLabelsDoc(<<U!DVar(Id("s1"), "z")>>)>>
          [] Subject = "typedefs" -> <<TypedefDoc, KeptDoc, AliasDoc>>
          [] Subject = "numbers" -> <<ConstsDoc, EnumNumsDoc, EnumSmallDoc, LabelsDoc, LabelSmallDoc, NumSizesDoc>>
          [] Subject \in DOMAIN Kinds0 -> [i \in 1..Count |-> RandomDoc(Subject, Seed * 1000 + i)]
          [] Subject = "names" -> <<WordsDoc, WordConstsDoc>>
          [] Subject = "orders" -> Flat([i \in 1..5 |->
               LET d == <<WideDoc, RecDoc, EnumDoc(8), UnionDoc(3), TypedefDoc>>[i]
               IN <<Doc(d.n \o "_rev", Reversed(d.defs)), Doc(d.n \o "_rot", Rotated(d.defs, Len(d.defs) \div 2)), Doc(d.n \o "_add", Sprinkled(d.defs))>>])
Mode(e, u, k) == [e |-> e, u |-> u, keep |-> k]
Nine == { Mode(e, u, FALSE) : e \in {"std", "ix", "gap"}, u \in {"un", "ix", "gap"} }
Three == { Mode("std", "un", FALSE), Mode("ix", "ix", FALSE), Mode("gap", "gap", FALSE) }
ModesOf0(d) ==
  CASE Subject \in DOMAIN Kinds0 -> d.modes
    [] d.n \in {"members", "alone", "wide", "sizes", "reclong", "named", "aliases", "manymembers", "enum_many", "labels_many0", "labels_many1"} -> Three
    [] d.n \in {"enum_minus", "enum_ends"} -> { x \in Nine : x.e # "gap" }
    [] d.n \in {"enum_far", "enum_gaps"} -> Three \cup { Mode("std", "ix", FALSE) }
    [] d.n \in {"consts", "numsizes", "wordconsts"} -> { Mode("std", "un", FALSE), Mode("ix", "ix", FALSE) }
    [] d.n = "enumnums" -> { Mode("std", "un", FALSE), Mode("ix", "ix", FALSE) }
    [] d.n = "labels" -> { x \in Nine : x.u # "gap" /\ x.e = "std" }
    [] d.n \in {"enumsmall", "labelsmall"} -> Three
    [] d.n = "high" -> { x \in Nine : x.u # "gap" /\ x.e # "gap" }
    [] d.n = "kept" -> { [x EXCEPT !.keep = TRUE] : x \in Three }
    [] Subject = "orders" -> { Mode("std", "un", FALSE), Mode("gap", "ix", FALSE) }
    [] OTHER -> Nine
ModesOf(d) == LET all == ModesOf0(d) IN IF Deepness = 0 /\ Subject \notin DOMAIN Kinds0 /\ all \cap Three # {} THEN all \cap Three ELSE all

\* everything about a document that does not depend on the value, computed once
TypeNames(defs) == LET ts == SelectSeq(Named(defs), LAMBDA x : x.p # "typedef") IN { ts[j].n : j \in DOMAIN ts }
TypesOf(d) == LET env == TLCEval(Env(d.defs))
              IN [m \in ModesOf(d) |-> [t \in TypeNames(d.defs) |-> NameOf(env, m, t, <<>>)]]
Kept0(i, v) == v = v /\ TLCSet(i, v)
ASSUME Kept0(1, TLCEval(Docs))
ASSUME Kept0(2, TLCEval([i \in DOMAIN TLCGet(1) |-> TLCEval(TypesOf(TLCGet(1)[i]))]))
DocAt(i) == TLCGet(1)[i]
TypeAt(i, m, t) == TLCGet(2)[i][m][t]
T == TypeAt(doc, mode, ty)

Nothing == [f |-> "", a |-> 0, x |-> <<>>]
Init == /\ doc \in DOMAIN TLCGet(1)
        /\ mode \in ModesOf(DocAt(doc))
        /\ ty = "" /\ n = 0 /\ fault = Nothing /\ wire = <<>>
Value == /\ ty = ""
         /\ ty' \in TypeNames(DocAt(doc).defs)
         /\ ~Deep(TypeAt(doc, mode, ty')) /\ (Subject \in DOMAIN Kinds0 => Weight(TypeAt(doc, mode, ty')) <= 400)
         /\ n' \in 1..Samples(TypeAt(doc, mode, ty'))
         /\ wire' = C!Enc(TypeAt(doc, mode, ty'), Pick(TypeAt(doc, mode, ty'), n')).b
         /\ UNCHANGED <<doc, mode, fault>>
Words4 == { C!IntWord(w) : w \in { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 77, 256, 301, 65536, C!MaxInt, -1, -2, -3, -4, C!MinInt } }
Damage == /\ ty # "" /\ fault = Nothing
          /\ n <= 2 + 4 * (Deepness - 1) \/ (T.k \in {"s32", "ix", "enum", "un"} /\ (Samples(T) <= 24 \/ n % 16 = 0))
          /\ LET w == wire
             IN \/ \E j \in 0..((Len(w) \div 4) - 1) : \E x \in Words4 : j <= 6 + 20 * (Deepness - 1) /\ fault' = [f |-> "over", a |-> 4 * j, x |-> x]
                \/ n <= 2 /\ \E k \in 0..(Len(w) - 1) : (k % 4 = 0 \/ k > Len(w) - 4) /\ fault' = [f |-> "cut", a |-> k, x |-> <<>>]
                \/ n <= 2 /\ fault' = [f |-> "ext", a |-> 0, x |-> <<0, 0, 0, 0>>]
          /\ UNCHANGED <<doc, mode, ty, n, wire>>
Next == Value \/ Damage
Spec == Init /\ [][Next]_vars

Sent == LET w == wire
        IN CASE fault.f = "over" -> C!Take(w, fault.a) \o fault.x \o C!Rest(w, fault.a + 4)
             [] fault.f = "cut" -> C!Take(w, fault.a)
             [] fault.f = "ext" -> w \o fault.x
             [] OTHER -> w
\* decoding gives back what was encoded
Law == (ty # "" /\ fault = Nothing) => C!From(T, wire) = [ok |-> TRUE, v |-> Pick(T, n)]
Generable0 == ty = "" => Verdict(DocAt(doc).defs, mode) = "ok"

Bits(m) == (IF m.keep THEN 1 ELSE 0) + (IF m.e = "ix" THEN 2 ELSE IF m.e = "std" THEN 4 ELSE 0) + (IF m.u = "ix" THEN 8 ELSE IF m.u = "un" THEN 16 ELSE 0)
Key == DocAt(doc).n \o "_" \o ToString(Bits(mode))
\* what must appear in the generated code, once each
Items(defs) ==
  Flat([i \in DOMAIN defs |-> LET x == defs[i]
    IN CASE x.p = "const" -> << <<"const", ConstIdent(x.a.n)>> >>
         [] x.p = "enum" -> << <<"enum", TypeIdent(x.n)>> >>
         [] x.p = "struct" -> << <<"struct", TypeIdent(x.n)>> >>
         [] x.p = "union" -> << <<"enum", TypeIdent(x.n)>> >>
         [] OTHER -> <<>>])
\* the numbers constants must have
Numbers(defs) == LET env == TLCEval(Env(defs))
                     cs == Constants(defs)
                 IN [i \in DOMAIN cs |-> <<ConstIdent(cs[i].n), DecText(Num(env, cs[i].v).l)>>]
\* the definitions that mean something
Telling(defs) == SelectSeq(defs, LAMBDA x : x.p \notin {"line", "prog"})
EmitDoc == ty = "" => LET defs == DocAt(doc).defs
                      IN PrintT(ToJson([key |-> Key, c |-> Bits(mode), x |-> Render(Bare(Words(defs))),
                                        plain |-> IF Telling(defs) = defs THEN <<>> ELSE Render(Bare(Words(Telling(defs)))),
                                        items |-> Items(defs), numbers |-> Numbers(defs),
                                        ts |-> { TypeIdent(t) : t \in TypeNames(defs) }]))
Odd(text) == \E i \in 1..Len(text) : Ch(text, i) = "~"
EmitValue ==
  ty # "" =>
    LET t == T
        r == C!From(t, Sent)
        text == IF r.ok THEN Show(t, r.v) ELSE ""
    IN IF ~r.ok /\ "Deep" \in r.e THEN TRUE
       ELSE PrintT(ToJson([m |-> Key, t |-> TypeIdent(ty), x |-> Sent, d |-> IF r.ok THEN <<text>> ELSE <<>>,
                           b |-> IF r.ok /\ fault # Nothing /\ ~Odd(text) THEN <<C!Enc(t, r.v).b>> ELSE <<>>]))
=============================================================================
