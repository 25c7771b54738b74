-------------------------------- MODULE MCLong --------------------------------
(* Long data and deep nesting.  The encoding of n equal parts is the head, n   *)
(* times the encoding of the part, and the tail; that of a value wrapped n      *)
(* times is n heads, the encoding of the value, and n tails.  A cut refuses it  *)
(* for want of data, an extension as trailing.  These laws are checked against  *)
(* Enc and From for the small n below (Law), and printed for the large n for    *)
(* the replay.                                                                  *)
EXTENDS XdrUniverse, Json

CONSTANTS Lengths,    \* the large n
          Opaques,    \* the n for fixed opaque data
          Depths      \* how often values are wrapped
VARIABLES ent, n, big
vars == <<ent, n, big>>

\* ---- long -----------------------------------------------------------------------
\* a form: the type of the whole as a function of n, the part and its head
Byte1 == {65, 0, 255}
Parts1 == { [form |-> "s", t |-> T(k), v |-> b] : k \in {"bytes", "ovar"}, b \in Byte1 }
          \cup { [form |-> "s", t |-> T("str"), v |-> 65], [form |-> "s", t |-> T("str"), v |-> 0] }
Fixed == { [form |-> "s", t |-> T("ofix"), v |-> b] : b \in Byte1 }
Elems == { [form |-> "xs", t |-> [k |-> "seq", e |-> e.t], v |-> e.vs[1]] : e \in FewLeaves \ {E(T("unit"), U, U)} }
         \cup { [form |-> "kv", t |-> [k |-> "map", a |-> Sib1.t, d |-> Sib2.t],
                 v |-> [xs |-> <<Sib1.vs[1], Sib2.vs[1]>>]] }

\* ---- deep -----------------------------------------------------------------------
Mixture(w, t) == CASE w = "enew" -> << Variant("unit", <<>>), Variant("newtype", <<t>>) >>
                 [] w = "etuple" -> << Variant("unit", <<>>), Variant("newtype", <<Sib1.t>>), Variant("tuple", <<Sib1.t, t>>) >>
                 [] w = "estruct" -> << Variant("unit", <<>>), Variant("struct", <<Sib2.t>>), Variant("unit", <<>>), Variant("struct", <<t, Sib2.t>>), Variant("unit", <<>>) >>
WrapNames == {"opt", "seq", "arr", "newtype", "tup", "tstruct", "struct", "pair", "enew", "etuple", "estruct", "map", "key", "optseq"}
WrapT(w, t) ==
  CASE w \in {"opt", "seq", "newtype"} -> [k |-> w, e |-> t]
    [] w = "arr" -> [k |-> w, e |-> t, n |-> 1]
    [] w \in {"tup", "tstruct", "struct"} -> [k |-> w, ts |-> <<t>>]
    [] w = "pair" -> [k |-> "struct", ts |-> <<Sib1.t, t, Sib2.t>>]
    [] w \in {"enew", "etuple", "estruct"} -> [k |-> "enum", vs |-> Mixture(w, t)]
    [] w = "map" -> [k |-> "map", a |-> Sib2.t, d |-> t]
    [] w = "key" -> [k |-> "map", a |-> t, d |-> Sib1.t]
    [] w = "optseq" -> [k |-> "opt", e |-> [k |-> "seq", e |-> t]]
WrapV(w, v) ==
  CASE w = "opt" -> [o |-> <<v>>]
    [] w \in {"seq", "arr", "tup", "tstruct", "struct"} -> [xs |-> <<v>>]
    [] w = "newtype" -> v
    [] w = "pair" -> [xs |-> <<Sib1.vs[1], v, Sib2.vs[1]>>]
    [] w = "enew" -> [i |-> 1, xs |-> <<v>>]
    [] w = "etuple" -> [i |-> 2, xs |-> <<Sib1.vs[1], v>>]
    [] w = "estruct" -> [i |-> 3, xs |-> <<v, Sib2.vs[1]>>]
    [] w = "map" -> [kv |-> << <<Sib2.vs[1], v>> >>]
    [] w = "key" -> [kv |-> << <<v, Sib1.vs[1]>> >>]
    [] w = "optseq" -> [o |-> << [xs |-> <<v>>] >>]
Sib1B == Enc(Sib1.t, Sib1.vs[1]).b
Sib2B == Enc(Sib2.t, Sib2.vs[1]).b
Before(w) ==
  CASE w \in {"opt", "seq", "enew", "key"} -> NatWord(1)
    [] w \in {"newtype", "arr", "tup", "tstruct", "struct"} -> <<>>
    [] w = "pair" -> Sib1B
    [] w = "etuple" -> NatWord(2) \o Sib1B
    [] w = "estruct" -> NatWord(3)
    [] w = "map" -> NatWord(1) \o Sib2B
    [] w = "optseq" -> NatWord(1) \o NatWord(1)
After(w) == CASE w \in {"pair", "estruct"} -> Sib2B [] w = "key" -> Sib1B [] OTHER -> <<>>
DeepLeaves == { E(T("u8"), N(0), N(255)), E(T("str"), S(Text(5)), S(<<>>)), E(T("i64"), L(<<32768, 0, 0, 0>>), L(<<0, 0, 0, 7>>)) }
Deeps == { [form |-> "deep", t |-> e.t, v |-> e.vs[1], w |-> w] : e \in DeepLeaves, w \in WrapNames }
RECURSIVE WrappedT(_, _, _), WrappedV(_, _, _)
WrappedT(w, t, k) == IF k = 0 THEN t ELSE WrapT(w, WrappedT(w, t, k - 1))
WrappedV(w, v, k) == IF k = 0 THEN v ELSE WrapV(w, WrappedV(w, v, k - 1))

\* ---- the whole ---------------------------------------------------------------------
Rep0(p, k) == CASE p.form = "s" -> S(Rep(p.v, k))
                [] p.form = "xs" -> [xs |-> Rep(p.v, k)]
                [] p.form = "kv" -> [kv |-> Rep(p.v.xs, k)]
TypeOf(p, k) == IF p.form = "deep" THEN WrappedT(p.w, p.t, k) ELSE IF p.t.k = "ofix" THEN [k |-> "ofix", n |-> k] ELSE p.t
ValueOf(p, k) == IF p.form = "deep" THEN WrappedV(p.w, p.v, k) ELSE Rep0(p, k)
Head4(p, k) == IF p.form = "deep" THEN Before(p.w) ELSE IF p.t.k = "ofix" THEN <<>> ELSE LenWord(k)
Body(p) == CASE p.form = "s" -> <<p.v>>
             [] p.form = "xs" -> Enc(p.t.e, p.v).b
             [] p.form = "kv" -> EncAll(<<p.t.a, p.t.d>>, p.v.xs).b
             [] p.form = "deep" -> Enc(p.t, p.v).b
Tail0(p, k) == CASE p.form = "deep" -> After(p.w) [] p.form = "s" -> Rep(0, PadLen(k)) [] OTHER -> <<>>
Long(p, k) == IF p.form = "deep" THEN Concat(Rep(Before(p.w), k)) \o Body(p) \o Concat(Rep(After(p.w), k))
              ELSE Head4(p, k) \o Concat(Rep(Body(p), k)) \o Tail0(p, k)
Size(p, k) == IF p.form = "deep" THEN k * (Len(Before(p.w)) + Len(After(p.w))) + Len(Body(p))
              ELSE Len(Head4(p, k)) + k * Len(Body(p)) + Len(Tail0(p, k))
\* where it is cut and by how much it is extended
Cuts(p, k) == LET s == Size(p, k)
              IN { c \in { 0, 1, 3, 4, 5, 8, s - 1, s - 2, s - 3, s - 4, s - 5, s - 8, s \div 2, s \div 3, (s \div 8) * 4, 255, 256, 65535, 65536 } : c >= 0 /\ c < s }
Exts == { 1, 2, 3, 4, 5, 7, 8, 255, 256, 65536 }

Init == /\ \/ ent \in Parts1 \cup Elems \cup Fixed /\ n \in 0..9 /\ big = FALSE
           \/ ent \in Deeps /\ n \in 0..5 /\ big = FALSE
           \/ ent \in Parts1 \cup Elems /\ n \in Lengths /\ big = TRUE
           \/ ent \in Fixed /\ n \in Opaques /\ big = TRUE
           \/ ent \in Deeps /\ n \in Depths /\ big = TRUE
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Law == ~big => LET t == TypeOf(ent, n)
                   w == Long(ent, n)
               IN /\ Enc(t, ValueOf(ent, n)) = Ok(w)
                  /\ Len(w) = Size(ent, n)
                  /\ From(t, w) = [ok |-> TRUE, v |-> ValueOf(ent, n)]
                  /\ \A c \in Cuts(ent, n) : LET r == From(t, Take(w, c)) IN ~r.ok /\ r.e = {"NotEnough"}
                  /\ \A x \in Exts : x > 300 \/ From(t, w \o Rep(0, x)) = [ok |-> FALSE, e |-> {"Trailing"}, x |-> x]
Emit == LET more == [n |-> n, h |-> Head4(ent, n), b |-> Body(ent), z |-> Tail0(ent, n), cuts |-> Cuts(ent, n), exts |-> Exts]
        IN PrintT(ToJson(IF ent.form = "deep"
             THEN more @@ [p |-> "deep", t |-> ent.t, v |-> ent.v, tw |-> WrapT(ent.w, [k |-> "hole"]), vw |-> WrapV(ent.w, [hole |-> 0])]
             ELSE more @@ [p |-> "rep", t |-> TypeOf(ent, n), form |-> ent.form, v |-> IF ent.form = "s" THEN <<ent.v>> ELSE ent.v]))
=============================================================================
