------------------------------- MODULE MCNames -------------------------------
(* A name at a place of a specification, under a mode: the names that must      *)
(* appear in the generated code.  The naming rules themselves are checked to    *)
(* keep the letters and digits of a name and to give Rust identifiers.          *)
EXTENDS GenUniverse, Chance, Json

CONSTANTS Longest,      \* length of the names over a small alphabet
          Seed, Count   \* which and how many pseudo-random long names
VARIABLES name, place
vars == <<name, place>>

Alphabet == << "a", "B", "1", "_" >>
RECURSIVE Over(_)
Over(n) == IF n = 0 THEN {""} ELSE LET less == Over(n - 1) IN less \cup { w \o Alphabet[i] : w \in less, i \in 1..4 }
FirstUp(w) == LET cs == Chars(w) IN Join([i \in DOMAIN cs |-> IF i = 1 THEN Up(cs[i]) ELSE cs[i]])
AllUp(w) == LET cs == Chars(w) IN Join([i \in DOMAIN cs |-> Up(cs[i])])
Split(w) == SubSeq(w, 1, 1) \o "_" \o SubSeq(w, 2, Len(w))
Keywords == RustKeywords \cup NeverRaw
FromKeywords == UNION { { w, FirstUp(w), AllUp(w), "_" \o w, w \o "_", "__" \o w \o "__", w \o "1", "x" \o w, Split(w), Split(FirstUp(w)), w \o "_" \o w, "1" \o w, "_1" \o w } : w \in Keywords }
Others == { "i32", "u8", "str", "String", "Vec", "Option", "Some", "None", "Ok", "Err", "Default", "Box", "Clone", "Debug", "Result", "Serialize", "Deserialize",
            "serde", "std", "core", "_Reserved0", "_0", "_5", "__S", "__D", "OPAQUE_AUTH", "nfs_fh3", "NFS3ERR_NOTSUPP", "mount3res_ok", "rpcvers_t", "sattrguard3",
            "THE_quick_Brown_FOX_1_2_3", "camelCaseName", "PascalCaseName", "HTTPServer2Go", "x86_64", "X86_64ABI", "a1B2C3", "ABCdef", "aBCdEF", "main", "fn_", "dyn2", "r_type",
            "abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "aAbBcCdDeEfFgGhHiIjJkKlLmMnNoOpPqQrRsStTuUvVwWxXyYzZ", "_0123456789", "l0", "O0o",
            "a____b", "____a", "a____", "A_", "_A", "_a_B_c_D_", "__A__b__" }
\* long names: many words, many changes of case
RECURSIVE Row(_, _, _)
Row(w, gap, n) == IF n = 1 THEN w ELSE Row(w, gap, n - 1) \o gap \o w
Rows == { Row(w, gap, n) : w \in {"a", "B", "ab", "Ab", "aB", "AB", "a1", "B2", "7"}, gap \in {"_", "__"}, n \in {2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 33} }
        \cup { Row(w, "", n) : w \in {"a", "A", "aB", "Ba", "A1", "a1B", "aBC", "word", "Word"}, n \in {4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257} }
        \cup { "a" \o Row("_", "", n) \o "b" : n \in {5, 8, 16, 33} } \cup { Row("_", "", n) \o "x" : n \in {5, 9, 17} } \cup { "x" \o Row("_", "", n) : n \in {5, 9, 17} }
SomeWords == << "a", "B", "x1", "get", "Type", "UID", "fh3", "self", "fn", "9", "in", "R", "qQ", "Zz", "type", "TRUE", "ok", "n0N", "Self", "aBcD" >>
Gaps == << "_", "_", "_", "", "", "__", "___" >>
RECURSIVE Chanced(_, _)
Chanced(k, j) == IF j = 0 THEN "" ELSE Chanced(k, j - 1) \o OneOf(k, 3 * j, Gaps) \o OneOf(k, 3 * j + 1, SomeWords)
ChancedNames == { Chanced(Seed * Count + k, 1 + Draw(Seed * Count + k, 1, IF k % 4 = 0 THEN 24 ELSE 7)) : k \in 1..Count }
Names0 == { w \in Over(Longest) \cup FromKeywords \cup Others \cup Rows \cup ChancedNames : IsName(w) /\ w \notin {"xx", "yy", "zz"} }

Places0 == { "const", "enum", "enumerator", "struct", "member", "union", "arm", "alias", "usedstruct", "usedenum", "opt", "arms", "sized" }
None == U!Void
DefsAt(n, p) ==
  CASE p = "const" -> <<Const(n, D("1"))>>
    [] p = "enum" -> <<Enum(n, <<U!Asg("xx", D("1"))>>)>>
    [] p = "enumerator" -> <<Enum("xx", <<U!Asg("yy", D("1")), U!Asg(n, D("0"))>>)>>
    [] p = "struct" -> <<Struct(n, <<U!DVar(SInt, "xx")>>)>>
    [] p = "member" -> <<Struct("xx", <<U!DVar(SInt, n)>>), Struct("yy", <<U!DOvar("xx", <<>>), U!DOfix(n, D("3"))>>), Struct("zz", <<U!DOpt(Id("xx"), n), U!DVarr(Id("xx"), "xx", <<>>)>>)>>
    [] p = "union" -> <<Union(n, U!DVar(SInt, "xx"), <<U!Case(<<D("0")>>, None), U!Case(<<D("1")>>, U!DVar(SInt, "yy"))>>, <<>>)>>
    [] p = "arm" -> <<Enum("xx", <<U!Asg(n, D("0")), U!Asg("zz", D("1"))>>), Union("yy", U!DVar(Id("xx"), "d"), <<U!Case(<<Name(n)>>, U!DVar(SInt, "m")), U!Case(<<Name("zz")>>, None)>>, <<>>)>>
    [] p = "arms" -> <<Const(n, D("0")), Union("yy", U!DVar(SInt, "d"), <<U!Case(<<Name(n), D("7")>>, None)>>, <<U!DVar(Ty("bool"), n)>>)>>
    [] p = "alias" -> <<Typedef(U!DVar(SInt, n)), Struct("xx", <<U!DVar(Id(n), "yy")>>)>>
    [] p = "usedstruct" -> <<Struct(n, <<U!DVar(SInt, "xx")>>), Struct("yy", <<U!DVar(Id(n), "xx"), U!DFixed(Id(n), "zz", D("2"))>>)>>
    [] p = "usedenum" -> <<Enum(n, <<U!Asg("xx", D("0"))>>), Union("yy", U!DVar(Id(n), "d"), <<U!Case(<<Name("xx")>>, U!DVar(Id(n), "m"))>>, <<>>)>>
    [] p = "opt" -> <<Struct(n, <<U!DOpt(Id(n), n)>>)>>
    [] p = "sized" -> <<Const(n, D("5")), Struct("xx", <<U!DFixed(SInt, "yy", Name(n))>>)>>
Clash(n, p) ==                        \* two definitions of one name, or of one Rust name
  \/ p \in {"enumerator", "member", "usedenum", "usedstruct", "arms", "arm"} /\ (Camel(n) \in {"Xx", "Yy", "Zz", "Default", "_7"} \/ Snake(n) \in {"xx", "yy", "zz"})
Init == name \in Names0 /\ place = ""
Choose == place = "" /\ place' \in { p \in Places0 : ~Clash(name, p) } /\ name' = name
Spec == Init /\ [][Choose]_vars

\* ---- the rules -------------------------------------------------------------------
StartChars == Letters \cup {"_"}
Legal(s) == IF Len(s) > 2 /\ SubSeq(s, 1, 2) = "r#"
            THEN LET b == SubSeq(s, 3, Len(s)) IN b \in RustKeywords /\ b \notin NeverRaw
            ELSE /\ s # "" /\ s # "_" /\ Ch(s, 1) \in StartChars /\ All(s, 2, WordChars) /\ s \notin Keywords
Kin(a, b) == Kept(a) = Kept(b)
Unmarked(s) == IF Len(s) > 2 /\ SubSeq(s, 1, 2) = "r#" THEN SubSeq(s, 3, Len(s)) ELSE s
LegalNames == place = "" => Legal(TypeIdent(name)) /\ Legal(MemberIdent(name)) /\ Legal(ConstIdent(name))
KeepsLetters == place = "" => /\ Kin(Unmarked(TypeIdent(name)), name) /\ Kin(Unmarked(MemberIdent(name)), name) /\ Kin(Unmarked(ConstIdent(name)), name)
\* constants keep everything; applying a rule again changes nothing but the case of later words
Unchanged == place = "" /\ name \notin Keywords => ConstIdent(name) = (IF name = "_" THEN "__" ELSE name)
SnakeSmall == place = "" => LET s == TLCEval(Snake(name)) IN \A i \in 1..Len(s) : Ch(s, i) \notin Uppers
CamelJoined == place = "" => LET s == TLCEval(Camel(name)) IN \A i \in 1..Len(s) : Ch(s, i) # "_"
SnakeTwice == place = "" => Snake(Snake(name)) = Snake(name)
CamelTwice == place = "" => Camel(Camel(name)) = Camel(name)

\* ---- what must appear --------------------------------------------------------------
M(p) == IF p = "alias" THEN [e |-> "std", u |-> "un", keep |-> TRUE] ELSE [e |-> "std", u |-> "un", keep |-> FALSE]
Arms(b, m) == LET env == Env(DefsAt(name, place))
                  ls == Labels(env, b)
              IN [i \in DOMAIN ls |-> ls[i]]
ItemsOf(defs) ==
  LET env == Env(defs)
      ArmNames(b) == Flat([i \in DOMAIN b.cases |-> [j \in DOMAIN b.cases[i].vs |->
                       LET v == b.cases[i].vs[j] IN IF "id" \in DOMAIN v THEN TypeIdent(v.id) ELSE "_" \o DecText(Num(env, v).l)]])
                     \o (IF b.def = <<>> THEN <<>> ELSE <<"Default">>)
  IN Flat([i \in DOMAIN defs |-> LET x == defs[i]
       IN CASE x.p = "const" -> <<[k |-> "const", n |-> ConstIdent(x.a.n), in |-> {}]>>
            [] x.p = "enum" -> <<[k |-> "enum", n |-> TypeIdent(x.n), in |-> { TypeIdent(x.b[j].n) : j \in DOMAIN x.b }]>>
            [] x.p = "struct" -> <<[k |-> "struct", n |-> TypeIdent(x.n), in |-> { MemberIdent(x.b[j].n) : j \in DOMAIN x.b }]>>
            [] x.p = "union" -> <<[k |-> "enum", n |-> TypeIdent(x.n), in |-> LET a == ArmNames(x.u) IN { a[j] : j \in DOMAIN a }]>>
            [] x.p = "typedef" -> IF M(place).keep THEN <<[k |-> "type", n |-> TypeIdent(x.d.n), in |-> {}]>> ELSE <<>>])
Bits == CASE place = "alias" -> {1, 21, 11} [] place \in {"enum", "enumerator", "struct", "member", "union", "arm", "usedenum"} -> {0, 10, 20} [] OTHER -> {20, 10}
Generated == place # "" => \A k \in {"std", "ix"} : Verdict(DefsAt(name, place), [M(place) EXCEPT !.e = k]) = "ok"
Emit == place # "" => \A b \in Bits : PrintT(ToJson([x |-> Render(Bare(Words(DefsAt(name, place)))), c |-> b, it |-> ItemsOf(DefsAt(name, place))]))
=============================================================================
