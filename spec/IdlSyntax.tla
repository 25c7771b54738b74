------------------------------ MODULE IdlSyntax ------------------------------
(* The interface language: characters -> words -> definitions.                *)
(*                                                                            *)
(* Lex splits text into words (dropping white space and comments), Parse      *)
(* recognises a sequence of words as a sequence of definitions, and Words     *)
(* writes definitions as words, each with what the text may have before it:   *)
(*   "c"  white space and comments, possibly none                             *)
(*   "s"  white space, possibly none      "S"  white space, at least one      *)
(*   "n"  nothing                                                             *)
(* Definitions are records; their shapes are those built by Words' cases.     *)
EXTENDS Integers, Sequences, TLC

\* joined sequences, by halves
RECURSIVE FlatOf(_, _, _)
FlatOf(ss, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN ss[i] ELSE LET m == (i + j) \div 2 IN FlatOf(ss, i, m) \o FlatOf(ss, m + 1, j)
Flat(ss) == LET s == TLCEval(ss) IN FlatOf(s, 1, Len(s))
Ch(s, i) == SubSeq(s, i, i)
Chars(s) == [i \in 1..Len(s) |-> Ch(s, i)]

\* ---- characters and words ----------------------------------------------------
Letters == { Ch("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", i) : i \in 1..52 }
Digits == { Ch("0123456789", i) : i \in 1..10 }
OctDigits == { Ch("01234567", i) : i \in 1..8 }
HexDigits == Digits \cup { Ch("abcdefABCDEF", i) : i \in 1..12 }
WordChars == Letters \cup Digits \cup {"_"}
Blank == {" ", "\t", "\n", "\r"}
Marks == {";", ",", ":", "{", "}", "[", "]", "<", ">", "(", ")", "=", "*"}

\* RFC 4506 6.4, RFC 5531 (program, version)
Reserved == { "bool", "case", "const", "default", "double", "quadruple", "enum", "float", "hyper", "int", "opaque",
              "string", "struct", "switch", "typedef", "union", "unsigned", "void", "program", "version" }
\* widely used type names that are not reserved by the standard
Extra == {"char", "short"}

All(s, from, set) == \A i \in from..Len(s) : Ch(s, i) \in set
IsWord(s) == s # "" /\ Ch(s, 1) \in WordChars
IsName(s) == /\ s # "" /\ Ch(s, 1) \in Letters \cup {"_"} /\ All(s, 2, WordChars)
             /\ s \notin Reserved /\ s \notin Extra
IsLine(s) == s # "" /\ Ch(s, 1) = "%"

\* numbers keep their text and base
Lit(c, t) == [c |-> c, t |-> t]
NoLit == [c |-> "", t |-> ""]
Literal(s) ==
  IF s = "0" THEN Lit("dec", "0")
  ELSE IF s = "" THEN NoLit
  ELSE IF Ch(s, 1) = "-"
       THEN IF Len(s) > 1 /\ Ch(s, 2) \in Digits \ {"0"} /\ All(s, 2, Digits) THEN Lit("dec", s) ELSE NoLit
  ELSE IF Ch(s, 1) \in Digits \ {"0"}
       THEN IF All(s, 2, Digits) THEN Lit("dec", s) ELSE NoLit
  ELSE IF Ch(s, 1) = "0" /\ Ch(s, 2) = "x"
       THEN IF Len(s) > 2 /\ All(s, 3, HexDigits) THEN Lit("hex", SubSeq(s, 3, Len(s))) ELSE NoLit
  ELSE IF Ch(s, 1) = "0" /\ All(s, 2, OctDigits) THEN Lit("oct", SubSeq(s, 2, Len(s)))
  ELSE NoLit

RECURSIVE JoinOf(_, _, _)
JoinOf(cs, i, j) == IF i > j THEN "" ELSE IF i = j THEN cs[i] ELSE LET m == (i + j) \div 2 IN JoinOf(cs, i, m) \o JoinOf(cs, m + 1, j)
Join(cs) == LET s == TLCEval(cs) IN JoinOf(s, 1, Len(s))

\* long runs are looked through in stretches
StretchEnd(cs, i) == IF i + 40 < Len(cs) THEN i + 40 ELSE Len(cs)
Least(found) == CHOOSE j \in found : \A k \in found : j <= k
\* the end of the run of characters of a set that starts at i
RECURSIVE RunEnd(_, _, _)
RunEnd(cs, i, set) ==
  IF i > Len(cs) \/ cs[i] \notin set THEN i
  ELSE LET out == { j \in i..StretchEnd(cs, i) : cs[j] \notin set }
       IN IF out = {} THEN RunEnd(cs, StretchEnd(cs, i) + 1, set) ELSE Least(out)
RECURSIVE LineEnd(_, _)
LineEnd(cs, i) ==
  IF i > Len(cs) THEN i
  ELSE LET out == { j \in i..StretchEnd(cs, i) : cs[j] = "\n" }
       IN IF out = {} THEN LineEnd(cs, StretchEnd(cs, i) + 1) ELSE Least(out)
\* the end of the comment whose text starts at i; 0 if it has none
RECURSIVE CommentEnd(_, _)
CommentEnd(cs, i) ==
  IF i + 1 > Len(cs) THEN 0
  ELSE LET out == { j \in i..StretchEnd(cs, i) : cs[j] = "*" /\ j < Len(cs) /\ cs[j + 1] = "/" }
       IN IF out = {} THEN CommentEnd(cs, StretchEnd(cs, i) + 1) ELSE Least(out) + 2

\* up to n words (or blanks, comments) from i on; long texts are read in pieces, to keep the recursion flat
RECURSIVE LexSome(_, _, _, _)
LexSome(cs, i, acc, n) ==
  IF i > Len(cs) \/ n = 0 THEN [i |-> i, a |-> acc]
  ELSE LET c == cs[i]
           Stop(w) == [i |-> Len(cs) + 1, a |-> Append(acc, w)]
       IN IF c \in Blank THEN LexSome(cs, i + 1, acc, n - 1)
          ELSE IF c = "/" /\ i < Len(cs) /\ cs[i + 1] = "*"
               THEN LET j == CommentEnd(cs, i + 2)
                    IN IF j = 0 THEN Stop("/") ELSE LexSome(cs, j, acc, n - 1)
          ELSE IF c = "%"
               THEN LET j == LineEnd(cs, i)
                    IN IF j > Len(cs) THEN Stop("%?")                 \* a line that does not end
                       ELSE LexSome(cs, j + 1, Append(acc, "%"), n - 1)
          ELSE IF c \in WordChars
               THEN LET j == RunEnd(cs, i, WordChars)
                    IN LexSome(cs, j, Append(acc, Join(SubSeq(cs, i, j - 1))), n - 1)
          ELSE IF c = "-"
               THEN LET j == RunEnd(cs, i + 1, WordChars)
                    IN LexSome(cs, j, Append(acc, Join(SubSeq(cs, i, j - 1))), n - 1)
          ELSE LexSome(cs, i + 1, Append(acc, c), n - 1)              \* a mark, or a stray character
RECURSIVE LexAll(_, _)
LexAll(cs, x) == IF x.i > Len(cs) THEN x.a ELSE LexAll(cs, TLCEval(LexSome(cs, x.i, x.a, 30)))
Lex(text) == LET cs == TLCEval(text) IN LexAll(cs, [i |-> 1, a |-> <<>>])

\* ---- recognising ---------------------------------------------------------------
\* every P... takes the words and the position of the next one
Yes(v, i) == [ok |-> TRUE, v |-> v, i |-> i]
No == [ok |-> FALSE, v |-> 0, i |-> 0]
At(ts, i) == IF i <= Len(ts) THEN ts[i] ELSE ""
Name(n) == [id |-> n]

PValue(ts, i) ==
  LET w == At(ts, i)
  IN IF Literal(w) # NoLit THEN Yes(Literal(w), i + 1)
     ELSE IF IsName(w) THEN Yes(Name(w), i + 1) ELSE No

PAssign(ts, i) ==
  IF IsName(At(ts, i)) /\ At(ts, i + 1) = "="
  THEN LET v == PValue(ts, i + 2)
       IN IF v.ok THEN Yes([n |-> ts[i], v |-> v.v], v.i) ELSE No
  ELSE No

RECURSIVE PAssigns(_, _, _)
PAssigns(ts, i, acc) ==               \* a = v, b = w }
  LET a == PAssign(ts, i)
  IN IF ~a.ok THEN No
     ELSE IF At(ts, a.i) = "," THEN PAssigns(ts, a.i + 1, Append(acc, a.v))
     ELSE IF At(ts, a.i) = "}" THEN Yes(Append(acc, a.v), a.i + 1)
     ELSE No
PEnumBody(ts, i) == IF At(ts, i) = "{" THEN PAssigns(ts, i + 1, <<>>) ELSE No

Ty(k) == [k |-> k]
Signed(k, s) == [k |-> k, s |-> s]
RECURSIVE PType(_, _), PDecl(_, _), PStruct(_, _, _), PUnion(_, _), PCases(_, _, _), PLabels(_, _, _)
PType(ts, i) ==
  LET w == At(ts, i)
  IN CASE w = "unsigned" ->
            (IF At(ts, i + 1) \in {"int", "hyper", "char", "short"} THEN Yes(Signed(ts[i + 1], FALSE), i + 2)
             ELSE Yes(Signed("int", FALSE), i + 1))
       [] w \in {"int", "hyper", "char", "short"} -> Yes(Signed(w, TRUE), i + 1)
       [] w \in {"float", "double", "quadruple", "bool"} -> Yes(Ty(w), i + 1)
       [] w = "enum" -> LET b == PEnumBody(ts, i + 1)
                        IN IF b.ok THEN Yes([k |-> "enum", b |-> b.v], b.i) ELSE No
       [] w = "struct" -> LET b == (IF At(ts, i + 1) = "{" THEN PStruct(ts, i + 2, <<>>) ELSE No)
                          IN IF b.ok THEN Yes([k |-> "struct", b |-> b.v], b.i) ELSE No
       [] w = "union" -> LET b == PUnion(ts, i + 1)
                         IN IF b.ok THEN Yes([k |-> "union", u |-> b.v], b.i) ELSE No
       [] IsName(w) -> Yes([k |-> "id", n |-> w], i + 1)
       [] OTHER -> No

\* after a name: [v]   <v>   <>   or nothing
Shape(ts, i) ==
  IF At(ts, i) = "["
  THEN LET v == PValue(ts, i + 1)
       IN IF v.ok /\ At(ts, v.i) = "]" THEN Yes([s |-> "fixed", v |-> <<v.v>>], v.i + 1) ELSE No
  ELSE IF At(ts, i) = "<"
  THEN IF At(ts, i + 1) = ">" THEN Yes([s |-> "var", v |-> <<>>], i + 2)
       ELSE LET v == PValue(ts, i + 1)
            IN IF v.ok /\ At(ts, v.i) = ">" THEN Yes([s |-> "var", v |-> <<v.v>>], v.i + 1) ELSE No
  ELSE Yes([s |-> "plain", v |-> <<>>], i)

PDecl(ts, i) ==
  LET w == At(ts, i)
  IN CASE w = "void" -> Yes([d |-> "void"], i + 1)
       [] w \in {"opaque", "string"} ->
            IF ~IsName(At(ts, i + 1)) THEN No
            ELSE LET s == Shape(ts, i + 2)
                 IN IF ~s.ok THEN No
                    ELSE IF s.v.s = "fixed" /\ w = "opaque"
                         THEN Yes([d |-> "ofix", n |-> ts[i + 1], v |-> s.v.v], s.i)
                    ELSE IF s.v.s = "var"
                         THEN Yes([d |-> IF w = "opaque" THEN "ovar" ELSE "str", n |-> ts[i + 1], v |-> s.v.v], s.i)
                    ELSE No
       [] OTHER ->
            LET t == PType(ts, i)
            IN IF ~t.ok THEN No
               ELSE IF At(ts, t.i) = "*"
                    THEN IF IsName(At(ts, t.i + 1))
                         THEN Yes([d |-> "opt", ty |-> t.v, n |-> ts[t.i + 1], v |-> <<>>], t.i + 2) ELSE No
               ELSE IF ~IsName(At(ts, t.i)) THEN No
               ELSE LET s == Shape(ts, t.i + 1)
                    IN IF ~s.ok THEN No
                       ELSE Yes([d |-> CASE s.v.s = "fixed" -> "fixed" [] s.v.s = "var" -> "varr" [] OTHER -> "var",
                                 ty |-> t.v, n |-> ts[t.i], v |-> s.v.v], s.i)

PStruct(ts, i, acc) ==                \* d; d; }
  LET d == PDecl(ts, i)
  IN IF ~d.ok \/ At(ts, d.i) # ";" THEN No
     ELSE IF At(ts, d.i + 1) = "}" THEN Yes(Append(acc, d.v), d.i + 2)
     ELSE PStruct(ts, d.i + 1, Append(acc, d.v))

PLabels(ts, i, acc) ==                \* case v: case w:
  IF At(ts, i) # "case" THEN (IF acc = <<>> THEN No ELSE Yes(acc, i))
  ELSE LET v == PValue(ts, i + 1)
       IN IF v.ok /\ At(ts, v.i) = ":" THEN PLabels(ts, v.i + 1, Append(acc, v.v)) ELSE No
PCases(ts, i, acc) ==
  LET ls == PLabels(ts, i, <<>>)
      d == PDecl(ts, ls.i)
  IN IF ~ls.ok THEN No
     ELSE IF ~d.ok \/ At(ts, d.i) # ";" THEN No
     ELSE LET more == Append(acc, [vs |-> ls.v, d |-> d.v])
          IN IF At(ts, d.i + 1) = "case" THEN PCases(ts, d.i + 1, more) ELSE Yes(more, d.i + 1)
PUnion(ts, i) ==                      \* switch (d) { cases default }
  IF At(ts, i) # "switch" \/ At(ts, i + 1) # "(" THEN No
  ELSE LET c == PDecl(ts, i + 2)
       IN IF ~c.ok \/ At(ts, c.i) # ")" \/ At(ts, c.i + 1) # "{" THEN No
          ELSE LET cs == PCases(ts, c.i + 2, <<>>)
               IN IF ~cs.ok THEN No
                  ELSE IF At(ts, cs.i) = "}" THEN Yes([cond |-> c.v, cases |-> cs.v, def |-> <<>>], cs.i + 1)
                  ELSE IF At(ts, cs.i) = "default" /\ At(ts, cs.i + 1) = ":"
                       THEN LET d == PDecl(ts, cs.i + 2)
                            IN IF d.ok /\ At(ts, d.i) = ";" /\ At(ts, d.i + 1) = "}"
                               THEN Yes([cond |-> c.v, cases |-> cs.v, def |-> <<d.v>>], d.i + 2) ELSE No
                  ELSE No

\* programs (RFC 5531)
PArg(ts, i) == IF At(ts, i) = "void" THEN Yes(Ty("void"), i + 1) ELSE PType(ts, i)
PNumber(ts, i) ==                     \* = v ;
  IF At(ts, i) # "=" THEN No
  ELSE LET v == PValue(ts, i + 1) IN IF v.ok /\ At(ts, v.i) = ";" THEN Yes(v.v, v.i + 1) ELSE No
RECURSIVE PProcs(_, _, _), PVersions(_, _, _)
PProcs(ts, i, acc) ==
  LET r == PArg(ts, i)
  IN IF ~r.ok THEN No
     ELSE IF ~IsName(At(ts, r.i)) \/ At(ts, r.i + 1) # "(" THEN No
     ELSE LET a == PArg(ts, r.i + 2)
          IN IF ~a.ok \/ At(ts, a.i) # ")" THEN No
             ELSE LET v == PNumber(ts, a.i + 1)
                      more == Append(acc, [res |-> r.v, n |-> ts[r.i], req |-> a.v, v |-> v.v])
                  IN IF ~v.ok THEN No
                     ELSE IF At(ts, v.i) = "}" THEN Yes(more, v.i + 1) ELSE PProcs(ts, v.i, more)
PVersions(ts, i, acc) ==
  IF At(ts, i) # "version" \/ ~IsName(At(ts, i + 1)) \/ At(ts, i + 2) # "{" THEN No
  ELSE LET p == PProcs(ts, i + 3, <<>>)
           v == PNumber(ts, p.i)
           more == Append(acc, [n |-> ts[i + 1], procs |-> p.v, v |-> v.v])
       IN IF ~p.ok THEN No
          ELSE IF ~v.ok THEN No
          ELSE IF At(ts, v.i) = "}" THEN Yes(more, v.i + 1) ELSE PVersions(ts, v.i, more)
PProgram(ts, i) ==
  IF ~IsName(At(ts, i + 1)) \/ At(ts, i + 2) # "{" THEN No
  ELSE LET s == PVersions(ts, i + 3, <<>>)
           v == PNumber(ts, s.i)
       IN IF ~s.ok THEN No
          ELSE IF v.ok THEN Yes([p |-> "prog", n |-> ts[i + 1], vers |-> s.v, v |-> v.v], v.i) ELSE No

PDef(ts, i) ==
  LET w == At(ts, i)
      End(r, v) == IF r.ok /\ At(ts, r.i) = ";" THEN Yes(v, r.i + 1) ELSE No
  IN CASE IsLine(w) -> IF w = "%?" THEN No ELSE Yes([p |-> "line"], i + 1)
       [] w = "const" -> LET a == PAssign(ts, i + 1) IN End(a, [p |-> "const", a |-> a.v])
       [] w = "typedef" -> LET d == PDecl(ts, i + 1) IN End(d, [p |-> "typedef", d |-> d.v])
       [] w = "enum" -> LET b == (IF IsName(At(ts, i + 1)) THEN PEnumBody(ts, i + 2) ELSE No)
                        IN End(b, [p |-> "enum", n |-> At(ts, i + 1), b |-> b.v])
       [] w = "struct" -> LET b == (IF IsName(At(ts, i + 1)) /\ At(ts, i + 2) = "{" THEN PStruct(ts, i + 3, <<>>) ELSE No)
                          IN End(b, [p |-> "struct", n |-> At(ts, i + 1), b |-> b.v])
       [] w = "union" -> LET b == (IF IsName(At(ts, i + 1)) THEN PUnion(ts, i + 2) ELSE No)
                         IN End(b, [p |-> "union", n |-> At(ts, i + 1), u |-> b.v])
       [] w = "program" -> PProgram(ts, i)
       [] OTHER -> No

RECURSIVE ParseFrom(_, _, _)
ParseFrom(ts, i, acc) ==
  IF i > Len(ts) THEN [ok |-> TRUE, v |-> acc]
  ELSE LET d == PDef(ts, i)
       IN IF d.ok THEN ParseFrom(ts, d.i, Append(acc, d.v)) ELSE [ok |-> FALSE, v |-> <<>>]
Parse(ts) == ParseFrom(ts, 1, <<>>)

\* ---- writing ---------------------------------------------------------------------
W(g, w) == <<[g |-> g, w |-> w]>>
ValueText(v) == IF "id" \in DOMAIN v THEN v.id
                ELSE CASE v.c = "dec" -> v.t [] v.c = "hex" -> "0x" \o v.t [] v.c = "oct" -> "0" \o v.t
WAssign(g, a) == W(g, a.n) \o W("c", "=") \o W("c", ValueText(a.v))
WEnumBody(g, b) == W(g, "{") \o Flat([i \in DOMAIN b |-> WAssign("c", b[i]) \o (IF i < Len(b) THEN W("c", ",") ELSE <<>>)])
                   \o W("c", "}")
RECURSIVE WType(_, _), WDecl(_, _), WStruct(_, _), WUnion(_, _)
WType(g, t) ==
  CASE t.k \in {"int", "hyper", "char", "short"} -> IF t.s THEN W(g, t.k) ELSE W(g, "unsigned") \o W("S", t.k)
    [] t.k \in {"float", "double", "quadruple", "bool", "void"} -> W(g, t.k)
    [] t.k = "uint" -> W(g, "unsigned")
    [] t.k = "id" -> W(g, t.n)
    [] t.k = "enum" -> W(g, "enum") \o WEnumBody("S", t.b)
    [] t.k = "struct" -> W(g, "struct") \o WStruct("S", t.b)
    [] t.k = "union" -> W(g, "union") \o WUnion("S", t.u)
WSize(d) == IF d.v = <<>> THEN <<>> ELSE W("n", ValueText(d.v[1]))
WDecl(g, d) ==
  CASE d.d = "void" -> W(g, "void")
    [] d.d = "ofix" -> W(g, "opaque") \o W("S", d.n) \o W("n", "[") \o WSize(d) \o W("n", "]")
    [] d.d = "ovar" -> W(g, "opaque") \o W("S", d.n) \o W("n", "<") \o WSize(d) \o W("n", ">")
    [] d.d = "str" -> W(g, "string") \o W("S", d.n) \o W("n", "<") \o WSize(d) \o W("n", ">")
    [] d.d = "var" -> WType(g, d.ty) \o W("S", d.n)
    [] d.d = "opt" -> WType(g, d.ty) \o W("s", "*") \o W("s", d.n)
    [] d.d = "fixed" -> WType(g, d.ty) \o W("S", d.n) \o W("n", "[") \o WSize(d) \o W("n", "]")
    [] d.d = "varr" -> WType(g, d.ty) \o W("S", d.n) \o W("n", "<") \o WSize(d) \o W("n", ">")
WStruct(g, b) == W(g, "{") \o Flat([i \in DOMAIN b |-> WDecl("c", b[i]) \o W("c", ";")]) \o W("c", "}")
WCase(c) == Flat([i \in DOMAIN c.vs |-> W("c", "case") \o W("c", ValueText(c.vs[i])) \o W("c", ":")])
            \o WDecl("c", c.d) \o W("c", ";")
WUnion(g, b) == W(g, "switch") \o W("c", "(") \o WDecl("c", b.cond) \o W("c", ")") \o W("c", "{")
                \o Flat([i \in DOMAIN b.cases |-> WCase(b.cases[i])])
                \o (IF b.def = <<>> THEN <<>> ELSE W("c", "default") \o W("c", ":") \o WDecl("c", b.def[1]) \o W("c", ";"))
                \o W("c", "}")
WNumber(v) == W("s", "=") \o W("s", ValueText(v)) \o W("s", ";")
WProc(p) == WType("s", p.res) \o W("S", p.n) \o W("s", "(") \o WType("s", p.req) \o W("s", ")") \o WNumber(p.v)
WVersion(x) == W("s", "version") \o W("S", x.n) \o W("s", "{") \o Flat([i \in DOMAIN x.procs |-> WProc(x.procs[i])])
               \o W("s", "}") \o WNumber(x.v)
WDef(x) ==
  CASE x.p = "line" -> W("c", "%")
    [] x.p = "const" -> W("c", "const") \o WAssign("S", x.a) \o W("c", ";")
    [] x.p = "typedef" -> W("c", "typedef") \o WDecl("S", x.d) \o W("c", ";")
    [] x.p = "enum" -> W("c", "enum") \o W("S", x.n) \o WEnumBody("c", x.b) \o W("c", ";")
    [] x.p = "struct" -> W("c", "struct") \o W("S", x.n) \o WStruct("c", x.b) \o W("c", ";")
    [] x.p = "union" -> W("c", "union") \o W("S", x.n) \o WUnion("c", x.u) \o W("c", ";")
    [] x.p = "prog" -> W("c", "program") \o W("S", x.n) \o W("s", "{") \o Flat([i \in DOMAIN x.vers |-> WVersion(x.vers[i])])
                       \o W("s", "}") \o WNumber(x.v)
Words(defs) == Flat([i \in DOMAIN defs |-> WDef(defs[i])])
Bare(ws) == [i \in DOMAIN ws |-> ws[i].w]

\* "unsigned" alone and "unsigned int" are one type
RECURSIVE PlainType(_), PlainDecl(_)
PlainBody(b) == [cond |-> PlainDecl(b.cond), cases |-> [i \in DOMAIN b.cases |-> [vs |-> b.cases[i].vs, d |-> PlainDecl(b.cases[i].d)]],
                 def |-> [i \in DOMAIN b.def |-> PlainDecl(b.def[i])]]
PlainType(t) == CASE t.k = "uint" -> Signed("int", FALSE)
                  [] t.k = "struct" -> [k |-> "struct", b |-> [i \in DOMAIN t.b |-> PlainDecl(t.b[i])]]
                  [] t.k = "union" -> [k |-> "union", u |-> PlainBody(t.u)]
                  [] OTHER -> t
PlainDecl(d) == IF "ty" \in DOMAIN d THEN [d EXCEPT !.ty = PlainType(d.ty)] ELSE d
PlainProc(p) == [p EXCEPT !.res = PlainType(p.res), !.req = PlainType(p.req)]
PlainDef(x) ==
  CASE x.p = "typedef" -> [x EXCEPT !.d = PlainDecl(x.d)]
    [] x.p = "struct" -> [x EXCEPT !.b = [i \in DOMAIN x.b |-> PlainDecl(x.b[i])]]
    [] x.p = "union" -> [x EXCEPT !.u = PlainBody(x.u)]
    [] x.p = "prog" -> [x EXCEPT !.vers = [i \in DOMAIN x.vers |->
                          [x.vers[i] EXCEPT !.procs = [j \in DOMAIN x.vers[i].procs |-> PlainProc(x.vers[i].procs[j])]]]]
    [] OTHER -> x
Plain(defs) == [i \in DOMAIN defs |-> PlainDef(defs[i])]

\* ---- text ------------------------------------------------------------------------
\* A sequence of words as pieces of text with a blank wherever one may stand; used
\* for words that no longer form a specification, too.
LineText == "%#include <x.h> /* ; */\n"
Piece(w) == IF w = "%" THEN LineText ELSE w
Sep(a, b) == IF a \in {"[", "<"} \/ b \in {"[", "]", "<", ">"} THEN "" ELSE " "
Render(ts) == Flat([i \in DOMAIN ts |-> (IF i = 1 THEN <<>> ELSE <<Sep(ts[i - 1], ts[i])>>) \o <<Piece(ts[i])>>])
TextChars(pieces) == Flat([i \in DOMAIN pieces |-> Chars(pieces[i])])
=============================================================================
