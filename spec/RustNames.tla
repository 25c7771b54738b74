------------------------------ MODULE RustNames ------------------------------
(* How names of the interface language appear in generated Rust.              *)
EXTENDS IdlSyntax

LowerCase == "abcdefghijklmnopqrstuvwxyz"
UpperCase == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lowers == { Ch(LowerCase, i) : i \in 1..26 }
Uppers == { Ch(UpperCase, i) : i \in 1..26 }
UpMap == [c \in Lowers |-> Ch(UpperCase, CHOOSE i \in 1..26 : Ch(LowerCase, i) = c)]
LowMap == [c \in Uppers |-> Ch(LowerCase, CHOOSE i \in 1..26 : Ch(UpperCase, i) = c)]
Up(c) == IF c \in Lowers THEN UpMap[c] ELSE c
Low(c) == IF c \in Uppers THEN LowMap[c] ELSE c

\* types, enumerators, arms: words are joined; a name of one word keeps its letters' case
CamelChars(cs) ==
  IF \A i \in DOMAIN cs : cs[i] # "_"
  THEN [i \in DOMAIN cs |-> IF i = 1 THEN Up(cs[i]) ELSE cs[i]]
  ELSE [i \in DOMAIN cs |-> IF cs[i] = "_" THEN "" ELSE IF i = 1 \/ cs[i - 1] = "_" THEN Up(cs[i]) ELSE Low(cs[i])]
Camel(s) == Join(CamelChars(Chars(s)))
\* members: small letters; a word begins at a capital that follows a small letter or a digit
SnakeChars(cs) ==
  [i \in DOMAIN cs |-> IF i > 1 /\ cs[i] \in Uppers /\ cs[i - 1] \in Lowers \cup Digits THEN "_" \o Low(cs[i]) ELSE Low(cs[i])]
Snake(s) == Join(SnakeChars(Chars(s)))

RustKeywords ==
  { "as", "async", "await", "break", "const", "continue", "dyn", "else", "enum", "extern", "false", "fn", "for", "if", "impl",
    "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "static", "struct", "trait", "true", "type",
    "union", "unsafe", "use", "where", "while", "abstract", "become", "box", "do", "final", "gen", "macro", "override", "priv",
    "try", "typeof", "unsized", "virtual", "yield" }
NeverRaw == { "Self", "self", "super", "crate" }

\* the identifier without the mark of a raw identifier (what Debug prints)
Bared(s) == IF s \in {"", "_"} THEN "__"
            ELSE IF s \in NeverRaw THEN s \o "_"
            ELSE IF Ch(s, 1) \in Digits THEN "_" \o s ELSE s
Ident(s) == IF s \in RustKeywords THEN "r#" \o s ELSE Bared(s)

TypeIdent(s) == Ident(Camel(s))
MemberIdent(s) == Ident(Snake(s))
ConstIdent(s) == Ident(s)
TypeShown(s) == Bared(Camel(s))
MemberShown(s) == Bared(Snake(s))

\* what any naming rule must keep: the letters and digits, in order, whatever their case
Kept(s) == LET cs == Chars(s) IN Join([i \in DOMAIN cs |-> IF cs[i] = "_" THEN "" ELSE Low(cs[i])])
=============================================================================
