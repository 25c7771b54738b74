-------------------------------- MODULE MCCli --------------------------------
(* The command line tool as a machine: it reads its arguments, the file, the   *)
(* definitions, generates code, and writes it out; every step can fail.  Every  *)
(* run is printed, with its outcome, to be repeated with the real program.      *)
EXTENDS GenUniverse, Json

VARIABLES argv, file, sink, st, bits, text, out, code
vars == <<argv, file, sink, st, bits, text, out, code>>

Flags == { "--use-std-trait", "--use-extra-trait", "--use-indexer", "--use-union" }
RECURSIVE Orders(_)                   \* every sequence of some of the flags
Orders(fs) == {<<>>} \cup UNION { { <<f>> \o s : s \in Orders(fs \ {f}) } : f \in fs }
Insert(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
GoodArgs == UNION { { Insert(s, i, "PATH") : i \in 0..Len(s) } : s \in Orders(Flags) }
              \cup { <<"--", "PATH">>, <<"--use-union", "--", "PATH">>, <<"--use-indexer", "--use-std-trait", "--", "PATH">> }
BadArgs == { <<>>, <<"PATH", "PATH">>, <<"PATH", "extra">>, <<"--use-union">>, <<"--use-std-trait", "--use-indexer">>, <<"--unknown", "PATH">>, <<"PATH", "--unknown">>,
             <<"-u", "PATH">>, <<"PATH", "-x">>, <<"--use-union=1", "PATH">>, <<"--use-un", "PATH">>, <<"--use_union", "PATH">>, <<"PATH", "--", "PATH">>,
             <<"--Use-Union", "PATH">>, <<"PATH", "--", "--use-union">>, <<"--use-union", "PATH", "--use-everything">>, <<"--use-std-trait", "--use-std-trait-x", "PATH">> }
Some(args, f) == \E i \in DOMAIN args : args[i] = f
\* the documented meaning of the options
ConfigOf(args) ==
  LET std == Some(args, "--use-std-trait")
      un == Some(args, "--use-union")
  IN [e |-> IF std THEN "std" ELSE IF Some(args, "--use-indexer") THEN "ix" ELSE "gap",
      u |-> IF un THEN "un" ELSE IF Some(args, "--use-indexer") \/ Some(args, "--use-extra-trait") THEN "ix" ELSE "gap", keep |-> FALSE]
BitsOf(m) == (IF m.e = "ix" THEN 2 ELSE IF m.e = "std" THEN 4 ELSE 0) + (IF m.u = "ix" THEN 8 ELSE IF m.u = "un" THEN 16 ELSE 0)
ModeOf(b) == [e |-> IF b % 4 >= 2 THEN "ix" ELSE IF b % 8 >= 4 THEN "std" ELSE "gap", u |-> IF b % 16 >= 8 THEN "ix" ELSE IF b >= 16 THEN "un" ELSE "gap", keep |-> FALSE]

\* what files hold: definitions, or text that is none
Full == U!Prog("PR", <<U!Vers("V1", <<U!Proc(Ty("void"), "NOP", Ty("void"), D("0"))>>, D("1"))>>, D("99"))
Holds == [ small |-> <<Const("A", D("1"))>>,
           none |-> <<>>,
           types |-> <<E1, S1, U1, Enum("col", <<U!Asg("RED", D("1")), U!Asg("BLUE", D("3"))>>), Const("N", Lit("hex", "1F")),
                       Union("pick", U!DVar(Id("col"), "c"), <<U!Case(<<Name("RED")>>, U!DOvar("m", <<>>)), U!Case(<<Name("BLUE")>>, U!Void)>>, <<U!DVar(SInt, "z")>>),
                       Struct("all", <<U!DVar(Id("col"), "c"), U!DFixed(Id("pick"), "p", D("2")), U!DOfix("o", Name("N")), U!DStr("s", <<>>)>>), Full, U!PLine>>,
           wide |-> WideDoc.defs,
           minus |-> <<Enum("e", <<U!Asg("a", D("-1")), U!Asg("b", D("2"))>>), S1>>,       \* not with gaps filled
           circle |-> <<S1, Const("a", Name("b")), Const("b", Name("a"))>>,
           unknown |-> <<Struct("s", <<U!DOfix("m", Name("nowhere"))>>)>>,
           toobig |-> <<E1, Union("u", U!DVar(SInt, "d"), <<U!Case(<<D("4294967296")>>, U!Void)>>, <<>>)>> ]
Broken == [ cut |-> <<"struct s { int a; ">>, junk |-> <<"const A = 1; junk">>, word |-> <<"struct int { int a; };">>, open |-> <<"const A = 1; /* no end">> ]
Contents0 == DOMAIN Holds \cup DOMAIN Broken
\* how the file may be
Kinds0 == { "plain", "symlink", "relative", "spaced", "dotted", "wide", "crlf" }
Faults == { "missing", "directory", "notdir", "loop", "dangling", "long", "empty-name", "latin1", "utf16", "truncated-utf8" }
\* computed once
Kept0(i, v) == v = v /\ TLCSet(i, v)
TextOf0(h) == IF h \in DOMAIN Holds THEN Render(Bare(Words(Holds[h]))) ELSE Broken[h]
ASSUME Kept0(1, TLCEval([h \in Contents0 |-> TextOf0(h)]))
ASSUME Kept0(2, TLCEval([h \in Contents0 |-> Parse(TLCEval(Lex(TLCEval(TextChars(TLCGet(1)[h]))))).ok]))
ASSUME Kept0(3, TLCEval([h \in DOMAIN Holds |-> [b \in {0, 2, 4, 8, 10, 12, 16, 18, 20} |-> Verdict(Holds[h], ModeOf(b))]]))
FileAt(k, h) == [k |-> k, h |-> h]

Init == /\ \/ /\ argv \in GoodArgs /\ file \in { FileAt("plain", h) : h \in {"types", "minus"} } /\ sink = "ok"
           \/ /\ argv \in { a \in GoodArgs : Len(a) <= 2 } \cup { <<"--use-indexer", "--use-union", "PATH">>, <<"PATH", "--use-std-trait", "--use-extra-trait">> }
              /\ file \in { FileAt("plain", h) : h \in Contents0 } \cup { FileAt(k, "types") : k \in Kinds0 } \cup { FileAt(k, "small") : k \in Faults } /\ sink = "ok"
           \/ /\ argv \in BadArgs /\ file \in { FileAt("plain", "types"), FileAt("missing", "small") } /\ sink = "ok"
           \/ /\ argv \in { a \in GoodArgs : Len(a) <= 2 } /\ file \in { FileAt("plain", h) : h \in {"types", "wide", "small", "none"} } /\ sink \in { "full", "closed" }
        /\ st = "start" /\ bits = 0 /\ text = <<>> /\ out = "nothing" /\ code = 0
Fail == st' = "end" /\ code' = 1 /\ UNCHANGED <<bits, text, out>>
Steady == UNCHANGED <<argv, file, sink>>
Args == /\ st = "start" /\ Steady
        /\ IF argv \in GoodArgs THEN st' = "args" /\ bits' = BitsOf(ConfigOf(argv)) /\ UNCHANGED <<text, out, code>> ELSE Fail
TextOf(h) == TLCGet(1)[h]
Read == /\ st = "args" /\ Steady
        /\ IF file.k \in Kinds0 THEN st' = "read" /\ text' = TextOf(file.h) /\ UNCHANGED <<bits, out, code>> ELSE Fail
ParseText == /\ st = "read" /\ Steady
             /\ IF TLCGet(2)[file.h] THEN st' = "parsed" /\ UNCHANGED <<bits, text, out, code>> ELSE Fail
Generate == /\ st = "parsed" /\ Steady
            /\ IF TLCGet(3)[file.h][bits] = "ok" THEN st' = "generated" /\ UNCHANGED <<bits, text, out, code>> ELSE Fail
Write == /\ st = "generated" /\ Steady
         /\ IF sink = "ok" THEN st' = "end" /\ out' = "code" /\ UNCHANGED <<bits, text, code>> ELSE Fail
Next == Args \/ Read \/ ParseText \/ Generate \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* nothing is written unless all went well
Silent == (out = "code") = (st = "end" /\ code = 0)
EndsAtLast == <>(st = "end")
\* the order of options never matters; the stronger option wins
Orderless == st = "args" => \A a \in GoodArgs : { a[i] : i \in DOMAIN a } = { argv[i] : i \in DOMAIN argv } => BitsOf(ConfigOf(a)) = bits
Stronger == (st = "args" /\ Some(argv, "--use-std-trait") /\ Some(argv, "--use-union")) => bits = 20
Sure == st = "parsed" => TLCGet(3)[file.h][bits] \in {"ok", "err"}
Emit == st = "end" => PrintT(ToJson([a |-> argv, k |-> file.k, x |-> TextOf(file.h), c |-> bits, s |-> sink, m |-> out]))
=============================================================================
