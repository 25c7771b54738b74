-------------------------------- MODULE MCIdl --------------------------------
(* A specification is written down, its layout or its text is edited, and the *)
(* result is read again.  What reading must give is computed by the lexer and *)
(* recogniser of IdlSyntax; every text is replayed into rpcgen's parse().      *)
EXTENDS IdlRandom, Json, SequencesExt

CONSTANTS Universe,   \* "names" "types" "values" "shapes" "all" "seqs" "few" "tiny" "many" "random" "free" "free-small"
          Edits,      \* subset of {"none", "gap", "gaps", "stack", "lines", "word", "char", "rand", "randword", "randchar"}
          Seed, Count \* "random", "free": which and how many pseudo-random specifications
VARIABLES defs, edit
vars == <<defs, edit>>

Randomly == {"random", "free", "free-small"}
Corpus == CASE Universe = "names" -> UNION { NamePlaces(n) : n \in NameUniverse }
            [] Universe = "types" -> TypeUniverse [] Universe = "values" -> ValueUniverse
            [] Universe = "shapes" -> ShapeUniverse [] Universe = "seqs" -> SeqUniverse
            [] Universe = "few" -> Few [] Universe = "tiny" -> Tiny [] Universe = "many" -> ManyUniverse
            [] Universe = "all" -> UNION { NamePlaces(n) : n \in NameUniverse } \cup TypeUniverse \cup ValueUniverse \cup ShapeUniverse
            [] Universe \in Randomly -> {}

\* ---- layout --------------------------------------------------------------------
Blanks == << " ", "\n", "\t", "\r\n", "  ", " \n\t\r\n " >>
Comments == << "/**/", "/***/", "/* x */", "/*/ */", "/* a\n * b\n */", "/* const a = 1; */", "/* \" ' // % # */", "/*\n%x\n*/", "/* /* */",
               "/*}*/ /*{*/", "/**//**/", " /* UUU */\n", "/*;*/\t/* , */", "\n/* case default : */ ", "/*****/", "/* **/" >>
Lines == << "%\n", "%x\n", "%#define A /*\n", "% const b = 2;\n", "%%\n", "%UUU\n", "%a\r\n", "%*/\n", "%}\n" >>
Layouts(g) == CASE g = "c" -> {""} \cup { Blanks[i] : i \in DOMAIN Blanks } \cup { Comments[i] : i \in DOMAIN Comments }
                [] g = "s" -> {""} \cup { Blanks[i] : i \in DOMAIN Blanks }
                [] g = "S" -> { Blanks[i] : i \in DOMAIN Blanks }
                [] g = "n" -> {""}
\* much layout: runs of blanks, of comments, of lines, and long ones
ManyBlanks == { Times(" ", 7), Times("\n", 5), Times("\t ", 40), Times(" \r\n", 20), Times("\n", 130), Times("\n", 257), Times(" ", 1025), Times("\t\n", 2100) }
ManyComments == { Times("/* 1 */", n) : n \in {3, 4, 5, 7, 8, 9, 16, 17, 33} } \cup { Times("/**/ ", n) : n \in {3, 6, 11} } \cup { Times("/*\n*/\n\t", n) : n \in {2, 4, 12} }
                \cup { "/*" \o Times(" of some length", n) \o "*/" : n \in {5, 20, 40} } \cup { "/*" \o Times("*", n) \o "*/" : n \in {3, 4, 30} }
                \cup { "/*" \o Times(" *\n", n) \o "*/" : n \in {2, 25} }
                \cup { Times("/*c*/", n) : n \in {63, 64, 65, 129, 257} } \cup { "/*" \o Times("x", n) \o "*/" : n \in {124, 125, 252, 253, 508, 1020, 2045, 4093, 8190} }
Stacks(g) == CASE g = "c" -> ManyBlanks \cup ManyComments [] g \in {"s", "S"} -> ManyBlanks [] g = "n" -> {}
ManyLines == { Times(Lines[i], n) : i \in {1, 2, 7, 9}, n \in {2, 3, 4, 9, 17, 33, 65, 129} } \cup { "%" \o Times(" a long line", n) \o "\n" : n \in {6, 11, 25, 90, 400} }
             \cup { Lines[i] \o "/* x */" \o Lines[j] : i, j \in {1, 3} } \cup { Lines[i] \o "\n" \o Lines[j] : i, j \in {2, 5, 7} }
NumLines(l) == LET cs == TextChars(<<l>>) IN Cardinality({ i \in DOMAIN cs : cs[i] = "%" /\ (i = 1 \/ cs[i - 1] \in {"\n", "/"}) })
Ws == Words(defs)
Class(ws, i) == IF i > Len(ws) THEN "c" ELSE ws[i].g
\* two words must not run together
Apart(ws, i, l) == (i > 1 /\ i <= Len(ws) /\ IsWord(ws[i - 1].w) /\ IsWord(ws[i].w)) => l # ""
Default(ws, i) == IF i = 1 \/ i > Len(ws) THEN "" ELSE Sep(ws[i - 1].w, ws[i].w)
Cyclic(k, i, ws) ==                   \* the k-th way to lay everything out
  LET g == Class(ws, i)
      x == 7 * k + 5 * i + (i * i) \div 3
  IN IF g = "n" THEN ""
     ELSE IF g = "c" /\ (x % 3 # 0) THEN Comments[1 + (x % Len(Comments))]
     ELSE IF g \in {"c", "s"} /\ x % 5 = 0 /\ Apart(ws, i, "") THEN ""
     ELSE Blanks[1 + (x % Len(Blanks))]

\* ---- edits -----------------------------------------------------------------------
NoEdit == [op |-> "none", i |-> 0, w |-> ""]
Ed(op, i, w) == [op |-> op, i |-> i, w |-> w]
Alphabet == Marks \cup Reserved \cup {"zz", "7", "09", "0x", "-0", "0x1G", "1a", "--1", "TRUE", "%"}
CharAlphabet == {" ", "a", "0", "x", "_", ";", "*", "/", "-", "%", "{", "}", ",", "<", "]", "=", "\n", "."}
WordEdits(bs) ==
  { Ed("del", i, "") : i \in DOMAIN bs } \cup { Ed("dup", i, "") : i \in DOMAIN bs }
  \cup { Ed("swap", i, "") : i \in 1..(Len(bs) - 1) } \cup { Ed("cut", i, "") : i \in 1..(Len(bs) - 1) }
  \cup { Ed("merge", i, "") : i \in { j \in 1..(Len(bs) - 1) : IsWord(bs[j]) /\ IsWord(bs[j + 1]) } }
  \cup { Ed("rep", i, w) : i \in DOMAIN bs, w \in Alphabet } \cup { Ed("ins", i, w) : i \in 1..(Len(bs) + 1), w \in Alphabet }
ApplyWord(bs, e) ==
  LET n == Len(bs)
      pre == SubSeq(bs, 1, e.i - 1)
      post == SubSeq(bs, e.i + 1, n)
  IN CASE e.op = "del" -> pre \o post
       [] e.op = "dup" -> pre \o <<bs[e.i], bs[e.i]>> \o post
       [] e.op = "swap" -> pre \o <<bs[e.i + 1], bs[e.i]>> \o SubSeq(bs, e.i + 2, n)
       [] e.op = "cut" -> SubSeq(bs, 1, e.i)
       [] e.op = "merge" -> pre \o <<bs[e.i] \o bs[e.i + 1]>> \o SubSeq(bs, e.i + 2, n)
       [] e.op = "rep" -> pre \o <<e.w>> \o post
       [] e.op = "ins" -> pre \o <<e.w>> \o SubSeq(bs, e.i, n)
CharEdits(cs) ==
  { Ed("cdel", i, "") : i \in DOMAIN cs } \cup { Ed("cdup", i, "") : i \in DOMAIN cs } \cup { Ed("cswap", i, "") : i \in 1..(Len(cs) - 1) }
  \cup { Ed("ccut", i, "") : i \in 1..(Len(cs) - 1) }
  \cup { Ed("crep", i, w) : i \in DOMAIN cs, w \in CharAlphabet } \cup { Ed("cins", i, w) : i \in 1..(Len(cs) + 1), w \in CharAlphabet }
ApplyChar(cs, e) ==
  LET n == Len(cs)
      pre == SubSeq(cs, 1, e.i - 1)
      post == SubSeq(cs, e.i + 1, n)
  IN CASE e.op = "cdel" -> pre \o post
       [] e.op = "cdup" -> pre \o <<cs[e.i], cs[e.i]>> \o post
       [] e.op = "cswap" -> pre \o <<cs[e.i + 1], cs[e.i]>> \o SubSeq(cs, e.i + 2, n)
       [] e.op = "ccut" -> SubSeq(cs, 1, e.i)
       [] e.op = "crep" -> pre \o <<e.w>> \o post
       [] e.op = "cins" -> pre \o <<e.w>> \o SubSeq(cs, e.i, n)
WordOps == {"del", "dup", "swap", "cut", "merge", "rep", "ins"}
CharOps == {"cdel", "cdup", "cswap", "ccut", "crep", "cins"}

\* ---- pseudo-random choices -----------------------------------------------------------
SmallPool == SetToSeq({ x[1] : x \in Few \ {<<>>} } \cup Singles)
LargePool == SetToSeq({ x[1] : x \in (TypeUniverse \cup ValueUniverse \cup ShapeUniverse \cup NamePlaces("voided") \cup NamePlaces("case_")) \ {<<>>} })
RandomDefs(k) == IF Universe = "free" THEN RDefs(k, 60) ELSE IF Universe = "free-small" THEN RDefs(k, 3) ELSE [i \in 1..(1 + Draw(k, 0, 6)) |->
                    IF Draw(k, 100 + i, 3) = 1 THEN LargePool[Draw(k, i, Len(LargePool))] ELSE SmallPool[Draw(k, i, Len(SmallPool))]]
BlankOf(k, i) == Blanks[Draw(k, i, Len(Blanks))]
RECURSIVE RandomComments(_, _, _)
RandomComments(k, i, n) == IF n = 0 THEN "" ELSE Comments[Draw(k, 30000 + i, Len(Comments))] \o (IF OneIn(k, 40000 + i, 3) THEN BlankOf(k, 50000 + i) ELSE "") \o RandomComments(k, i + 1, n - 1)
RandomGap(k, i, ws) ==
  LET g == Class(ws, i)
      x == Draw(k, 1000 + i, 8)
  IN IF g = "n" THEN ""
     ELSE IF g = "S" THEN BlankOf(k, 2000 + i) \o (IF x < 3 THEN BlankOf(k, 3000 + i) ELSE "")
     ELSE IF x < 3 /\ Apart(ws, i, "") THEN ""
     ELSE IF x < 6 \/ g = "s" THEN BlankOf(k, 2000 + i)
     ELSE IF x = 6 THEN Comments[Draw(k, 3000 + i, Len(Comments))]
     ELSE BlankOf(k, 2000 + i) \o RandomComments(k, 9 * i, Draw(k, 6000 + i, 8)) \o BlankOf(k, 5000 + i)
AlphaSeq == SetToSeq(Alphabet)
RandomWordEdit(k, bs) ==
  LET n == Len(bs)
      o == Draw(k, 11, 7)
  IN CASE o = 1 -> Ed("del", Draw(k, 12, n), "") [] o = 2 -> Ed("dup", Draw(k, 12, n), "")
       [] o = 3 /\ n > 1 -> Ed("swap", Draw(k, 12, n - 1), "") [] o = 4 /\ n > 1 -> Ed("cut", Draw(k, 12, n - 1), "")
       [] o = 5 -> Ed("ins", Draw(k, 12, n + 1), bs[Draw(k, 13, n)]) [] o = 6 -> Ed("rep", Draw(k, 12, n), bs[Draw(k, 13, n)])
       [] OTHER -> Ed("ins", Draw(k, 12, n + 1), AlphaSeq[Draw(k, 13, Len(AlphaSeq))])

\* ---- behaviour -------------------------------------------------------------------
Init == \/ defs \in Corpus /\ edit = NoEdit
        \/ Universe \in Randomly /\ defs = <<>> /\ \E k \in 1..Count : edit = Ed("seed", Seed * Count + k, "")
Fresh == edit = NoEdit
\* written down as it is
Same == "none" \in Edits /\ Fresh /\ edit' = Ed("same", 0, "") /\ UNCHANGED defs
Gap == /\ "gap" \in Edits /\ Fresh
       /\ \E i \in 1..(Len(Ws) + 1) : \E l \in Layouts(Class(Ws, i)) :
            /\ Apart(Ws, i, l) /\ edit' = Ed("gap", i, l)
       /\ UNCHANGED defs
Gaps == /\ "gaps" \in Edits /\ Fresh
        /\ \E k \in 1..12 : edit' = Ed("gaps", k, "")
        /\ UNCHANGED defs
Stack == /\ "stack" \in Edits /\ Fresh
         /\ \/ \E i \in 1..(Len(Ws) + 1) : \E l \in Stacks(Class(Ws, i)) : edit' = Ed("stack", i, l)
            \/ \E i \in 1..(Len(defs) + 1), l \in ManyLines : edit' = Ed("line", i, l)
         /\ UNCHANGED defs
\* pass-through lines between definitions
Line == /\ "lines" \in Edits /\ Fresh
        /\ \E i \in 1..(Len(defs) + 1), l \in DOMAIN Lines : edit' = Ed("line", i, Lines[l])
        /\ UNCHANGED defs
Word == /\ "word" \in Edits /\ Fresh
        /\ edit' \in WordEdits(Bare(Ws))
        /\ UNCHANGED defs
Char == /\ "char" \in Edits /\ Fresh
        /\ edit' \in CharEdits(TextChars(Render(Bare(Ws))))
        /\ UNCHANGED defs
\* a pseudo-random specification, laid out or edited pseudo-randomly
Invent == /\ edit.op = "seed"
          /\ defs' = RandomDefs(edit.i)
          /\ \/ "rand" \in Edits /\ edit' = Ed("rand", edit.i, "")
             \/ "randword" \in Edits /\ edit' = RandomWordEdit(edit.i, Bare(Words(RandomDefs(edit.i))))
Next == Same \/ Gap \/ Stack \/ Gaps \/ Line \/ Word \/ Char \/ Invent
Spec == Init /\ [][Next]_vars

\* ---- text and meaning --------------------------------------------------------------
Laid(ws, l(_)) == Flat([i \in 1..(Len(ws) + 1) |-> <<l(i)>> \o (IF i <= Len(ws) THEN <<Piece(ws[i].w)>> ELSE <<>>)])
WordsBefore(k) == Len(Words(SubSeq(defs, 1, k)))
Pieces ==
  LET ws == Ws
      Given(i) == RandomGap(edit.i, i, ws)
      One(i) == IF i = edit.i THEN edit.w ELSE Default(ws, i)
      Many(i) == Cyclic(edit.i, i, ws)
      Lined(i) == IF i = 1 + WordsBefore(edit.i - 1) THEN " " \o edit.w ELSE Default(ws, i)
  IN CASE edit.op = "same" -> Render(Bare(ws))
            [] edit.op = "rand" -> Laid(ws, Given)
            [] edit.op \in {"gap", "stack"} -> Laid(ws, One)
            [] edit.op = "gaps" -> Laid(ws, Many)
            [] edit.op = "line" -> Laid(ws, Lined)
            [] edit.op \in WordOps -> Render(ApplyWord(Bare(ws), edit))
            [] edit.op \in CharOps -> ApplyChar(TextChars(Render(Bare(ws))), edit)
Meant == IF edit.op = "line" THEN SubSeq(defs, 1, edit.i - 1) \o [j \in 1..NumLines(edit.w) |-> PLine] \o SubSeq(defs, edit.i, Len(defs)) ELSE defs
Edited == edit.op \in WordOps \cup CharOps
\* what the text says: read by the specification's own lexer and recogniser
Read == Parse(Lex(TextChars(Pieces)))
\* C14, C15: writing and reading are inverse, whatever the layout
ReadsBack == (~Edited /\ edit.op \notin {"seed", "none"}) => Read = [ok |-> TRUE, v |-> Plain(Meant)]

\* "acc": must be accepted as given; "rej": must be refused; "may": if accepted, then as
\* given (the layout is not one that is known to be allowed); "": no judgement
Verdict ==
  IF ~Edited THEN [m |-> "acc", v |-> Plain(Meant)]
  ELSE LET cs == TextChars(Pieces)
           ws == Lex(cs)
           r == Parse(ws)
           odd == \E i \in DOMAIN ws : ws[i] \in Extra \cup {"%?"}
       IN IF ~r.ok THEN [m |-> IF odd THEN "" ELSE "rej", v |-> <<>>]
          ELSE [m |-> IF edit.op \in WordOps \/ TextChars(Render(ws)) = cs THEN "acc" ELSE "may", v |-> r.v]
Emit == edit.op \notin {"seed", "none"} => LET d == Verdict IN d.m # "" => PrintT(ToJson([x |-> Pieces, m |-> d.m, a |-> d.v]))
=============================================================================
