--------------------------------- MODULE MCHelp ---------------------------------
(* The numbers of generated enums outside the wire: casts, AsRef, TryFrom and     *)
(* XdrIndexer.  Every enum of every document, with what each enumerator must give *)
(* and what numbers around them must become, is printed.                          *)
EXTENDS MCGen

Type == /\ ty = ""
        /\ ty' \in TypeNames(DocAt(doc).defs)
        /\ UNCHANGED <<doc, mode, n, fault, wire>>
SpecH == Init /\ [][Type]_vars

DefOf(defs, name) == LET s == SelectSeq(defs, LAMBDA x : x.p \in {"enum", "struct", "union"} /\ x.n = name) IN s[1]
IsEnum == ty # "" /\ DefOf(DocAt(doc).defs, ty).p = "enum"
ASSUME Kept0(3, TLCEval([i \in DOMAIN TLCGet(1) |-> TLCEval(Env(TLCGet(1)[i].defs))]))
Items0 == LET env == TLCGet(3)[doc]
              b == DefOf(DocAt(doc).defs, ty).b
          IN SortSeq([j \in DOMAIN b |-> [num |-> Int32(Num(env, b[j].v)), nm |-> TypeShown(b[j].n), id |-> TypeIdent(b[j].n)]], LAMBDA p, q : p.num < q.num)
Lowest(items) == items[1].nm
Called(items, x) == LET at == { j \in DOMAIN items : items[j].num = x } IN IF at = {} THEN "" ELSE items[CHOOSE j \in at : TRUE].nm
\* numbers to try: the declared ones, what is near them, what they are modulo a byte or a half word
Tried(items) ==
  LET Near(x) == { x } \cup (IF x < C!MaxInt THEN {x + 1} ELSE {}) \cup (IF x > C!MinInt THEN {x - 1} ELSE {})
                 \cup (IF x < 1000000000 /\ x > -1000000000 THEN {x + 256, x - 256, x + 65536, x - 65536, x + 1000000000, 0 - x} ELSE {})
      all == UNION { Near(items[j].num) : j \in DOMAIN items } \cup { 0, 1, -1, C!MaxInt, C!MinInt }
      RECURSIVE Listed(_)
      Listed(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o Listed(s \ {x})
  IN Listed(all)

\* the number of an enumerator is its number on the wire
OnTheWire == IsEnum => LET items == TLCEval(Items0)
                           t == TLCEval(T)
                       IN \A j \in DOMAIN items :
                            LET r == C!From(t, C!IntWord(items[j].num))
                            IN r.ok /\ Show(t, r.v) = items[j].nm /\ C!Enc(t, r.v) = C!Ok(C!IntWord(items[j].num))
Distinct == IsEnum => LET items == TLCEval(Items0) IN \A j \in 1..(Len(items) - 1) : items[j].num < items[j + 1].num
EmitWhere == ty = "" => PrintT(ToJson([key |-> Key, c |-> Bits(mode), x |-> Render(Bare(Words(DocAt(doc).defs))), doc |-> doc, mode |-> mode,
                                       ts |-> { <<TypeIdent(t), t>> : t \in TypeNames(DocAt(doc).defs) }]))
EmitEnum == IsEnum => LET items == TLCEval(Items0)
                          tries == TLCEval(Tried(items))
                      IN PrintT(ToJson([m |-> Key, t |-> TypeIdent(ty), e |-> mode.e, low |-> Lowest(items),
                                        vs |-> [j \in DOMAIN items |-> <<items[j].id, items[j].nm, items[j].num>>],
                                        tries |-> [j \in DOMAIN tries |-> <<tries[j], Called(items, tries[j])>>]]))
=============================================================================
