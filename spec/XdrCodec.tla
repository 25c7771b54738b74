------------------------------ MODULE XdrCodec -------------------------------
(* The wire format of serde_xdr.                                              *)
(*                                                                            *)
(* A type is a record with field k (and its parameters), a value a record     *)
(* whose field name says what it holds:                                       *)
(*   b  boolean          n  small integer      l  limbs (32/64-bit, floats)   *)
(*   c  character code   s  bytes              u  void                        *)
(*   o  optional: <<>> or <<v>>                xs sequence of values          *)
(*   kv sequence of <<key, value>>             i + xs  variant and its fields *)
(* Enums that derive XdrIndexer are k = "ix": vs is a sequence of variants     *)
(* [num, ts].  Enums that derive XdrUnion are k = "un": d is the type of the   *)
(* discriminant, vs a sequence of [ls, def, ts] with the discriminants that    *)
(* select the variant; the value's xs begin with the discriminant.             *)
(*                                                                            *)
(* Enc/Dec give the meaning (denotation); the serializer and decoder machines *)
(* below (EncStep, DecStep) mirror ser.rs and de.rs: one step per call of a   *)
(* primitive of serde's Serializer / Deserializer.                            *)
EXTENDS XdrWire, TLC

Ok(b)  == [ok |-> TRUE, b |-> b]
Err(e) == [ok |-> FALSE, e |-> e]

\* ---- ranges ----------------------------------------------------------------
IntLo(k) == CASE k = "i8" -> -128 [] k = "i16" -> -32768 [] k \in {"u8", "u16"} -> 0
             [] k \in {"i32", "s32"} -> MinInt
IntHi(k) == CASE k = "i8" -> 127 [] k = "u8" -> 255 [] k = "i16" -> 32767
             [] k = "u16" -> 65535 [] k \in {"i32", "s32"} -> MaxInt

SmallInts == {"i8", "u8", "i16", "u16", "i32"}
LimbKinds == {"u32", "i64", "u64", "f32", "f64"}
LimbCount(k) == IF k \in {"u32", "f32"} THEN 2 ELSE 4
Products == {"tup", "tstruct", "struct"}
\* what XDR cannot represent, and parts that fail
Refused == {"useq", "umap", "cseq", "cmap", "cbytes", "vbig", "i128", "u128", "bomb"}

\* ---- encoding --------------------------------------------------------------
\* A claimed length (cseq, cmap) is four 16-bit limbs; it fits in an unsigned
\* word exactly if the upper two are zero.
FitsU32(l) == l[1] = 0 /\ l[2] = 0

RECURSIVE Enc(_, _), EncAll(_, _), EncPairs(_, _, _)
\* the encodings of the parts, or the failure of the first part that fails
EncAll(ts, vs) ==
  IF ts = <<>> THEN Ok(<<>>)
  ELSE LET h == Enc(Head(ts), Head(vs))
       IN IF ~h.ok THEN h
          ELSE LET r == EncAll(Tail(ts), Tail(vs))
               IN IF r.ok THEN Ok(h.b \o r.b) ELSE r
EncPairs(a, b, kv) ==
  IF kv = <<>> THEN Ok(<<>>)
  ELSE LET h == EncAll(<<a, b>>, kv[1])
       IN IF ~h.ok THEN h
          ELSE LET r == EncPairs(a, b, Tail(kv))
               IN IF r.ok THEN Ok(h.b \o r.b) ELSE r
Prefixed(p, r) == IF r.ok THEN Ok(p \o r.b) ELSE r

Enc(t, v) ==
  CASE t.k = "bool"            -> Ok(NatWord(IF v.b THEN 1 ELSE 0))
    [] t.k \in SmallInts       -> Ok(IntWord(v.n))
    [] t.k \in LimbKinds       -> Ok(LimbsBytes(v.l))
    [] t.k = "char"            -> Ok(NatWord(v.c))
    [] t.k \in {"str", "bytes", "ovar"} -> Ok(LenWord(Len(v.s)) \o v.s \o Pad(Len(v.s)))
    [] t.k = "ofix"            -> Ok(v.s \o Pad(Len(v.s)))
    [] t.k = "s32"             -> Ok(IntWord(v.n))
    [] t.k \in {"unit", "ustruct"} -> Ok(<<>>)
    [] t.k = "opt"             -> IF v.o = <<>> THEN Ok(NatWord(0))
                                  ELSE Prefixed(NatWord(1), Enc(t.e, v.o[1]))
    [] t.k = "newtype"         -> Enc(t.e, v)
    [] t.k = "seq"             -> Prefixed(LenWord(Len(v.xs)), EncAll([i \in DOMAIN v.xs |-> t.e], v.xs))
    [] t.k = "arr"             -> EncAll([i \in DOMAIN v.xs |-> t.e], v.xs)
    [] t.k = "map"             -> Prefixed(LenWord(Len(v.kv)), EncPairs(t.a, t.d, v.kv))
    [] t.k \in Products        -> EncAll(t.ts, v.xs)
    [] t.k = "enum"            -> Prefixed(IntWord(v.i), EncAll(t.vs[v.i + 1].ts, v.xs))
    [] t.k = "ix"              -> Prefixed(IntWord(t.vs[v.i + 1].num), EncAll(t.vs[v.i + 1].ts, v.xs))
    [] t.k = "un"              -> EncAll(<<t.d>> \o t.vs[v.i + 1].ts, v.xs)
    \* ---- refused
    [] t.k = "cseq"            -> IF FitsU32(t.l) THEN Ok(LimbsBytes(SubSeq(t.l, 3, 4))) ELSE Err({"Refused"})
    [] t.k = "cmap"            -> IF FitsU32(t.l) THEN Ok(LimbsBytes(SubSeq(t.l, 3, 4))) ELSE Err({"Refused"})
    [] t.k = "vbig"            -> IF t.l[1] < 32768 THEN Ok(LimbsBytes(t.l)) ELSE Err({"Refused"})
    [] t.k \in {"useq", "umap", "cbytes", "i128", "u128"} -> Err({"Refused"})
    [] t.k = "bomb"            -> Err({"Custom"})

\* ---- decoding --------------------------------------------------------------
Got(v, r) == [ok |-> TRUE, v |-> v, r |-> r]
Rest(bs, n) == SubSeq(bs, n + 1, Len(bs))
Take(bs, n) == SubSeq(bs, 1, n)

RECURSIVE MinSize(_), SumMin(_)
SumMin(ts) == IF ts = <<>> THEN 0 ELSE MinSize(Head(ts)) + SumMin(Tail(ts))
MinSize(t) ==
  CASE t.k \in {"unit", "ustruct", "bomb"} -> 0
    [] t.k \in {"i64", "u64", "f64"} -> 8
    [] t.k = "ofix" -> t.n + PadLen(t.n)
    [] t.k = "newtype" -> MinSize(t.e)
    [] t.k = "arr" -> t.n * MinSize(t.e)
    [] t.k \in Products -> SumMin(t.ts)
    [] t.k = "un" -> MinSize(t.d)
    [] OTHER -> 4

RECURSIVE Dec(_, _), DecAll(_, _, _), DecN(_, _, _, _), DecPairs(_, _, _, _, _)
DecAll(ts, bs, acc) ==
  IF ts = <<>> THEN Got([xs |-> acc], bs)
  ELSE LET h == Dec(Head(ts), bs)
       IN IF h.ok THEN DecAll(Tail(ts), h.r, Append(acc, h.v)) ELSE h
DecN(t, n, bs, acc) ==
  IF n = 0 THEN Got([xs |-> acc], bs)
  ELSE LET h == Dec(t, bs)
       IN IF h.ok THEN DecN(t, n - 1, h.r, Append(acc, h.v)) ELSE h
DecPairs(a, d, n, bs, acc) ==
  IF n = 0 THEN Got([kv |-> acc], bs)
  ELSE LET h == DecAll(<<a, d>>, bs, <<>>)
       IN IF h.ok THEN DecPairs(a, d, n - 1, h.r, Append(acc, h.v.xs)) ELSE h

\* counted bytes: the length, then the data, then the padding; a text must be
\* UTF-8.  Where data is bad and padding is missing either may be reported.
DecBytes(bs, text) ==
  IF Len(bs) < 4 THEN Err({"NotEnough"})
  ELSE LET n == WordLen(bs)
           r == Rest(bs, 4)
       IN IF n > Len(r) THEN Err({"NotEnough"})
          ELSE LET d == Take(r, n)
                   bad == IF text /\ ~Utf8Ok(d) THEN {"Utf8"} ELSE {}
                   cut == IF Len(r) < n + PadLen(n) THEN {"NotEnough"} ELSE {}
               IN IF bad \cup cut # {} THEN Err(bad \cup cut)
                  ELSE Got([s |-> d], Rest(r, n + PadLen(n)))

\* the variant a number or discriminant selects, 0 if none; an "ix" type may name
\* a variant (def) that stands for every other number
HasNum(x, n) == "num" \in DOMAIN x /\ x.num = n
ByNum(t, n) == IF \E j \in DOMAIN t.vs : HasNum(t.vs[j], n)
               THEN CHOOSE j \in DOMAIN t.vs : HasNum(t.vs[j], n)
               ELSE IF "def" \in DOMAIN t THEN t.def ELSE 0
ByValue(t, v) ==
  IF \E j \in DOMAIN t.vs : \E h \in DOMAIN t.vs[j].ls : t.vs[j].ls[h] = v
  THEN CHOOSE j \in DOMAIN t.vs : \E h \in DOMAIN t.vs[j].ls : t.vs[j].ls[h] = v
  ELSE IF \E j \in DOMAIN t.vs : t.vs[j].def THEN CHOOSE j \in DOMAIN t.vs : t.vs[j].def ELSE 0

Dec(t, bs) ==
  IF t.k \in {"unit", "ustruct"} THEN Got([u |-> 0], bs)
  ELSE IF t.k = "bomb" THEN Err({"Custom"})
  ELSE IF t.k = "deep" THEN Err({"Deep"})             \* beyond what was unfolded of a recursive type
  ELSE IF t.k \in Refused THEN Err({"Refused"})       \* encode-only
  ELSE IF t.k = "newtype" THEN Dec(t.e, bs)
  ELSE IF t.k \in Products THEN DecAll(t.ts, bs, <<>>)
  ELSE IF t.k = "arr" THEN DecN(t.e, t.n, bs, <<>>)
  ELSE IF t.k = "un"
       THEN LET d == Dec(t.d, bs)
            IN IF ~d.ok THEN d
               ELSE LET j == ByValue(t, d.v)
                    IN IF j = 0 THEN Err({"Custom"})
                       ELSE LET h == DecAll(t.vs[j].ts, d.r, <<d.v>>)
                            IN IF h.ok THEN Got([i |-> j - 1, xs |-> h.v.xs], h.r) ELSE h
  ELSE IF t.k \in {"str", "bytes", "ovar"} THEN DecBytes(bs, t.k = "str")
  ELSE IF t.k = "ofix"
       THEN IF Len(bs) < t.n + PadLen(t.n) THEN Err({"NotEnough"})
            ELSE Got([s |-> Take(bs, t.n)], Rest(bs, t.n + PadLen(t.n)))
  ELSE IF t.k \in LimbKinds
       THEN IF Len(bs) < 2 * LimbCount(t.k) THEN Err({"NotEnough"})
            ELSE Got([l |-> BytesLimbs(Take(bs, 2 * LimbCount(t.k)))], Rest(bs, 2 * LimbCount(t.k)))
  ELSE IF Len(bs) < 4 THEN Err({"NotEnough"})
  ELSE LET w == Take(bs, 4)
           r == Rest(bs, 4)
       IN CASE t.k = "bool" -> Got([b |-> w # <<0, 0, 0, 0>>], r)
            [] t.k \in {"i8", "i16", "i32"} ->
                 IF WordInt(w) >= IntLo(t.k) /\ WordInt(w) <= IntHi(t.k)
                 THEN Got([n |-> WordInt(w)], r) ELSE Err({"Convert"})
            [] t.k \in {"u8", "u16"} ->
                 IF ~WordIsBig(w) /\ WordNat31(w) <= IntHi(t.k)
                 THEN Got([n |-> WordNat31(w)], r) ELSE Err({"Convert"})
            [] t.k = "char" ->
                 IF ~WordIsBig(w) /\ IsScalar(WordNat31(w))
                 THEN Got([c |-> WordNat31(w)], r) ELSE Err({"Convert"})
            [] t.k = "s32" ->
                 IF \E j \in DOMAIN t.acc : t.acc[j] = WordInt(w)
                 THEN Got([n |-> WordInt(w)], r) ELSE Err({"Custom"})
            [] t.k = "ix" ->
                 LET j == ByNum(t, WordInt(w))
                 IN IF j = 0 THEN Err({"Custom"})
                    ELSE LET h == DecAll(t.vs[j].ts, r, <<>>)
                         IN IF h.ok THEN Got([i |-> j - 1, xs |-> h.v.xs], h.r) ELSE h
            [] t.k = "opt" ->
                 IF w = <<0, 0, 0, 0>> THEN Got([o |-> <<>>], r)
                 ELSE LET h == Dec(t.e, r)
                      IN IF h.ok THEN Got([o |-> <<h.v>>], h.r) ELSE h
            [] t.k = "seq" -> DecN(t.e, WordLen(w), r, <<>>)
            [] t.k = "map" -> DecPairs(t.a, t.d, WordLen(w), r, <<>>)
            [] t.k = "enum" ->
                 IF WordIsBig(w) \/ WordNat31(w) >= Len(t.vs) THEN Err({"Convert", "Custom"})
                 ELSE LET h == DecAll(t.vs[WordNat31(w) + 1].ts, r, <<>>)
                      IN IF h.ok THEN Got([i |-> WordNat31(w), xs |-> h.v.xs], h.r) ELSE h

\* from_bytes: the value must account for the whole input
From(t, bs) ==
  LET h == Dec(t, bs)
  IN IF ~h.ok THEN [ok |-> FALSE, e |-> h.e, x |-> 0]
     ELSE IF h.r = <<>> THEN [ok |-> TRUE, v |-> h.v]
     ELSE [ok |-> FALSE, e |-> {"Trailing"}, x |-> Len(h.r)]

\* a sequence or map whose elements take no bytes (its length costs nothing)
RECURSIVE Hollow(_)
Hollow(t) ==
  CASE t.k \in {"opt", "newtype", "arr"} -> Hollow(t.e)
    [] t.k = "seq" -> MinSize(t.e) = 0 \/ Hollow(t.e)
    [] t.k = "map" -> MinSize(t.a) + MinSize(t.d) = 0 \/ Hollow(t.a) \/ Hollow(t.d)
    [] t.k \in Products -> \E i \in DOMAIN t.ts : Hollow(t.ts[i])
    [] t.k \in {"enum", "ix", "un"} -> \E i \in DOMAIN t.vs : \E j \in DOMAIN t.vs[i].ts : Hollow(t.vs[i].ts[j])
    [] OTHER -> FALSE

\* ---- the serializer machine --------------------------------------------------
\* work: parts still to be serialized, innermost first; out: the output buffer
Part(t, v) == [t |-> t, v |-> v]
Parts(ts, vs) == [i \in DOMAIN ts |-> Part(ts[i], vs[i])]
EncStepOut(p) ==                       \* bytes appended by this call
  CASE p.t.k = "opt" -> NatWord(IF p.v.o = <<>> THEN 0 ELSE 1)
    [] p.t.k = "seq" -> LenWord(Len(p.v.xs))
    [] p.t.k = "map" -> LenWord(Len(p.v.kv))
    [] p.t.k = "enum" -> IntWord(p.v.i)
    [] p.t.k = "ix" -> IntWord(p.t.vs[p.v.i + 1].num)
    [] p.t.k \in Products \cup {"newtype", "arr", "un"} -> <<>>
    [] OTHER -> Enc(p.t, p.v).b
EncStepWork(p) ==                      \* calls this call makes
  CASE p.t.k = "opt" -> IF p.v.o = <<>> THEN <<>> ELSE <<Part(p.t.e, p.v.o[1])>>
    [] p.t.k \in {"seq", "arr"} -> [i \in DOMAIN p.v.xs |-> Part(p.t.e, p.v.xs[i])]
    [] p.t.k = "map" -> Concat([i \in DOMAIN p.v.kv |->
                                 <<Part(p.t.a, p.v.kv[i][1]), Part(p.t.d, p.v.kv[i][2])>>])
    [] p.t.k \in {"enum", "ix"} -> Parts(p.t.vs[p.v.i + 1].ts, p.v.xs)
    [] p.t.k = "un" -> Parts(<<p.t.d>> \o p.t.vs[p.v.i + 1].ts, p.v.xs)
    [] p.t.k \in Products -> Parts(p.t.ts, p.v.xs)
    [] p.t.k = "newtype" -> <<Part(p.t.e, p.v)>>
    [] OTHER -> <<>>

\* ---- the decoder machine -----------------------------------------------------
\* todo: what is still to be done, innermost first; vals: values read, last first.
\*   read t        read one value of type t
\*   rep t n       read n more values of type t (t a sequence of types: n rounds)
\*   make m n i    build a composite from the last n values read
\*   pick t        select the variant of t by the value just read
Item(op, ts, n, m, i) == [op |-> op, ts |-> ts, n |-> n, m |-> m, i |-> i]
Read(t) == Item("read", <<t>>, 0, "", 0)
Reads(ts) == [j \in DOMAIN ts |-> Read(ts[j])]
Loop(ts, n) == Item("rep", ts, n, "", 0)
Make(m, n, i) == Item("make", <<>>, n, m, i)
MakeValue(m, n, i, vals) ==
  LET xs == [j \in 1..n |-> vals[n + 1 - j]]
  IN CASE m = "xs" -> [xs |-> xs]
       [] m = "o" -> [o |-> xs]
       [] m = "kv" -> [kv |-> [j \in 1..(n \div 2) |-> <<xs[2 * j - 1], xs[2 * j]>>]]
       [] m = "i" -> [i |-> i, xs |-> xs]

\* one call on the deserializer; the result is the next machine state
Dm(todo, bs, vals) == [st |-> "run", todo |-> todo, bs |-> bs, vals |-> vals, e |-> {}]
DmErr(e) == [st |-> "err", todo |-> <<>>, bs |-> <<>>, vals |-> <<>>, e |-> e]
DecStep(todo, bs, vals) ==
  LET it == Head(todo)
      more == Tail(todo)
  IN CASE it.op = "make" ->
            Dm(more, bs, <<MakeValue(it.m, it.n, it.i, vals)>> \o Rest(vals, it.n))
       [] it.op = "rep" ->
            IF it.n = 0 THEN Dm(more, bs, vals)
            ELSE Dm(Reads(it.ts) \o <<Loop(it.ts, it.n - 1)>> \o more, bs, vals)
       [] it.op = "pick" ->
            LET t == it.ts[1]
                j == ByValue(t, vals[1])
            IN IF j = 0 THEN DmErr({"Custom"})
               ELSE Dm(Reads(t.vs[j].ts) \o <<Make("i", Len(t.vs[j].ts) + 1, j - 1)>> \o more, bs, vals)
       [] it.op = "read" ->
            LET t == it.ts[1]
            IN CASE t.k = "newtype" -> Dm(<<Read(t.e)>> \o more, bs, vals)
                 [] t.k \in Products ->
                      Dm(Reads(t.ts) \o <<Make("xs", Len(t.ts), 0)>> \o more, bs, vals)
                 [] t.k = "arr" ->
                      Dm(<<Loop(<<t.e>>, t.n), Make("xs", t.n, 0)>> \o more, bs, vals)
                 [] t.k = "un" -> Dm(<<Read(t.d), Item("pick", <<t>>, 0, "", 0)>> \o more, bs, vals)
                 [] t.k \in {"opt", "seq", "map", "enum", "ix"} /\ Len(bs) < 4 -> DmErr({"NotEnough"})
                 [] t.k = "ix" /\ Len(bs) >= 4 ->
                      LET j == ByNum(t, WordInt(bs))
                      IN IF j = 0 THEN DmErr({"Custom"})
                         ELSE Dm(Reads(t.vs[j].ts) \o <<Make("i", Len(t.vs[j].ts), j - 1)>> \o more, Rest(bs, 4), vals)
                 [] t.k = "opt" /\ Len(bs) >= 4 ->
                      IF Take(bs, 4) = <<0, 0, 0, 0>>
                      THEN Dm(<<Make("o", 0, 0)>> \o more, Rest(bs, 4), vals)
                      ELSE Dm(<<Read(t.e), Make("o", 1, 0)>> \o more, Rest(bs, 4), vals)
                 [] t.k = "seq" /\ Len(bs) >= 4 ->
                      LET n == WordLen(bs)
                      IN Dm(<<Loop(<<t.e>>, n), Make("xs", n, 0)>> \o more, Rest(bs, 4), vals)
                 [] t.k = "map" /\ Len(bs) >= 4 ->
                      LET n == WordLen(bs)
                          n2 == IF n > MaxInt \div 2 THEN MaxInt ELSE 2 * n
                      IN Dm(<<Loop(<<t.a, t.d>>, n), Make("kv", n2, 0)>> \o more, Rest(bs, 4), vals)
                 [] t.k = "enum" /\ Len(bs) >= 4 ->
                      IF WordIsBig(bs) \/ WordNat31(bs) >= Len(t.vs) THEN DmErr({"Convert", "Custom"})
                      ELSE LET i == WordNat31(bs)
                               ts == t.vs[i + 1].ts
                           IN Dm(Reads(ts) \o <<Make("i", Len(ts), i)>> \o more, Rest(bs, 4), vals)
                 [] OTHER ->
                      LET h == Dec(t, bs)
                      IN IF h.ok THEN Dm(more, h.r, <<h.v>> \o vals) ELSE DmErr(h.e)
=============================================================================
