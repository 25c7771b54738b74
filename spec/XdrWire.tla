------------------------------- MODULE XdrWire -------------------------------
(* The bytes of XDR (RFC 4506): words, 16-bit limbs, padding, UTF-8.          *)
(* TLC integers are 32-bit, so every number that may exceed a signed word is  *)
(* a sequence of 16-bit limbs, most significant first, in two's complement.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Byte == 0..255

MinInt == -2147483647 - 1
MaxInt == 2147483647

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

Rep(b, n) == [i \in 1..n |-> b]

\* ---- limbs and words -------------------------------------------------------
LimbBytes(l) == <<l \div 256, l % 256>>
LimbsBytes(ls) == Concat([i \in DOMAIN ls |-> LimbBytes(ls[i])])
BytesLimbs(bs) == [i \in 1..(Len(bs) \div 2) |-> bs[2 * i - 1] * 256 + bs[2 * i]]

\* two's complement word of an integer (sign extension of narrower ones)
NatWord(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
IntWord(n) == IF n >= 0
              THEN NatWord(n)
              ELSE LET m == NatWord(0 - (n + 1))
                   IN [i \in 1..4 |-> 255 - m[i]]

WordNat31(w) == w[1] * 16777216 + w[2] * 65536 + w[3] * 256 + w[4]
WordIsBig(w) == w[1] >= 128
\* the signed reading of a word
WordInt(w) == IF w[1] < 128
              THEN WordNat31(w)
              ELSE (0 - WordNat31([i \in 1..4 |-> 255 - w[i]])) - 1
\* a length: anything above 2^31-1 is as good as 2^31-1 (no input is that long)
WordLen(w) == IF WordIsBig(w) THEN MaxInt ELSE WordNat31(w)

\* ---- padding ---------------------------------------------------------------
PadLen(n) == (4 - (n % 4)) % 4
Pad(n) == Rep(0, PadLen(n))
LenWord(n) == NatWord(n)

\* ---- UTF-8 (RFC 3629) ------------------------------------------------------
IsScalar(c) == (c >= 0 /\ c <= 55295) \/ (c >= 57344 /\ c <= 1114111)
Utf8Char(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64),
         128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8(cs) == Concat([i \in DOMAIN cs |-> Utf8Char(cs[i])])

Cont(b) == b >= 128 /\ b <= 191
\* the number of bytes of the well-formed character at the head, 0 if there is none
Utf8Head(bs) ==
  LET n == Len(bs)
      b == bs[1]
  IN  IF b < 128 THEN 1
      ELSE IF b >= 194 /\ b <= 223
           THEN IF n >= 2 /\ Cont(bs[2]) THEN 2 ELSE 0
      ELSE IF b >= 224 /\ b <= 239
           THEN IF /\ n >= 3 /\ Cont(bs[2]) /\ Cont(bs[3])
                   /\ (b = 224 => bs[2] >= 160)
                   /\ (b = 237 => bs[2] <= 159)
                THEN 3 ELSE 0
      ELSE IF b >= 240 /\ b <= 244
           THEN IF /\ n >= 4 /\ Cont(bs[2]) /\ Cont(bs[3]) /\ Cont(bs[4])
                   /\ (b = 240 => bs[2] >= 144)
                   /\ (b = 244 => bs[2] <= 143)
                THEN 4 ELSE 0
      ELSE 0
RECURSIVE Utf8Ok(_)
Utf8Ok(bs) == \/ bs = <<>>
              \/ LET k == Utf8Head(bs)
                 IN k > 0 /\ Utf8Ok(SubSeq(bs, k + 1, Len(bs)))
=============================================================================
