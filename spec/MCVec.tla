-------------------------------- MODULE MCVec --------------------------------
(* Macro-step model: build a value, encode it, let the wire be damaged, decode *)
(* what arrives.  Every reachable encoded/decoded state is printed and is      *)
(* replayed into the real to_bytes / from_bytes.                               *)
EXTENDS XdrUniverse, Json

CONSTANTS Universe,   \* "all" | "few" | "refused" | "far" | "wide" | "bomb" | "opaque" | "s32" | "enum" | "sour" | "ix" | "un"
          Depth,      \* how often an entry may be wrapped
          Faults,     \* subset of {"cut", "ext", "over", "byte", "none", "big"}
          Emitting    \* what to print: subset of {"enc", "dec"}

VARIABLES phase, ent, depth, pick, wire, fault, res
vars == <<phase, ent, depth, pick, wire, fault, res>>

None == [f |-> "none", a |-> 0, x |-> <<>>]
Leaves == CASE Universe = "all" -> AllLeaves [] Universe = "few" -> FewLeaves
            [] Universe = "refused" -> RefusedLeaves \cup ClaimLeaves [] Universe = "bomb" -> BombLeaves
            [] Universe = "opaque" -> OpaqueLeaves [] Universe = "s32" -> S32Leaves [] Universe = "enum" -> EnumUniverse
            [] Universe = "sour" -> SourLeaves [] Universe = "wide" -> WideLeaves [] Universe = "far" -> FarLeaves
            [] Universe = "ix" -> IxLeaves \cup IxInside [] Universe = "un" -> UnLeaves \cup UnInside

Init == /\ phase = "build" /\ ent \in Leaves /\ depth = 0 /\ pick = 0
        /\ wire = <<>> /\ fault = None /\ res = None

Build == /\ phase = "build" /\ depth < Depth
         /\ ent' \in Wrap(ent) \cup (IF depth = 0 /\ Depth > 1 THEN BigEnum(ent) ELSE {})
         /\ depth' = depth + 1
         /\ UNCHANGED <<phase, pick, wire, fault, res>>

\* the same type with failing parts that take no bytes instead
RECURSIVE Calm(_)
Calm(t) ==
  CASE t.k = "bomb" -> [k |-> "unit"]
    [] t.k \in {"opt", "newtype", "seq", "arr"} -> [t EXCEPT !.e = Calm(t.e)]
    [] t.k = "map" -> [t EXCEPT !.a = Calm(t.a), !.d = Calm(t.d)]
    [] t.k \in Products -> [t EXCEPT !.ts = [i \in DOMAIN t.ts |-> Calm(t.ts[i])]]
    [] t.k = "enum" -> [t EXCEPT !.vs = [i \in DOMAIN t.vs |->
                          [t.vs[i] EXCEPT !.ts = [j \in DOMAIN t.vs[i].ts |-> Calm(t.vs[i].ts[j])]]]]
    [] OTHER -> t

Encode == /\ phase = "build"
          /\ \E p \in 1..2 :
               LET r == Enc(ent.t, ent.vs[p])
               IN /\ pick' = p
                  /\ wire' = IF r.ok THEN r.b ELSE <<>>
                  /\ res' = r
          /\ phase' = "encoded"
          /\ UNCHANGED <<ent, depth, fault>>

Words == { IntWord(n) : n \in { 0, 1, 2, 3, 4, 5, 6, 127, 128, 129, 255, 256, 257, 258, 300, 511, 512, 32767, 32768,
                                32769, 65535, 65536, 65537, 131072, 16777216, 55296, 57343, 1114111, 1114112, MaxInt,
                                MinInt, MinInt + 1, -1, -2, -128, -129, -255, -256, -32768, -32769, -65536, -7, 70000 } }
SmallWords == { w \in Words : ~WordIsBig(w) /\ WordNat31(w) <= 300 }

F(f, a, x) == [f |-> f, a |-> a, x |-> x]
FaultSet(w0) ==
  LET n == Len(w0)
      ws == IF Hollow(ent.t) THEN SmallWords ELSE Words
  IN (IF "none" \in Faults THEN {None} ELSE {})
     \cup (IF "cut" \in Faults THEN { F("cut", k, <<>>) : k \in 0..(n - 1) } ELSE {})
     \cup (IF "ext" \in Faults THEN { F("ext", 0, Rep(b, k)) : b \in {0, 1, 255}, k \in {1, 2, 3, 4, 5, 7, 8, 12} } ELSE {})
     \cup (IF "over" \in Faults THEN { F("over", 4 * j, w) : j \in 0..((n \div 4) - 1), w \in ws } ELSE {})
     \cup (IF "byte" \in Faults THEN { F("over", j, <<b>>) : j \in 0..(n - 1), b \in {0, 1, 128, 191, 192, 224, 237, 240, 244, 255} } ELSE {})

Damaged(w, f) ==
  CASE f.f = "none" -> w
    [] f.f = "cut" -> Take(w, f.a)
    [] f.f = "ext" -> w \o f.x
    [] f.f = "over" -> Take(w, f.a) \o f.x \o Rest(w, f.a + Len(f.x))

\* A fault, then from_bytes on what is left of the wire.  A byte overwrite may
\* raise a count; hollow types are kept away from it.
Sendable == res.ok \/ Universe = "bomb"
Sent == IF Universe = "bomb" THEN Enc(Calm(ent.t), ent.vs[pick]).b ELSE wire
Decode == /\ phase = "encoded" /\ Sendable
          /\ \E f \in FaultSet(Sent) :
               /\ (f.f = "over" /\ Len(f.x) = 1) => ~Hollow(ent.t)
               /\ fault' = f
               /\ wire' = Damaged(Sent, f)
               /\ res' = From(ent.t, Damaged(Sent, f))
          /\ phase' = "decoded"
          /\ UNCHANGED <<ent, depth, pick>>

Next == Build \/ Encode \/ Decode
Spec == Init /\ [][Next]_vars

\* ---- properties of the specification ------------------------------------------
Val == ent.vs[pick]
Aligned == (phase = "encoded" /\ res.ok) => Len(wire) % 4 = 0
RoundTrip == (phase = "decoded" /\ fault = None /\ Universe \notin {"bomb", "refused", "far"}) => res = [ok |-> TRUE, v |-> Val]
PrefixRefused == (phase = "decoded" /\ fault.f = "cut" /\ Universe # "bomb") => (~res.ok /\ "NotEnough" \in res.e)
ExtRefused == (phase = "decoded" /\ fault.f = "ext" /\ Universe # "bomb") => (~res.ok /\ res.e = {"Trailing"} /\ res.x = Len(fault.x))
\* C05: what was accepted, encoded again, is what arrived, up to the tolerances
RECURSIVE Exact(_)
Exact(t) == CASE t.k \in {"bool", "opt", "str", "bytes", "ovar", "ofix"} -> FALSE
              [] t.k \in {"newtype", "arr", "seq"} -> Exact(t.e)
              [] t.k = "map" -> Exact(t.a) /\ Exact(t.d)
              [] t.k \in Products -> \A i \in DOMAIN t.ts : Exact(t.ts[i])
              [] t.k = "un" -> Exact(t.d) /\ \A i \in DOMAIN t.vs : \A j \in DOMAIN t.vs[i].ts : Exact(t.vs[i].ts[j])
              [] t.k \in {"enum", "ix"} -> \A i \in DOMAIN t.vs : \A j \in DOMAIN t.vs[i].ts : Exact(t.vs[i].ts[j])
              [] OTHER -> TRUE
Faithful == (phase = "decoded" /\ res.ok) =>
              LET r == Enc(ent.t, res.v)
              IN r.ok /\ Len(r.b) = Len(wire) /\ (Exact(ent.t) => r.b = wire)
\* C11: with a failing part reached the whole fails with that failure
RECURSIVE Reached(_, _)
Reached(t, v) ==
  CASE t.k = "bomb" -> TRUE
    [] t.k = "opt" -> v.o # <<>> /\ Reached(t.e, v.o[1])
    [] t.k = "newtype" -> Reached(t.e, v)
    [] t.k \in {"seq", "arr"} -> \E i \in DOMAIN v.xs : Reached(t.e, v.xs[i])
    [] t.k = "map" -> \E i \in DOMAIN v.kv : Reached(t.a, v.kv[i][1]) \/ Reached(t.d, v.kv[i][2])
    [] t.k \in Products -> \E i \in DOMAIN t.ts : Reached(t.ts[i], v.xs[i])
    [] t.k = "enum" -> \E j \in DOMAIN v.xs : Reached(t.vs[v.i + 1].ts[j], v.xs[j])
    [] OTHER -> FALSE
BombWins == (Universe = "bomb" /\ (phase = "encoded" \/ fault = None) /\ phase # "build") =>
              IF Reached(ent.t, Val) THEN ~res.ok /\ res.e = {"Custom"} ELSE res.ok
Inv == Aligned /\ RoundTrip /\ PrefixRefused /\ ExtRefused /\ Faithful /\ BombWins

\* ---- emission -----------------------------------------------------------------
EncLine == [p |-> "enc", t |-> ent.t, v |-> Val, r |-> res]
DecLine == [p |-> "dec", t |-> ent.t, f |-> fault.f, w |-> wire, r |-> res]
Emit == /\ (phase = "encoded" /\ "enc" \in Emitting) => PrintT(ToJson(EncLine))
        /\ (phase = "decoded" /\ "dec" \in Emitting) => PrintT(ToJson(DecLine))
=============================================================================
