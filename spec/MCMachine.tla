------------------------------ MODULE MCMachine ------------------------------
(* Small-step model: the serializer and the decoder as machines that make one  *)
(* call at a time, as ser.rs and de.rs do, with damage to the wire in between. *)
(* The invariants tie the machines to the denotations Enc and From that the    *)
(* vector model uses, so what is replayed into the code is what the machines   *)
(* do.                                                                         *)
EXTENDS XdrUniverse

CONSTANTS Full,     \* TRUE: every leaf wrapped once; FALSE: the few leaves only
          Zoo       \* TRUE: also the derived enums

VARIABLES ph,       \* "enc", "wire", "dec", "end"
          ent, pick,
          work, out, encerr,          \* serializer machine
          wire,                       \* what arrives
          m,                          \* decoder machine (a record, see Dm)
          res
vars == <<ph, ent, pick, work, out, encerr, wire, m, res>>

Entries == LET base == IF Full THEN AllLeaves \cup RefusedLeaves \cup BombLeaves
                       ELSE FewLeaves \cup BombLeaves
               zoo == { E(t, Samp(t, 1), Samp(t, 2)) : t \in IF Zoo THEN IxTypes \cup UnTypes \cup Mixed ELSE {} }
           IN base \cup zoo \cup UNION { Wrap(e) : e \in base }

Nothing == [ok |-> FALSE, e |-> {"Running"}, x |-> 0]

Init == /\ ph = "enc" /\ ent \in Entries /\ pick \in 1..2
        /\ work = <<Part(ent.t, ent.vs[pick])>> /\ out = <<>> /\ encerr = {}
        /\ wire = <<>> /\ m = Dm(<<>>, <<>>, <<>>) /\ res = Nothing

Composite == {"opt", "seq", "map", "enum", "newtype", "arr", "ix", "un"} \cup Products
\* one call on the serializer
EncCall == /\ ph = "enc" /\ work # <<>> /\ encerr = {}
           /\ LET p == Head(work)
                  leaf == Enc(p.t, p.v)
              IN IF p.t.k \notin Composite /\ ~leaf.ok
                 THEN /\ encerr' = leaf.e
                      /\ UNCHANGED <<out, work>>
                 ELSE /\ out' = out \o EncStepOut(p)
                      /\ work' = EncStepWork(p) \o Tail(work)
                      /\ UNCHANGED encerr
           /\ UNCHANGED <<ph, ent, pick, wire, m, res>>
EncDone == /\ ph = "enc" /\ work = <<>> /\ encerr = {}
           /\ ph' = "wire" /\ wire' = out
           /\ UNCHANGED <<ent, pick, work, out, encerr, m, res>>

Start(w) == /\ ph' = "dec" /\ wire' = w
            /\ m' = Dm(<<Read(ent.t)>>, w, <<>>)
            /\ UNCHANGED <<ent, pick, work, out, encerr, res>>
Deliver == ph = "wire" /\ Start(wire)
Truncate == /\ ph = "wire" /\ wire # <<>>
            /\ \E k \in {0, 1, Len(wire) \div 2, Len(wire) - 4, Len(wire) - 1} : k >= 0 /\ k < Len(wire) /\ Start(Take(wire, k))
Extend == ph = "wire" /\ \E k \in {1, 4} : Start(wire \o Rep(0, k))
Overwrite == /\ ph = "wire" /\ wire # <<>> /\ ~Hollow(ent.t)
             /\ \E j \in 0..((Len(wire) \div 4) - 1), w \in { IntWord(n) : n \in {0, 1, 7, 256, MaxInt, -1} } :
                  Start(Take(wire, 4 * j) \o w \o Rest(wire, 4 * j + 4))

\* one call on the deserializer
DecCall == /\ ph = "dec" /\ m.st = "run" /\ m.todo # <<>>
           /\ m' = DecStep(m.todo, m.bs, m.vals)
           /\ UNCHANGED <<ph, ent, pick, work, out, encerr, wire, res>>
\* from_bytes returns
DecDone == /\ ph = "dec" /\ (m.st = "err" \/ m.todo = <<>>)
           /\ ph' = "end"
           /\ res' = IF m.st = "err" THEN [ok |-> FALSE, e |-> m.e, x |-> 0]
                     ELSE IF m.bs # <<>> THEN [ok |-> FALSE, e |-> {"Trailing"}, x |-> Len(m.bs)]
                     ELSE [ok |-> TRUE, v |-> m.vals[1]]
           /\ UNCHANGED <<ent, pick, work, out, encerr, wire, m>>

Next == EncCall \/ EncDone \/ Deliver \/ Truncate \/ Extend \/ Overwrite \/ DecCall \/ DecDone
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Next)

\* ---- invariants -----------------------------------------------------------------
Aligned == Len(out) % 4 = 0
EncIsEnc == /\ ph # "enc" => Enc(ent.t, ent.vs[pick]) = Ok(out)
            /\ encerr # {} => Enc(ent.t, ent.vs[pick]) = Err(encerr)
DecIsFrom == ph = "end" => res = From(ent.t, wire)
Suffix == (ph = "dec" /\ m.st = "run") => \E k \in 0..Len(wire) : m.bs = Rest(wire, k)
RoundTrip == (ph = "end" /\ wire = out) => ((res.ok /\ res.v = ent.vs[pick]) \/ ent.t.k \in Refused)
NoShort == (ph = "end" /\ res.ok) => Len(wire) = Len(Enc(ent.t, res.v).b)
Inv == Aligned /\ EncIsEnc /\ DecIsFrom /\ Suffix /\ RoundTrip /\ NoShort
\* the output buffer only ever grows; the input only ever shrinks
AppendOnly == [][IsPrefix(out, out')]_vars
Forward == [][ph = "dec" /\ ph' = "dec" => Len(m'.bs) <= Len(m.bs)]_vars
\* C03: whatever arrives, decoding ends
Ends == (ph = "dec") ~> (ph = "end")
=============================================================================
