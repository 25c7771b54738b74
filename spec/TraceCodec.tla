------------------------------ MODULE TraceCodec ------------------------------
(* Runs recorded from the real code, checked against the specification: every  *)
(* line must be a step the specification allows.  Rejected lines are printed.  *)
EXTENDS XdrCodec, Json, IOUtils

CONSTANT Chunk
Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
Init == i \in { j \in 1..Len(Lines) : j % Chunk = 1 }
Next == /\ i < Len(Lines) /\ i % Chunk # 0
        /\ i' = i + 1
Spec == Init /\ [][Next]_i

\* the classes the code may report where the specification says {...}
Same(c, e) == c \in e \/ (c = "Boom" /\ "Custom" \in e)

EncAllowed(l) ==
  LET r == Enc(l.t, l.v)
  IN IF l.ok THEN r.ok /\ r.b = l.b ELSE ~r.ok
DecAllowed(l) ==
  LET r == From(l.t, l.w)
  IN IF l.ok THEN /\ r.ok /\ r.v = l.v
                  /\ Enc(l.t, r.v) = Ok(l.b)
     ELSE /\ ~r.ok /\ Same(l.e, r.e)
          /\ l.e = "Trailing" => l.x = r.x
\* a map of the code forgets the order and the repetition of keys
DecMapAllowed(l) ==
  LET r == From(l.t, l.w)
  IN IF l.ok THEN r.ok ELSE ~r.ok
Allowed(l) == CASE l.p = "enc" -> EncAllowed(l)
                [] l.p = "dec" -> DecAllowed(l)
                [] l.p = "decmap" -> DecMapAllowed(l)
Checked == Allowed(Lines[i]) \/ PrintT(ToJson([reject |-> i]))
=============================================================================
