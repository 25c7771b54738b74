------------------------------ MODULE TraceDefaults ------------------------------
(* The default values generated code makes: what was recorded of each (the type,  *)
(* its encoding, how Rust shows it) must be a value of the type.                  *)
EXTENDS MCHelp, IOUtils

Lines == ndJsonDeserialize(IOEnv.TRACE)
InitD == /\ n \in DOMAIN Lines
         /\ doc = Lines[n].doc /\ mode = Lines[n].mode /\ ty = Lines[n].ty /\ wire = Lines[n].x
         /\ fault = Nothing
SpecD == InitD /\ [][FALSE]_vars

\* a type whose values are infinite within the unfolding is not judged
Accepted == LET r == C!From(T, wire)
                text == Show(T, r.v)
            IN IF ~r.ok THEN "Deep" \in r.e
               ELSE /\ text = Lines[n].d
                    /\ C!Enc(T, r.v) = C!Ok(wire)
                    /\ IsEnum => text = Lowest(Items0)
Checked == Accepted \/ PrintT(ToJson([reject |-> n]))
=============================================================================
