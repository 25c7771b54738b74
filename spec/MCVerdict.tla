------------------------------ MODULE MCVerdict ------------------------------
(* One value at one place of a specification, under every mode: whether code   *)
(* must be generated, must be refused, or may be either.  Every case is        *)
(* printed, to be put to the real generator.                                   *)
EXTENDS GenUniverse, Json

CONSTANTS Keeping,    \* typedefs kept as aliases, in every mode
          Alone       \* one mode only
VARIABLES place, value, mode, order
vars == <<place, value, mode, order>>

Modes == IF Alone THEN { [e |-> "std", u |-> "un", keep |-> FALSE] } ELSE { [e |-> e, u |-> u, keep |-> k] : e \in {"std", "ix", "gap"}, u \in {"un", "ix", "gap"}, k \in BOOLEAN } \ IF Keeping THEN {} ELSE { [e |-> e, u |-> u, keep |-> TRUE] : e \in {"ix", "gap"}, u \in {"un", "ix", "gap"} }
Kept0(i, v) == v = v /\ TLCSet(i, v)
ASSUME Kept0(1, TLCEval(Values))
Init == /\ place \in PlaceNames /\ value \in TLCGet(1) /\ order = 0 /\ mode = [e |-> "std", u |-> "un", keep |-> FALSE]
Chosen == order > 0
Choose == /\ ~Chosen
          /\ mode' \in Modes /\ order' \in 1..2
          /\ UNCHANGED <<place, value>>
Spec == Init /\ [][Choose]_vars

Defs == LET e == value.e
        IN IF order = 1 THEN e \o PlaceOf(place, value.v) ELSE PlaceOf(place, value.v) \o Reversed(e)
Bits(m) == (IF m.keep THEN 1 ELSE 0) + (IF m.e = "ix" THEN 2 ELSE IF m.e = "std" THEN 4 ELSE 0) + (IF m.u = "ix" THEN 8 ELSE IF m.u = "un" THEN 16 ELSE 0)
V == Verdict(Defs, mode)
\* the order of definitions, and where typedefs go, change no verdict about numbers
Orderless == Chosen => Verdict(Reversed(Defs), mode) = V
Known == Chosen => V \in {"ok", "err", "any"}
Emit == Chosen => PrintT(ToJson([x |-> Render(Bare(Words(Defs))), c |-> Bits(mode), m |-> V]))
=============================================================================
