-------------------------------- MODULE Angles --------------------------------
(***************************************************************************)
(* Angles as the compilers reduce and price them, in units of pi/60 (odd   *)
(* numbers of units: no angle sits on the edge of a case).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Most
VARIABLES h, told
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Signed(s, x) == IF s < 0 THEN 0 - x ELSE x
Turn == 120
(* the remainder of a turn, on the side of zero the angle was *)
NewMod(x) == Signed(x, Abs(x) % Turn)
(* the same direction between minus pi and pi *)
PiMod(x) == LET r == NewMod(x) IN IF r > 60 THEN r - Turn ELSE IF r < 0 - 60 THEN r + Turn ELSE r
(* rotations repeat after two turns; a pulse too short to drive is driven two turns longer *)
Regulate(x) == LET r == Signed(x, Abs(x) % (2 * Turn)) IN IF Abs(r) < 12 THEN r + 2 * Turn ELSE r
(* prices in units of 1/60 of 1e-4 *)
PhiCost(x) == Abs(x)
ThetaCost(x) == 4 * Abs(x) + Abs(((Abs(x) + 15) % 30) - 15)

InitH == h \in {2 * i + 1 : i \in (0 - Most)..Most} /\ told = FALSE
Tell == ~told /\ told' = TRUE /\ UNCHANGED h
        /\ PrintT("@@" \o ToJson([h |-> h, newmod |-> NewMod(h), pimod |-> PiMod(h), regulate |-> Regulate(h), phi |-> PhiCost(h), theta |-> ThetaCost(h)]))
SpecH == InitH /\ [][Tell]_<<h, told>>
Congruent(x, y, m) == (x - y) % m = 0
AnglesOK == /\ Congruent(NewMod(h), h, Turn) /\ Abs(NewMod(h)) < Turn /\ (NewMod(h) < 0) = (h < 0)
            /\ Congruent(PiMod(h), h, Turn) /\ Abs(PiMod(h)) <= 60
            /\ Congruent(Regulate(h), h, 2 * Turn) /\ Abs(Regulate(h)) >= 12 /\ Abs(Regulate(h)) < 2 * Turn + 12
            /\ ThetaCost(h) >= 4 * PhiCost(h) /\ ThetaCost(0 - h) = ThetaCost(h)
=============================================================================
