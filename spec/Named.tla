-------------------------------- MODULE Named --------------------------------
(***************************************************************************)
(* States known by name.  Walking through the basis of a register in index *)
(* order, a name decides for every basis state - a tuple of levels -       *)
(* whether it takes part in the superposition; all that do have the same   *)
(* amplitude.  The number of members is known beforehand (CountOK), GHZ    *)
(* and W states are symmetric under exchanging equal qudits (SymmetryOK),  *)
(* and levels and indices denote each other (IndexOK).                     *)
(***************************************************************************)
EXTENDS QuditSem, Json, FiniteSets
CONSTANTS Registers
VARIABLES reg, name, at, members
nvars == <<reg, name, at, members>>

Names == {"ghz", "qudit-w-state", "embedded-w-state"}
Excited(x) == {k \in 1..Len(x) : x[k] # 0}
Member(nm, x) ==
  CASE nm = "ghz" -> \A k \in 1..Len(x) : x[k] = x[1]
    [] nm = "qudit-w-state" -> Cardinality(Excited(x)) = 1
    [] nm = "embedded-w-state" -> Cardinality(Excited(x)) = 1 /\ \A k \in Excited(x) : x[k] = 1

InitN == /\ reg \in {Registers[k] : k \in 1..Len(Registers)} /\ name \in Names
         /\ at = 1 /\ members = <<>>
Look == /\ at <= Prod(reg)
        /\ members' = IF Member(name, Digits(reg, at)) THEN Append(members, at) ELSE members
        /\ at' = at + 1 /\ UNCHANGED <<reg, name>>
Tell == /\ at = Prod(reg) + 1
        /\ PrintT("@@" \o ToJson([dims |-> reg, name |-> name, members |-> members, levels |-> [k \in 1..Len(members) |-> Digits(reg, members[k])]]))
        /\ at' = at + 1 /\ UNCHANGED <<reg, name, members>>
SpecN == InitN /\ [][Look \/ Tell]_nvars

Finished == at > Prod(reg)
MinDim == CHOOSE d \in {reg[k] : k \in 1..Len(reg)} : \A k \in 1..Len(reg) : d <= reg[k]
Total == FoldLeft(LAMBDA a, b : a + b, 0, reg)
CountOK == Finished => Len(members) = CASE name = "ghz" -> MinDim
                                         [] name = "qudit-w-state" -> Total - Len(reg)
                                         [] name = "embedded-w-state" -> Len(reg)
SymmetryOK == Finished => \A j, k \in 1..Len(reg) : reg[j] = reg[k] =>
                \A i \in 1..Len(members) :
                   LET x == Digits(reg, members[i])  y == [x EXCEPT ![j] = x[k], ![k] = x[j]] IN
                   \E h \in 1..Len(members) : members[h] = Index(reg, y)
IndexOK == at <= Prod(reg) => Index(reg, Digits(reg, at)) = at
=============================================================================
