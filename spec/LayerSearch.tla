---------------------------- MODULE LayerSearch ----------------------------
(***************************************************************************)
(* The search for the number of layers.  The solver is an oracle: for each *)
(* number of layers it either reaches the tolerance, misses it, or runs    *)
(* out of time.  Every oracle over at most MaxL layers is an initial       *)
(* state.  The search bisects [0, lim]: a hit sends it to fewer layers and *)
(* becomes the best answer so far, anything else sends it to more.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxL, Outcomes
VARIABLES lim, oracle, low, high, best, seen, stage
vars == <<lim, oracle, low, high, best, seen, stage>>

Init == /\ lim \in 0..MaxL
        /\ oracle \in [0..lim -> Outcomes]
        /\ low = 0 /\ high = lim /\ best = -1 /\ seen = <<>> /\ stage = "search"
Mid == low + ((high - low) \div 2)
Probe == /\ stage = "search" /\ low <= high
         /\ seen' = Append(seen, Mid)
         /\ IF oracle[Mid] = "hit" THEN best' = Mid /\ high' = Mid - 1 /\ low' = low
            ELSE low' = Mid + 1 /\ UNCHANGED <<best, high>>
         /\ UNCHANGED <<lim, oracle, stage>>
Answer == /\ stage = "search" /\ low > high
          /\ PrintT("@@" \o ToJson([lim |-> lim, oracle |-> [i \in 1..(lim + 1) |-> oracle[i - 1]], seen |-> seen, best |-> best]))
          /\ stage' = "done"
          /\ UNCHANGED <<lim, oracle, low, high, best, seen>>
Next == Probe \/ Answer
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Hits == {i \in 0..lim : oracle[i] = "hit"}
Monotone == \A i \in Hits : i..lim \subseteq Hits
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Log2(_)
Log2(n) == IF n < 2 THEN 0 ELSE 1 + Log2(n \div 2)
(* an answer is always something the solver reached; with a monotone solver it is the least *)
SoundOK == best # -1 => best \in Hits
LeastOK == (stage = "done" /\ Monotone /\ Hits # {}) => best = Least(Hits)
(* never the same layer twice, and a logarithmic number of solver runs *)
CheapOK == /\ Cardinality({seen[i] : i \in 1..Len(seen)}) = Len(seen)
           /\ Len(seen) <= Log2(lim + 1) + 1
EmptyOK == (stage = "done" /\ best = -1 /\ Monotone) => Hits = {}
Answered == <>(stage = "done")
=============================================================================
