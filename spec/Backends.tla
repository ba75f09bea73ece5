------------------------------ MODULE Backends ------------------------------
(***************************************************************************)
(* Backends and their options.  A history makes backends, sets options and *)
(* runs circuits on them.  An option given with a run holds for that run;  *)
(* otherwise the one given last when the backend was made or configured,   *)
(* otherwise its default.  Whether an option given with an earlier run     *)
(* stays is left open: the specification allows both.                      *)
(* A run with noise returns as many outcomes as shots asked, at least 50;  *)
(* without noise it returns none.  Backends do not share options, every    *)
(* job has an id of its own, and results of earlier jobs stay as they are. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen, MaxInst, Names, FieldSets
\* FieldSets: set of tuples of <<option, value>>

Opts == {"shots", "noise_model", "memory", "full_state_memory"}
Default(o) == CASE o = "shots" -> 50 [] o = "noise_model" -> 0 [] o = "memory" -> 0 [] o = "full_state_memory" -> 0
Unset == -1
Given(fs, o) == \E k \in 1..Len(fs) : fs[k][1] = o
Val(fs, o) == (CHOOSE k \in 1..Len(fs) : fs[k][1] = o)
Get(fs, o) == fs[Val(fs, o)][2]
Bad(fs) == \E k \in 1..Len(fs) : fs[k][1] \notin Opts

VARIABLES inst, jobs, log
vars == <<inst, jobs, log>>

Base(i, o) == IF inst[i].base[o] # Unset THEN inst[i].base[o] ELSE Default(o)
Allowed(i, fs, o) == IF Given(fs, o) THEN {Get(fs, o)}
                     ELSE {Base(i, o)} \cup (IF inst[i].ran[o] # Unset THEN {inst[i].ran[o]} ELSE {})
(* outcomes of a run: "refused", or the number of outcomes returned and what they are *)
Outcomes(i, fs) == {IF c[2] = 0 THEN [refused |-> FALSE, n |-> 0, full |-> 0]
                    ELSE IF c[1] < 50 THEN [refused |-> TRUE, n |-> 0, full |-> 0]
                    ELSE [refused |-> FALSE, n |-> c[1], full |-> c[3]] :
                    c \in Allowed(i, fs, "shots") \X Allowed(i, fs, "noise_model") \X Allowed(i, fs, "full_state_memory")}
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})

Room == Len(log) < MaxLen
New == /\ Room /\ Len(inst) < MaxInst
       /\ \E n \in Names, fs \in {f \in FieldSets : ~Bad(f)} :
            /\ inst' = Append(inst, [name |-> n, base |-> [o \in Opts |-> IF Given(fs, o) THEN Get(fs, o) ELSE Unset], ran |-> [o \in Opts |-> Unset]])
            /\ log' = Append(log, [op |-> "new", i |-> Len(inst), name |-> n, fields |-> fs])
       /\ UNCHANGED jobs
Set == /\ Room
       /\ \E i \in 1..Len(inst), fs \in FieldSets \ {<<>>} :
            /\ inst' = (IF Bad(fs) THEN inst
                        ELSE [inst EXCEPT ![i].base = [o \in Opts |-> IF Given(fs, o) THEN Get(fs, o) ELSE @[o]],
                                          ![i].ran = [o \in Opts |-> IF Given(fs, o) THEN Unset ELSE @[o]]])
            /\ log' = Append(log, [op |-> "set", i |-> i - 1, fields |-> fs, refused |-> Bad(fs),
                                   shows |-> IF Bad(fs) THEN <<>> ELSE fs])
       /\ UNCHANGED jobs
Run == /\ Room
       /\ \E i \in 1..Len(inst), fs \in {f \in FieldSets : ~Bad(f)} :
            /\ inst' = [inst EXCEPT ![i].ran = [o \in Opts |-> IF Given(fs, o) THEN Get(fs, o) ELSE @[o]]]
            /\ jobs' = Append(jobs, [i |-> i, out |-> Outcomes(i, fs)])
            /\ log' = Append(log, [op |-> "run", i |-> i - 1, fields |-> fs, outcomes |-> SetToSeq(Outcomes(i, fs))])
Emit == /\ Len(log) = MaxLen
        /\ PrintT("@@" \o ToJson([log |-> log]))
        /\ log' = Append(log, [op |-> "end"])
        /\ UNCHANGED <<inst, jobs>>
Init == inst = <<>> /\ jobs = <<>> /\ log = <<>>
Next == New \/ Set \/ Run \/ Emit
Spec == Init /\ [][Next]_vars

(* an option given with the run decides alone, and a run is possible in some way *)
Decided == \A j \in 1..Len(jobs) : jobs[j].out # {}
RunWins == [][\A i \in 1..Len(inst) : Run => (\A o \in Opts : Given(log'[Len(log')].fields, o) =>
                   Cardinality(Allowed(log'[Len(log')].i + 1, log'[Len(log')].fields, o)) = 1)]_vars
(* one backend's options are changed by actions on that backend only *)
Apart == [][\A i \in 1..Len(inst) : (inst'[i] # inst[i]) => log'[Len(log')].i = i - 1]_vars
=============================================================================
