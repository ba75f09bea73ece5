------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* The whole workflow around one circuit.  A program on a device goes      *)
(* through a route of steps: it is copied, written as text or to a file    *)
(* and read back, inverted twice, rewritten on its logical levels,         *)
(* compiled for the device at one of the levels of optimisation, rewritten *)
(* again, stripped of its idle phases, and run.  A route is judged step by *)
(* step: `keep` says in which sense the circuit at hand still has to be    *)
(* the program (operator / operator up to a phase / outcomes from |0..0>), *)
(* `at` whether its levels are logical or those of the device, `may` is    *)
(* what it may contain.                                                    *)
(***************************************************************************)
EXTENDS Device
CONSTANTS MinRoute, MaxRoute

VARIABLES route, keep, at, custom, goal, rr
pvars == <<vars, route, keep, at, custom, goal, rr>>

Steps == <<"O0", "O1", "O2", "custom-passes", "copy", "text", "file", "twice", "resynth", "loc", "loc-ada", "ent", "push-back", "push-front", "strip">>
Compile == {"O0", "O1", "O2", "custom-passes"}
(* what is left of the program by a step *)
Weaken(kp, s) == IF s = "strip" THEN "outcome"
                 ELSE IF kp = "operator" /\ s \in Compile \cup {"loc", "loc-ada", "ent"} THEN "phase" ELSE kp
Did(s) == \E i \in 1..Len(route) : route[i].step = s
Couplers == Cardinality({i \in 1..Len(prog) : Len(prog[i].q) + Len(prog[i].ctl) > 1})
Enabled2(s, kp, a, cu) ==
  /\ kp # "outcome"
  /\ s \in Compile => a = "logical"                  \* a placed circuit is not placed again
  /\ s \in {"loc", "loc-ada", "ent"} => a = "logical"
  /\ s \in {"loc", "loc-ada", "ent"} => ~Did(s)       \* each of them multiplies the gates: once is enough
  /\ s \in Compile \cup {"loc", "loc-ada"} => ~Did("ent") \/ (Couplers <= 1 /\ Prod(dims) <= 6)
  /\ s = "text" => ~cu                               \* text has no matrices of custom gates, files have
HasCustom == \E i \in 1..Len(prog) : prog[i].cus

InitP == InitSampled /\ route = <<>> /\ keep = "operator" /\ at = "logical" /\ custom = FALSE /\ goal = 0 /\ rr = 0
BuildP == StepSampled /\ UNCHANGED <<route, keep, at, custom, goal, rr>>
Ready == /\ phase = "run" /\ Len(prog) = len
         /\ phase' = "route" /\ custom' = HasCustom
         /\ rr' = InitRng(sid * 17 + 5) /\ goal' = MinRoute + (sid % (MaxRoute - MinRoute + 1))
         /\ UNCHANGED <<sid, rng, dims, prog, cols, pos, len, route, keep, at>>
NextSteps == SelectSeq(Steps, LAMBDA s : Enabled2(s, keep, at, custom))
Go == /\ phase = "route" /\ Len(route) < goal /\ NextSteps # <<>>
      /\ LET s == NextSteps[(RVal(NextRng(rr)) % Len(NextSteps)) + 1]
             kp == Weaken(keep, s)
             a == IF s \in Compile THEN "device" ELSE at
             \* resynthesis turns runs of local gates into custom gates, compiling decomposes everything on one or two lines
             cu == IF s = "resynth" THEN TRUE ELSE IF s \in Compile THEN FALSE ELSE custom
         IN /\ route' = Append(route, [step |-> s, keep |-> kp, at |-> a])
            /\ keep' = kp /\ at' = a /\ custom' = cu
      /\ rr' = NextRng(rr)
      /\ UNCHANGED <<vars, goal>>
EndP == /\ phase = "route" /\ (Len(route) = goal \/ NextSteps = <<>>)
        /\ phase' = "done"
        /\ LET dev == DeviceOf(sid, dims)  pc == Placed(dev, dims, cols) IN
           PrintT("@@" \o ToJson([id |-> sid, dims |-> dims, prog |-> prog, route |-> route,
              dev |-> [l \in 1..Len(dims) |-> [edges |-> dev[l].edges, place |-> dev[l].place, init |-> dev[l].init, phys |-> PhysEdges(dev[l])]],
              v |-> [i \in 1..Len(cols) |-> cols[i].v], s2 |-> [i \in 1..Len(cols) |-> cols[i].s2],
              pv |-> [i \in 1..Len(pc) |-> pc[i].v], ps |-> [i \in 1..Len(pc) |-> pc[i].s2]]))
        /\ UNCHANGED <<sid, rng, dims, prog, cols, pos, len, route, keep, at, custom, goal, rr>>
NextP == BuildP \/ Ready \/ Go \/ EndP
SpecP == InitP /\ [][NextP]_pvars

Rank(kp) == CASE kp = "operator" -> 0 [] kp = "phase" -> 1 [] kp = "outcome" -> 2
RouteOK == /\ \A i \in 1..(Len(route) - 1) : Rank(route[i].keep) <= Rank(route[i + 1].keep)
           /\ Cardinality({i \in 1..Len(route) : route[i].step \in Compile}) <= 1
           /\ \A i \in 1..Len(route) : (route[i].at = "device") = (\E j \in 1..i : route[j].step \in Compile)
           /\ \A i \in 1..Len(route) : route[i].keep = "outcome" => i = Len(route)
(* the outcome of the placed program from the place of |0..0>, read back through the placement, is the outcome of the program *)
ReadOK == (phase = "done") =>
  LET dev == DeviceOf(sid, dims)  p == PlaceIdx(dev, dims)  pc == Placed(dev, dims, cols)
      start == p[1]
  IN \A k \in 1..Len(p) : pc[start].v[p[k]] = cols[1].v[k]
=============================================================================
