------------------------------ MODULE LevelBook ------------------------------
(***************************************************************************)
(* A level graph as a book about a fixed machine.  The machine: physical   *)
(* levels, couplings between them with a sensitivity, one physical level   *)
(* the ion is initialised in.  The book: logical labels, a placement of    *)
(* the labels on the physical levels, edges between labels, a mark for the *)
(* initial label, a pending phase per label.                               *)
(* Swap relabels (both labels take over everything the other stood for),   *)
(* Phase adds a pending phase, Trade exchanges only the pending phases.    *)
(* Whatever is done, the book describes the same machine.                  *)
(***************************************************************************)
EXTENDS Device
CONSTANTS Steps
VARIABLES place, edges, init, ph, acts, log
gvars == <<vars, place, edges, init, ph, acts, log>>

D == dims[1]
Labels == 0..(D - 1)
Start == DeviceOf(sid, dims)[1]
Sens(e) == 1 + ((e[1] * 3 + e[2]) % 4)
Ends(e) == {e[1], e[2]}
(* a coupling named twice counts as it is named last *)
StartEdges == {<<Start.edges[i][1], Start.edges[i][2], Sens(Start.edges[i])>> :
               i \in {j \in 1..Len(Start.edges) : \A h \in (j + 1)..Len(Start.edges) : Ends(Start.edges[h]) # Ends(Start.edges[j])}}
Norm(e) == IF e[1] < e[2] THEN e ELSE <<e[2], e[1], e[3]>>

InitG == /\ InitSampled
         /\ place = Start.place
         /\ edges = {Norm(e) : e \in StartEdges}
         /\ init = Start.init
         /\ ph = [i \in 1..D |-> 0]
         /\ acts = <<>> /\ log = <<>>

At(p, i) == p[i + 1]
Other(a, b, x) == IF x = a THEN b ELSE IF x = b THEN a ELSE x
(* distances by breadth first search *)
Adj(x) == {e[2] : e \in {f \in edges : f[1] = x}} \cup {e[1] : e \in {f \in edges : f[2] = x}}
RECURSIVE Wave(_, _, _)
Wave(S, y, n) == IF y \in S \/ n > D THEN n ELSE Wave(S \cup UNION {Adj(x) : x \in S}, y, n + 1)
Dist(x, y) == Wave({x}, y, 0)
NodeCost(x) == LET es == {e \in edges : e[1] = x \/ e[2] = x} IN
               FoldLeft(LAMBDA acc, e : acc + e[3], 0, SetToSeq(es))

(* what can be seen of the book *)
View == [place |-> place, edges |-> SetToSeq(edges), init |-> init, ph |-> ph,
         dist |-> [x \in 1..D |-> [y \in 1..D |-> Dist(x - 1, y - 1)]], cost |-> [x \in 1..D |-> NodeCost(x - 1)]]

Draw(i) == RVal(RSeq(rng, Draws)[i])
Note(a) == /\ acts' = Append(acts, a)
           /\ log' = Append(log, View)
           /\ rng' = NextRng(rng)
           /\ UNCHANGED <<sid, dims, prog, cols, phase, pos, len>>
TwoLabels == LET a == Draw(1) % D IN <<a, (a + 1 + (Draw(2) % (D - 1))) % D>>
Swapping == LET ab == TwoLabels  a == ab[1]  b == ab[2] IN
        /\ place' = [i \in 1..D |-> At(place, Other(a, b, i - 1))]
        /\ ph' = [i \in 1..D |-> At(ph, Other(a, b, i - 1))]
        /\ init' = Other(a, b, init)
        /\ edges' = {Norm(<<Other(a, b, e[1]), Other(a, b, e[2]), e[3]>>) : e \in edges}
        /\ Note(<<"swap", a, b>>)
(* a phase is a real number: adding a negative one is not the same act as adding its complement *)
AddPhase == LET l == Draw(1) % D  u == 1 + (Draw(2) % (N - 1))  q == IF Draw(3) % 2 = 0 THEN u ELSE u - N IN
         /\ ph' = [ph EXCEPT ![l + 1] = ((@ + q) + N) % N]
         /\ UNCHANGED <<place, edges, init>>
         /\ Note(<<"phase", l, q>>)
Trade == LET ab == TwoLabels  a == ab[1]  b == ab[2] IN
         /\ ph' = [i \in 1..D |-> At(ph, Other(a, b, i - 1))]
         /\ UNCHANGED <<place, edges, init>>
         /\ Note(<<"trade", a, b>>)
Busy == Len(acts) < Steps
NextG == \/ (Busy /\ Draw(5) % 5 \in {0, 1} /\ Swapping)
         \/ (Busy /\ Draw(5) % 5 \in {2, 3} /\ AddPhase)
         \/ (Busy /\ Draw(5) % 5 = 4 /\ Trade)
         \/ /\ ~Busy /\ phase = "run"
            /\ PrintT("@@" \o ToJson([id |-> sid, d |-> D, line |-> Start, acts |-> acts, log |-> Append(log, View)]))
            /\ phase' = "done"
            /\ UNCHANGED <<sid, rng, dims, prog, cols, pos, len, place, edges, init, ph, acts, log>>
SpecG == InitG /\ [][NextG]_gvars

(* the machine described never changes *)
Phys(e) == {At(place, e[1]), At(place, e[2])}
PhysEdgesNow == {<<Phys(e), e[3]>> : e \in edges}
PhysEdgesThen == {<<{At(Start.place, e[1]), At(Start.place, e[2])}, e[3]>> : e \in StartEdges}
MachineOK == /\ Bijective(place)
             /\ PhysEdgesNow = PhysEdgesThen
             /\ Cardinality(edges) = Cardinality(StartEdges)
             /\ At(place, init) = At(Start.place, Start.init)
(* distance is a metric, and only between levels: it does not depend on the labels *)
MetricOK == \A x, y, z \in Labels : /\ (Dist(x, y) = 0) = (x = y)
                                    /\ Dist(x, y) = Dist(y, x)
                                    /\ Dist(x, z) <= Dist(x, y) + Dist(y, z)
                                    /\ Dist(x, y) < D
=============================================================================
