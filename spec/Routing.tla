------------------------------- MODULE Routing -------------------------------
(***************************************************************************)
(* Rotating two levels of an ion that are not coupled.  A rotation between *)
(* the labels x and y needs their physical levels joined; pi pulses on     *)
(* couplings exchange what two physical levels hold until they are.        *)
(*                                                                         *)
(* The book: the place of every label and a pending phase per label.       *)
(* The hardware: the amplitudes on the physical levels, changed only by    *)
(* pulses (phases of any value) and rotations on couplings.                *)
(* BookOK: the hardware's state, its pending phases applied and read at    *)
(* the places of the book, is exactly the state of the logical program.    *)
(*                                                                         *)
(* SpecAny lets every coupling be pulsed at any time: no order of pulses   *)
(* joins two levels with fewer pulses than their distance less one.        *)
(***************************************************************************)
EXTENDS Device
VARIABLES place, ph, hw, route, acts
rvars == <<vars, place, ph, hw, route, acts>>

D == dims[1]
Labels == 0..(D - 1)
Line == DeviceOf(sid, dims)[1]
At(s, x) == s[x + 1]
Where(pl, x) == At(pl, x)
Holder(pl, p) == CHOOSE x \in Labels : At(pl, x) = p
ModN(a) == ((a % N) + N) % N

(* the machine: couplings between physical levels, distances, penalties *)
Couples == LET e == PhysEdges(Line) IN {{e[j][1], e[j][2]} : j \in 1..Len(e)}
Near(p) == {q \in Labels : {p, q} \in Couples /\ q # p}
RECURSIVE Reach(_, _, _)
Reach(S, q, n) == IF q \in S \/ n > D THEN n ELSE Reach(S \cup UNION {Near(p) : p \in S}, q, n + 1)
PDist(p, q) == Reach({p}, q, 0)
Home0 == At(Line.place, Line.init)
Least(a, b) == IF a < b THEN a ELSE b
Penalty(p, q) == Least(PDist(Home0, p), PDist(Home0, q)) + 1
(* costs in units of 1/(4 N) of 1e-4: four per pi, and the distance to the next half pi; very small angles cost four pi more *)
Dev(t) == LET r == ((t + N) % (2 * N)) - N IN IF r < 0 THEN 0 - r ELSE r
ThetaCost(a) == LET t == IF 80 * a < 4 * N THEN 16 * a + 16 * N ELSE 16 * a IN 4 * t + Dev(t)
PulseCost == ThetaCost(N \div 4)

(* ------------------------------------------------------------------ hardware *)
PhysOp(p, q, a, b) == [g |-> "rxy", q |-> <<0>>, p |-> <<p, q, a, b>>, dag |-> FALSE, ctl |-> <<>>, cus |-> FALSE]
Pending(x, k) == [g |-> "virtrz", q |-> <<0>>, p |-> <<x, k>>, dag |-> FALSE, ctl |-> <<>>, cus |-> FALSE]
RunOps(ops, cs) == FoldLeft(LAMBDA acc, op : ApplyAll(dims, op, acc), cs, ops)

(* ------------------------------------------------------------------ start *)
Draw(i) == RVal(RSeq(rng, Draws)[i])
Ph0(s, d) == LET rs == RSeq(InitRng(s * 17 + 5), Draws)
             IN [k \in 1..d |-> IF s % 3 = 0 THEN 0 ELSE RVal(rs[k]) % N]
InitR == \E s \in 1..NProg :
         LET ds == DimsList[(s % Len(DimsList)) + 1]
             d == ds[1]
             pl == DeviceOf(s, ds)[1].place
             start == Ph0(s, d) IN
         /\ sid = s /\ rng = InitRng(s) /\ dims = ds /\ prog = <<>>
         /\ phase = "run" /\ pos = 0
         /\ len = MinDepth + (RVal(InitRng(s)) % (Depth - MinDepth + 1))
         /\ place = pl /\ ph = start
         /\ cols = TLCEval(FoldLeft(LAMBDA acc, k : ApplyAll(ds, Pending(k - 1, start[k]), acc), [k \in 1..d |-> Basis(ds, k)], [k \in 1..d |-> k]))
         /\ hw = [k \in 1..d |-> Basis(ds, pl[k] + 1)]
         /\ route = <<>> /\ acts = <<>>

(* the rotation at hand is drawn once and stays until it is done *)
Choose == /\ phase = "run" /\ Len(prog) < len /\ route = <<>>
          /\ LET x == Draw(1) % D  y == (x + 1 + (Draw(2) % (D - 1))) % D IN
             route' = <<x, y, Draw(3) % N, Draw(4) % N>>
          /\ rng' = NextRng(rng)
          /\ UNCHANGED <<sid, dims, prog, cols, phase, pos, len, place, ph, hw, acts>>

(* a pi pulse on the coupling {p, q}, p < q, forwards or backwards, about any axis *)
Pulse(p, q, fwd, f) ==
  LET x == Holder(place, p)  y == Holder(place, q)
      quarter == IF fwd THEN N \div 4 ELSE 0 - (N \div 4) IN
  /\ place' = [place EXCEPT ![x + 1] = q, ![y + 1] = p]
  /\ ph' = [ph EXCEPT ![x + 1] = ModN(@ + f - quarter), ![y + 1] = ModN(@ - f - quarter)]
  /\ hw' = ApplyAll(dims, PhysOp(p, q, IF fwd THEN N \div 4 ELSE 3 * (N \div 4), f), hw)
  /\ acts' = Append(acts, [do |-> "pulse", p |-> p, q |-> q, fwd |-> fwd, f |-> f, labels |-> <<x, y>>, place |-> place', ph |-> ph'])

Step1(x, y) == LET p == Where(place, x)  q == Where(place, y) IN {r \in Near(q) : PDist(r, p) < PDist(q, p)}
Travel == /\ phase = "run" /\ route # <<>>
          /\ PDist(Where(place, route[1]), Where(place, route[2])) > 1
          /\ LET q == Where(place, route[2])
                 r == SortSeq2(SetToSeq(Step1(route[1], route[2])))[(Draw(5) % Cardinality(Step1(route[1], route[2]))) + 1]
             IN Pulse(Least(q, r), q + r - Least(q, r), Draw(6) % 3 # 0, Draw(7) % N)
          /\ rng' = NextRng(rng)
          /\ UNCHANGED <<sid, dims, prog, cols, phase, pos, len, route>>

(* the axis on the hardware: pending phases moved out of the way, direction by the order of the physical levels *)
Axis(x, y, b) == LET lo == Least(x, y)  hi == x + y - lo
                     turned == b - At(ph, lo) + At(ph, hi) IN
                 ModN(IF Where(place, lo) < Where(place, hi) THEN turned ELSE 0 - turned)
Rotate == /\ phase = "run" /\ route # <<>>
          /\ LET x == route[1]  y == route[2]  p == Where(place, x)  q == Where(place, y) IN
             /\ PDist(p, q) = 1
             /\ hw' = ApplyAll(dims, PhysOp(Least(p, q), p + q - Least(p, q), route[3], Axis(x, y, route[4])), hw)
             /\ Do([g |-> "rxy", q |-> <<0>>, p |-> route, dag |-> FALSE, ctl |-> <<>>, cus |-> FALSE])
             /\ acts' = Append(acts, [do |-> "rotate", p |-> p, q |-> q, f |-> Axis(x, y, route[4]), labels |-> <<x, y>>, place |-> place, ph |-> ph,
                                      a |-> route[3], b |-> route[4]])
          /\ route' = <<>> /\ rng' = NextRng(rng)
          /\ UNCHANGED <<sid, dims, phase, pos, len, place, ph>>

FinishR == /\ phase = "run" /\ Len(prog) = len
           /\ LET r == prog[1].p  p == At(Line.place, r[1])  q == At(Line.place, r[2]) IN
              PrintT("@@" \o ToJson([id |-> sid, d |-> D, line |-> Line, couples |-> PhysEdges(Line), ph |-> Ph0(sid, D),
                 rots |-> [k \in 1..Len(prog) |-> prog[k].p], acts |-> acts,
                 dist |-> PDist(p, q), angle |-> ThetaCost(r[3]), pulse |-> PulseCost,
                 pen |-> [i \in 1..D |-> [j \in 1..D |-> IF i = j THEN 0 ELSE Penalty(i - 1, j - 1)]],
                 v |-> [k \in 1..Len(cols) |-> cols[k].v], s2 |-> [k \in 1..Len(cols) |-> cols[k].s2]]))
           /\ phase' = "done"
           /\ UNCHANGED <<sid, rng, dims, prog, cols, pos, len, place, ph, hw, route, acts>>
NextR == Choose \/ Travel \/ Rotate \/ FinishR
SpecR == InitR /\ [][NextR]_rvars

(* what the hardware holds, read by the book, is what the program says *)
ReadBy(pl, h) == [h EXCEPT !.v = [k \in 1..D |-> h.v[pl[k] + 1]]]
BookOK == \A k \in 1..D : LET seen == RunOps([x \in 1..D |-> Pending(x - 1, ph[x])], <<ReadBy(place, hw[k])>>)[1]
                          IN SameState(seen, cols[k])
PlacesOK == Bijective(place)
(* every act is one the machine offers *)
OfferedOK == \A i \in 1..Len(acts) : {acts[i].p, acts[i].q} \in Couples

(* ------------------------------------------------------------------ any pulses at all *)
InitAny == \E s \in 1..NProg :
           LET ds == DimsList[(s % Len(DimsList)) + 1] IN
           /\ sid = s /\ rng = <<0, 0>> /\ dims = ds /\ prog = <<>> /\ phase = "run" /\ pos = 0 /\ len = 0
           /\ place = DeviceOf(s, ds)[1].place /\ ph = <<>> /\ cols = <<>> /\ hw = <<>> /\ route = <<>> /\ acts = <<>>
AnyPulse == /\ pos < Depth
            /\ \E e \in Couples : LET p == CHOOSE z \in e : \A w \in e : z <= w  q == CHOOSE z \in e : z # p IN
               place' = [k \in 1..D |-> IF place[k] = p THEN q ELSE IF place[k] = q THEN p ELSE place[k]]
            /\ pos' = pos + 1
            /\ UNCHANGED <<sid, rng, dims, prog, cols, phase, len, ph, hw, route, acts>>
SpecAny == InitAny /\ [][AnyPulse]_rvars
FewestOK == \A x, y \in Labels : x # y => PDist(Where(place, x), Where(place, y)) + pos >= PDist(At(Line.place, x), At(Line.place, y))
=============================================================================
