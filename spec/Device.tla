------------------------------- MODULE Device -------------------------------
(***************************************************************************)
(* Programs on a device.  Every circuit line is an ion whose logical level *)
(* i is stored in the physical level place[i]; transitions are possible    *)
(* only along the edges of a connected level graph.  A compiled program    *)
(* acts on physical levels: it must realise the placed unitary             *)
(*        V |place(x)> = |place(U x)>                                      *)
(* and may rotate only pairs of physical levels joined by an edge.         *)
(* The devices are drawn per program by the same seeded generator.         *)
(***************************************************************************)
EXTENDS Programs

CONSTANTS Identity      \* TRUE: only devices with the identity placement

Unplace(p) == [k \in 1..Len(p) |-> (CHOOSE i \in 1..Len(p) : p[i] = k - 1) - 1]

(* a random spanning tree plus chords on the logical levels 0..d-1 *)
DrawLine(d, v) ==
  LET lab == Perm3(d, SubSeq(v, 1, 6))
      tree == [k \in 1..(d - 1) |-> <<lab[((v[6 + (k % 6)] + v[12]) % k) + 1] - 1, lab[k + 1] - 1>>]
      chords == SelectSeq([k \in 1..d |-> <<lab[k] - 1, lab[((k + 1) % d) + 1] - 1>>],
                          LAMBDA e : /\ e[1] # e[2]
                                     /\ \A j \in 1..(d - 1) : tree[j] # e /\ tree[j] # <<e[2], e[1]>>
                                     /\ (v[13] + 3 * e[1] + 5 * e[2]) % 4 = 0)
      pl == Perm3(d, SubSeq(v, 14, 19))
  IN [edges |-> tree \o chords,
      place |-> [k \in 1..d |-> IF Identity THEN k - 1 ELSE pl[k] - 1],
      init |-> v[20] % d]

DeviceOf(s, ds) == TLCEval(
  [l \in 1..Len(ds) |->
     LET rs == RSeq(InitRng(s * 31 + l), Draws)
     IN DrawLine(ds[l], [k \in 1..Draws |-> RVal(rs[k])])])

(* ------------------------------------------------------------------ placement *)
PlaceDigits(dev, ds, k) == LET x == Digits(ds, k) IN [l \in 1..Len(ds) |-> dev[l].place[x[l] + 1]]
PlaceIdx(dev, ds) == TLCEval([k \in 1..Prod(ds) |-> Index(ds, PlaceDigits(dev, ds, k))])
PhysEdges(line) == [j \in 1..Len(line.edges) |-> <<line.place[line.edges[j][1] + 1], line.place[line.edges[j][2] + 1]>>]

(* the placed unitary, as columns over the physical basis *)
Placed(dev, ds, cs) ==
  LET p == PlaceIdx(dev, ds)
      q == TLCEval([k \in 1..Len(p) |-> CHOOSE i \in 1..Len(p) : p[i] = k])
  IN TLCEval([k \in 1..Len(cs) |-> [cs[q[k]] EXCEPT !.v = [i \in 1..Len(p) |-> cs[q[k]].v[q[i]]]]])

(* ------------------------------------------------------------------ well-formedness of the drawn devices *)
RECURSIVE Grow(_, _)
Grow(es, S) == LET T == S \cup {es[j][2] : j \in {i \in 1..Len(es) : es[i][1] \in S}} \cup {es[j][1] : j \in {i \in 1..Len(es) : es[i][2] \in S}}
               IN IF T = S THEN S ELSE Grow(es, T)
Connected(line) == Grow(line.edges, {0}) = 0..(Len(line.place) - 1)
Bijective(p) == {p[k] : k \in 1..Len(p)} = 0..(Len(p) - 1)
DeviceOK == \A l \in 1..Len(dims) :
              LET line == DeviceOf(sid, dims)[l]
              IN /\ Connected(line) /\ Bijective(line.place) /\ line.init \in 0..(dims[l] - 1)
                 /\ Unplace(Unplace(line.place)) = line.place

(* ------------------------------------------------------------------ state machine *)
RecordD == LET dev == DeviceOf(sid, dims)
               pc == IF AllCols THEN Placed(dev, dims, cols) ELSE cols
           IN [id |-> sid, dims |-> dims, prog |-> prog,
               dev |-> [l \in 1..Len(dims) |-> [edges |-> dev[l].edges, place |-> dev[l].place, init |-> dev[l].init,
                                                phys |-> PhysEdges(dev[l])]],
               v |-> [k \in 1..Len(pc) |-> pc[k].v], s2 |-> [k \in 1..Len(pc) |-> pc[k].s2]]

FinishD == /\ phase = "run" /\ Len(prog) = len
           /\ (Emit => PrintT("@@" \o ToJson(RecordD)))
           /\ phase' = (IF Echo THEN "undo" ELSE "done")
           /\ pos' = len
           /\ UNCHANGED <<sid, rng, dims, prog, cols, len>>

NextD == StepSampled \/ FinishD \/ Undo \/ Home
SpecD == InitSampled /\ [][NextD]_vars

(* placing keeps norms and orthogonality *)
PlacedOK == (phase = "done" /\ AllCols) =>
              LET pc == Placed(DeviceOf(sid, dims), dims, cols)
              IN \A k \in 1..Len(pc) : IsNormalised(pc[k])
=============================================================================
