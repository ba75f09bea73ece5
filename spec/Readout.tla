------------------------------ MODULE Readout ------------------------------
(***************************************************************************)
(* What is read out of a finished run.                                     *)
(*  - the reduced state of every set of lines (the rest is summed over);   *)
(*  - a list of measured outcomes, its histogram and its marginals;        *)
(*  - the same on a device: logical outcome x is stored in place(x), so    *)
(*    amplitudes and counts of the physical register are relabelled, and   *)
(*    reading them back undoes the relabelling.                            *)
(***************************************************************************)
EXTENDS Device

CONSTANTS KeepMax,        \* largest dimension of a reduced state
          Shots           \* number of outcomes in the drawn list

Pick(ls, ds) == [i \in 1..Len(ls) |-> ds[ls[i] + 1]]
Keeps(ds) == {ls \in {SelectSeq([i \in 1..Len(ds) |-> i - 1], LAMBDA x : x \in S) : S \in (SUBSET (0..Len(ds) - 1) \ {{}})} :
                 Prod(Pick(ls, ds)) <= KeepMax}
Rest(ds, ls) == Others(Len(ds), ls)

(* global index of the levels a on the lines ls and b on the others *)
Pos(x, s) == CHOOSE i \in 1..Len(s) : s[i] = x
Glue(ds, ls, a, rs, b) == Index(ds, [m \in 1..Len(ds) |-> IF \E i \in 1..Len(ls) : ls[i] = m - 1 THEN a[Pos(m - 1, ls)] ELSE b[Pos(m - 1, rs)]])
Fibre(ds, ls) == LET rs == Rest(ds, ls)  kd == Pick(ls, ds)  rd == Pick(rs, ds) IN
                 TLCEval([i \in 1..Prod(kd) |-> [r \in 1..Prod(rd) |-> Glue(ds, ls, Digits(kd, i), rs, Digits(rd, r))]])

(* <i| reduced state |j>, times the squared scale of the state *)
Overlap(v, p, q) == FoldLeft(LAMBDA acc, r : IF v[p[r]] = RZero \/ v[q[r]] = RZero THEN acc ELSE RAdd(acc, RMul(v[p[r]], RConj(v[q[r]]))),
                             RZero, [r \in 1..Len(p) |-> r])
Reduced(ds, v, ls) == LET f == Fibre(ds, ls) IN
                      TLCEval([i \in 1..Len(f) |-> TLCEval([j \in 1..Len(f) |-> Overlap(v, f[i], f[j])])])
Trace(m) == FoldLeft(LAMBDA acc, i : RAdd(acc, m[i][i]), RZero, [i \in 1..Len(m) |-> i])

(* outcomes: drawn indices 1..Prod(ds); a few are drawn often *)
Outcomes(s, ds) == LET rs == RSeq(InitRng(s * 53 + 7), Shots)
                       n == Prod(ds)
                   IN TLCEval([i \in 1..Shots |-> LET v == RVal(rs[i]) IN IF v % 3 = 0 THEN ((v \div 7) % n) + 1 ELSE ((s + ((v \div 7) % 3)) % n) + 1])
Hist(os, n) == TLCEval([x \in 1..n |-> Cardinality({i \in 1..Len(os) : os[i] = x})])
Marginal(ds, h, ls) == LET f == Fibre(ds, ls) IN [i \in 1..Len(f) |-> FoldLeft(LAMBDA acc, x : acc + h[x], 0, f[i])]

(* the physical register: amplitude (or count) of place(x) is that of x *)
OnDevice(p, seq) == [i \in 1..Len(p) |-> seq[CHOOSE x \in 1..Len(p) : p[x] = i]]
ReadBack(p, seq) == [x \in 1..Len(p) |-> seq[p[x]]]

RecordR ==
  LET dev == DeviceOf(sid, dims)
      p == PlaceIdx(dev, dims)
      os == Outcomes(sid, dims)
      h == Hist(os, Prod(dims))
      ks == SetToSeq(Keeps(dims))
  IN [id |-> sid, dims |-> dims, prog |-> prog,
      v |-> [k \in 1..Len(cols) |-> cols[k].v], s2 |-> [k \in 1..Len(cols) |-> cols[k].s2],
      place |-> [l \in 1..Len(dims) |-> dev[l].place],
      phys |-> OnDevice(p, cols[1].v),
      outcomes |-> [i \in 1..Len(os) |-> os[i] - 1],
      physoutcomes |-> [i \in 1..Len(os) |-> p[os[i]] - 1],
      hist |-> h,
      reduced |-> [k \in 1..Len(ks) |-> [keep |-> ks[k], m |-> Reduced(dims, cols[1].v, ks[k]), counts |-> Marginal(dims, h, ks[k])]]]

FinishR == /\ phase = "run" /\ Len(prog) = len
           /\ (Emit => PrintT("@@" \o ToJson(RecordR)))
           /\ phase' = "done" /\ pos' = len
           /\ UNCHANGED <<sid, rng, dims, prog, cols, len>>
NextR == StepSampled \/ FinishR
SpecR == InitSampled /\ [][NextR]_vars

(* every reduced state has trace one and is Hermitian; dropping one more line is a partial trace of it *)
Further(ds, ls, l) == SelectSeq(ls, LAMBDA x : x # l)
ReducedOK == phase = "done" =>
  \A ls \in Keeps(dims) :
    LET m == Reduced(dims, cols[1].v, ls) IN
    /\ Trace(m) = RInt(cols[1].s2)
    /\ \A i, j \in 1..Len(m) : m[j][i] = RConj(m[i][j])
    /\ Len(ls) = 2 =>
         LET kd == Pick(ls, dims)  one == Reduced(dims, cols[1].v, <<ls[1]>>) IN
         \A i, j \in 1..kd[1] :
           one[i][j] = FoldLeft(LAMBDA acc, r : RAdd(acc, m[(i - 1) * kd[2] + r][(j - 1) * kd[2] + r]), RZero, [r \in 1..kd[2] |-> r])
CountsOK == phase = "done" =>
  LET h == Hist(Outcomes(sid, dims), Prod(dims)) IN
  \A ls \in Keeps(dims) : FoldLeft(LAMBDA acc, x : acc + x, 0, Marginal(dims, h, ls)) = Shots
ReadBackOK == phase = "done" =>
  LET p == PlaceIdx(DeviceOf(sid, dims), dims) IN ReadBack(p, OnDevice(p, cols[1].v)) = cols[1].v
=============================================================================
