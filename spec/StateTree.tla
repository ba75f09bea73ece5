----------------------------- MODULE StateTree -----------------------------
(***************************************************************************)
(* Register states as decision trees with shared subtrees.                 *)
(* A tree for the last k qudits is a tuple, one entry per level of the     *)
(* k-th qudit from the end, of <<weight, phase, subtree>>: its vector is   *)
(*    sum over levels l of  weight_l * zeta^phase_l * |l> (x) subtree_l.   *)
(* Starting from the scalar 1, every step adds one qudit: a pool of Pool   *)
(* trees is drawn over the trees of the step before, so subtrees are       *)
(* shared, weights vanish, and a product state appears when all occupied   *)
(* levels have the same subtree.  The squared length of every tree is      *)
(* carried along as an integer; LengthOK ties it to the exact vector.      *)
(***************************************************************************)
EXTENDS Cyclo, Json

CONSTANTS NStates, Seed, DimsList, Pool, ZeroPct, SamePct, FlatPct, MaxWeight, Emit

VARIABLES sid, rng, draws, dims, depth, pool, next, phase
vars == <<sid, rng, draws, dims, depth, pool, next, phase>>

M1 == 46337
M2 == 46327
RStep(r) == << (31337 * r[1] + 17) % M1, (23011 * r[2] + 5) % M2 >>
RVal(r) == (r[1] + r[2] * 7) \div 3
RSeq(r, n) == FoldLeft(LAMBDA acc, i : Append(acc, RStep(IF acc = <<>> THEN r ELSE acc[Len(acc)])), <<>>, [i \in 1..n |-> i])
InitRng(s) == RStep(RStep(RStep(<< ((s % 19997) * 7919 + Seed * 1009 + 3) % M1, ((s % 19997) * 104729 + Seed * 331 + 11) % M2 >>)))

PerLevel == 4
DrawsFor(d) == 2 + PerLevel * d

Scalar == [tree |-> <<>>, vec |-> <<ROne>>, len2 |-> 1, kind |-> "scalar"]

(* one tree over the pool ps, for a qudit of dimension d, from the draws v *)
Branch(d, ps, v) ==
  LET same == (v[1] % 100) < SamePct
      flat == (v[2] % 100) < FlatPct
      at(l, j) == v[2 + (l - 1) * PerLevel + j]
      raw == [l \in 1..d |->
               [c |-> IF (at(l, 1) % 100) < ZeroPct THEN 0 ELSE IF flat THEN 1 ELSE 1 + (at(l, 2) % MaxWeight),
                e |-> IF flat THEN 0 ELSE at(l, 3) % N,
                s |-> IF same THEN (at(1, 4) % Len(ps)) + 1 ELSE (at(l, 4) % Len(ps)) + 1]]
      empty == \A l \in 1..d : raw[l].c = 0
      b == IF empty THEN [raw EXCEPT ![(v[1] % d) + 1].c = 1] ELSE raw
      size == Len(ps[1].vec)
  IN [tree |-> b,
      vec |-> [i \in 1..(d * size) |->
                 LET l == ((i - 1) \div size) + 1
                     j == ((i - 1) % size) + 1
                 IN IF b[l].c = 0 THEN RZero ELSE RScale(b[l].c, RRot(ps[b[l].s].vec[j], b[l].e))],
      len2 |-> FoldLeft(LAMBDA acc, l : acc + b[l].c * b[l].c * ps[b[l].s].len2, 0, [l \in 1..d |-> l]),
      kind |-> IF \A l, m \in 1..d : (b[l].c > 0 /\ b[m].c > 0) => b[l].s = b[m].s THEN "product" ELSE "entangled"]

Init == \E s \in 1..NStates :
          /\ sid = s /\ rng = InitRng(s) /\ dims = DimsList[(s % Len(DimsList)) + 1]
          /\ depth = 0 /\ pool = <<Scalar>> /\ next = <<>> /\ draws = <<>> /\ phase = "grow"

(* draw the numbers of one tree, then plant the tree; a full pool replaces the one before *)
Size == IF depth = Len(dims) - 1 THEN 1 ELSE Pool
D == dims[Len(dims) - depth]
Draw == /\ phase = "grow" /\ depth < Len(dims) /\ draws = <<>>
        /\ draws' = RSeq(rng, DrawsFor(D))
        /\ UNCHANGED <<sid, rng, dims, depth, pool, next, phase>>
Plant == /\ phase = "grow" /\ depth < Len(dims) /\ draws # <<>>
         /\ LET node == Branch(D, pool, [i \in 1..Len(draws) |-> RVal(draws[i])])
            IN IF Len(next) + 1 = Size THEN pool' = Append(next, node) /\ next' = <<>> /\ depth' = depth + 1
               ELSE pool' = pool /\ next' = Append(next, node) /\ depth' = depth
         /\ rng' = draws[Len(draws)] /\ draws' = <<>>
         /\ UNCHANGED <<sid, dims, phase>>

Root == pool[1]
Occupied(t) == Cardinality({i \in 1..Len(t.vec) : t.vec[i] # RZero})
Done == /\ phase = "grow" /\ depth = Len(dims)
        /\ phase' = "done"
        /\ (Emit => PrintT("@@" \o ToJson([id |-> sid, dims |-> dims, v |-> Root.vec, len2 |-> Root.len2,
                                             occupied |-> Occupied(Root), kind |-> Root.kind])))
        /\ UNCHANGED <<sid, rng, draws, dims, depth, pool, next>>

Next == Draw \/ Plant \/ Done
SpecT == Init /\ [][Next]_vars

(* the integer length is the length of the vector, and no tree is the zero vector *)
Norm2(v) == FoldLeft(LAMBDA acc, x : RAdd(acc, RMul(x, RConj(x))), RZero, v)
LengthOK == \A i \in 1..Len(pool) : Norm2(pool[i].vec) = RInt(pool[i].len2) /\ pool[i].len2 > 0
RingOK == CycloOK
=============================================================================
