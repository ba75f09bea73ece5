-------------------------------- MODULE Sweep --------------------------------
(***************************************************************************)
(* Every gate on a spread register.                                        *)
(*                                                                         *)
(* Sampled programs meet a particular level of a particular gate on a      *)
(* particular pair of dimensions only by luck.  Here a register is first   *)
(* spread: every basis state gets an amplitude, no two the same, using     *)
(* gates that exist in the ring on every dimension.  Then the state        *)
(* machine takes exactly one gate of the finite gate set of the register   *)
(* (every level, level pair, control level, line order and dagger), so a   *)
(* wrong entry anywhere in the matrix of any gate shows in the state.      *)
(***************************************************************************)
EXTENDS Programs

CONSTANTS Thin   \* take every Thin-th gate (by a sum over its data); 1: all of them

Gt(g, l, p) == [g |-> g, q |-> <<l>>, p |-> p, dag |-> FALSE, ctl |-> <<>>, cus |-> FALSE]
RECURSIVE SpreadLine(_, _, _)
SpreadLine(l, d, lev) == IF lev = d THEN <<>>
                         ELSE (IF lev < d - 1 THEN <<Gt("rh", l, <<lev, lev + 1>>)>> ELSE <<>>)
                              \o <<Gt("virtrz", l, <<lev, (1 + lev * (2 + 3 * l) + 6 * lev * lev * l) % N>>)>> \o SpreadLine(l, d, lev + 1)
RECURSIVE SpreadAll(_, _)
SpreadAll(ds, l) == IF l = Len(ds) THEN <<>> ELSE SpreadLine(l, ds[l + 1], 0) \o SpreadAll(ds, l + 1)

(* any number that differs between the gates of the set *)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Mark(op) == Sum(op.p) + 3 * op.q[1] + (IF op.dag THEN 1 ELSE 0)

InitSweep == \E s \in 1..Len(DimsList) :
               /\ sid = s /\ rng = <<0, 0>> /\ dims = DimsList[s] /\ prog = <<>> /\ cols = InitCols(DimsList[s])
               /\ phase = "spread" /\ pos = 0 /\ len = 0
Spread == /\ phase = "spread"
          /\ prog' = SpreadAll(dims, 0)
          /\ cols' = FoldLeft(LAMBDA c, op : ApplyAll(dims, op, c), cols, SpreadAll(dims, 0))
          /\ phase' = "run"
          /\ len' = Len(SpreadAll(dims, 0)) + 1
          /\ UNCHANGED <<sid, rng, dims, pos>>
Take == /\ phase = "run" /\ Len(prog) < len
        /\ \E op \in GateSet(dims) : Mark(op) % Thin = Seed % Thin /\ Do(op)
        /\ UNCHANGED <<sid, rng, dims, phase, pos, len>>
NextSweep == Spread \/ Take \/ Finish(len)
SpecSweep == InitSweep /\ [][NextSweep]_vars

(* the register is spread: no amplitude vanishes and no two are the same *)
SpreadOK == (phase = "run" /\ Len(prog) = len - 1) =>
              /\ \A k \in 1..Prod(dims) : cols[1].v[k] # RZero
              /\ \A j, k \in 1..Prod(dims) : j < k => cols[1].v[j] # cols[1].v[k]
=============================================================================
