-------------------------------- MODULE Trail --------------------------------
(***************************************************************************)
(* Long programs on wide registers.                                        *)
(*                                                                         *)
(* Following every amplitude exactly stops at a few hundred basis states.  *)
(* Gates that permute basis states and turn their phases need less: a      *)
(* state that is an equal superposition of a few basis states stays one,   *)
(* and is followed as a set of branches, each a basis state (its digits)   *)
(* and a phase (an exponent of zeta_N).  So registers of a dozen qudits,   *)
(* dimensions of two digits and programs of a hundred gates are exact too. *)
(*                                                                         *)
(* A program first brings some lines into the superposition of all levels  *)
(* (h on |0>), then takes monomial gates: shifts, clocks, permutations,    *)
(* phases, pi rotations, controlled shifts and exchanges, light shifts and *)
(* custom monomial matrices, with controls and daggers; every fifth is     *)
(* one taken before with one thing about it changed, or nothing.           *)
(* HopOK ties every single step to the matrix entries of QuditSem.         *)
(* cols holds one record: v the sequence of <<digits, exponent>>, s2 their *)
(* number.                                                                 *)
(***************************************************************************)
EXTENDS Qasm, Device

CONSTANTS MaxBranch,  \* at most so many branches
          Text        \* TRUE: print the program and load it back (module Qasm)

E(x) == x % N
HalfN == N \div 2
QuarterN == N \div 4

(* where a basis state of the gate's own lines goes, and the exponent it picks up *)
Hop(g, p, ld, c) ==
  CASE g = "x" -> << <<(c[1] + 1) % ld[1]>>, 0>>
    [] g = "z" -> <<c, c[1] * (N \div ld[1])>>
    [] g = "s" -> <<c, IF ld[1] = 2 THEN c[1] * QuarterN ELSE TriMod(c[1], ld[1]) * (N \div ld[1])>>
    [] g = "pm" -> << <<p[c[1] + 1]>>, 0>>
    [] g = "rxy" -> IF c[1] = Lo(p) THEN << <<Hi(p)>>, E(p[3] + p[4] + HalfN)>>
                    ELSE IF c[1] = Hi(p) THEN << <<Lo(p)>>, E(p[3] - p[4] + HalfN)>> ELSE <<c, 0>>
    [] g = "rz" -> <<c, IF c[1] = Lo(p) THEN E(0 - p[3]) ELSE IF c[1] = Hi(p) THEN E(p[3]) ELSE 0>>
    [] g = "noisex" -> IF c[1] = Lo(p) THEN << <<Hi(p)>>, 0>> ELSE IF c[1] = Hi(p) THEN << <<Lo(p)>>, 0>> ELSE <<c, 0>>
    [] g = "noisey" -> IF c[1] = Lo(p) THEN << <<Hi(p)>>, QuarterN>>
                       ELSE IF c[1] = Hi(p) THEN << <<Lo(p)>>, HalfN + QuarterN>> ELSE <<c, 0>>
    [] g = "virtrz" -> <<c, IF c[1] = p[1] THEN E(0 - p[2]) ELSE 0>>
    [] g = "csum" -> << <<c[1], (c[1] + c[2]) % ld[2]>>, 0>>
    [] g = "cx" -> IF c[1] # p[3] THEN <<c, 0>>
                   ELSE IF c[2] = p[1] THEN << <<c[1], p[2]>>, E(p[4] - QuarterN)>>
                   ELSE IF c[2] = p[2] THEN << <<c[1], p[1]>>, E(0 - p[4] - QuarterN)>> ELSE <<c, 0>>
    [] g = "ls" -> <<c, IF c[1] = c[2] THEN E(0 - p[1]) ELSE 0>>
    [] g = "mono" -> LET i == Index(ld, c) IN <<Digits(ld, p[1][i]), E(p[2][i])>>

(* which basis state goes to r *)
From(g, p, ld, r) ==
  CASE g = "x" -> <<(r[1] + ld[1] - 1) % ld[1]>>
    [] g = "pm" -> <<(CHOOSE k \in 1..ld[1] : p[k] = r[1]) - 1>>
    [] g = "csum" -> <<r[1], (r[2] + ld[1] * ld[2] - r[1]) % ld[2]>>
    [] g = "mono" -> Digits(ld, CHOOSE k \in 1..Prod(ld) : p[1][k] = Index(ld, r))
    [] OTHER -> Hop(g, p, ld, r)[1]
HopD(op, ld, c) == IF ~op.dag THEN Hop(op.g, op.p, ld, c)
                   ELSE LET b == From(op.g, op.p, ld, c) IN <<b, E(0 - Hop(op.g, op.p, ld, b)[2])>>

(* the same step read off the matrix entry: every term of the entry is this root of unity *)
TermExp(t) == E(t[2] + (IF t[1] < 0 THEN HalfN ELSE 0))
HopOK(op, ld, c) == LET h == HopD(op, ld, c)  ts == EntD(op, ld, h[1], c) IN
                    ts # <<>> /\ \A k \in 1..Len(ts) : TermExp(ts[k]) = h[2]

Move(ds, op, b) ==
  LET ld == LocalDims(ds, op)
      lc == [k \in 1..Len(op.q) |-> b[1][op.q[k] + 1]]
      h == HopD(op, ld, lc)
  IN IF ~CtlOK(op, b[1]) THEN b
     ELSE IF Assert(HopOK(op, ld, lc), <<"step differs from the matrix", op, ld, lc>>)
     THEN <<[m \in 1..Len(ds) |-> IF \E k \in 1..Len(op.q) : op.q[k] + 1 = m
                                  THEN h[1][CHOOSE k \in 1..Len(op.q) : op.q[k] + 1 = m] ELSE b[1][m]], E(b[2] + h[2])>>
     ELSE b
MoveAll(ds, op, bs) == [k \in 1..Len(bs) |-> Move(ds, op, bs[k])]

(* rotations by an odd multiple of pi permute *)
Mono(op) == IF op.g = "rxy" THEN [op EXCEPT !.p = <<op.p[1], op.p[2], IF op.p[3] % 2 = 0 THEN QuarterN ELSE 3 * QuarterN, op.p[4]>>]
            ELSE op

(* the lines that are spread: taken in turn while the branches stay few *)
RECURSIVE Spreads(_, _, _, _, _)
Spreads(ds, at, n, room, acc) ==
  IF n = 0 THEN acc
  ELSE LET l == at % Len(ds)  d == ds[l + 1] IN
       IF d <= room THEN Spreads(ds, l + 1, n - 1, room \div d, Append(acc, l)) ELSE Spreads(ds, l + 1, n - 1, room, acc)
Spread(ds, r) == Spreads(ds, RVal(r), Len(ds), MaxBranch, <<>>)
H(l) == [g |-> "h", q |-> <<l>>, p |-> <<>>, dag |-> FALSE, ctl |-> <<>>, cus |-> FALSE]
Fan(ds, l, bs) == [k \in 1..(Len(bs) * ds[l + 1]) |->
                     LET b == bs[((k - 1) \div ds[l + 1]) + 1] IN <<[b[1] EXCEPT ![l + 1] = (k - 1) % ds[l + 1]], b[2]>>]

InitT == /\ \E s \in 1..NProg :
              LET ds == DimsList[(s % Len(DimsList)) + 1]  sp == Spread(ds, InitRng(s)) IN
              /\ sid = s /\ rng = InitRng(s) /\ dims = ds
              /\ prog = [k \in 1..Len(sp) |-> H(sp[k])]
              /\ cols = LET bs == FoldLeft(LAMBDA acc, l : Fan(ds, l, acc), << <<[m \in 1..Len(ds) |-> 0], 0>> >>, sp)
                        IN << [v |-> bs, s2 |-> Len(bs)] >>
              /\ phase = "run" /\ pos = 0
              /\ len = Len(sp) + MinDepth + (RVal(InitRng(s)) % (Depth - MinDepth + 1))
         /\ text = <<>> /\ pc = 0 /\ smap = <<>> /\ cmap = <<>> /\ gates = <<>> /\ incom = FALSE

(* now and then a gate that is almost one already taken: another control level, turned around, another angle, or the same again *)
Retake(ds, op, m, x) ==
  CASE m = 0 /\ op.ctl # <<>> -> LET j == (x % Len(op.ctl)) + 1  c == op.ctl[j] IN
                                  [op EXCEPT !.ctl[j] = <<c[1], (c[2] + 1) % ds[c[1] + 1]>>]
    [] m = 1 /\ DagPct > 0 -> [op EXCEPT !.dag = ~@]
    [] m = 2 /\ op.g \in {"virtrz", "rz", "ls", "cx", "rxy"} -> [op EXCEPT !.p[Len(op.p)] = (@ + 7) % N]
    [] m = 3 /\ Len(op.q) = 2 /\ op.g \in {"csum", "ls"} /\ ~op.cus /\ ds[op.q[1] + 1] = ds[op.q[2] + 1] -> [op EXCEPT !.q = <<op.q[2], op.q[1]>>]
    [] OTHER -> op
NextOp == LET u == RVal(NextRng(NextRng(rng)))  w == RVal(RStep(NextRng(NextRng(rng))))
              own == {k \in 1..Len(prog) : prog[k].g # "h"} IN
          IF own # {} /\ u % 100 < 20 THEN Retake(dims, prog[Len(prog) - (w % Cardinality(own))], (u \div 100) % 6, w \div 7) ELSE Mono(GenOp(dims, rng))

StepT == /\ phase = "run" /\ Len(prog) < len
         /\ LET op == NextOp IN
            /\ prog' = Append(prog, op)
            /\ cols' = << [v |-> MoveAll(dims, op, cols[1].v), s2 |-> cols[1].s2] >>
         /\ rng' = NextRng(rng)
         /\ UNCHANGED <<sid, dims, phase, pos, len, text, pc, smap, cmap, gates, incom>>

(* undone gate by gate: the daggered program in reverse order leads back to the spread state *)
UndoT == /\ phase = "undo" /\ pos > 0
         /\ IF prog[pos].g = "h" THEN UNCHANGED <<cols, pos>> /\ phase' = "home"
            ELSE /\ cols' = << [v |-> MoveAll(dims, Dagger(prog[pos]), cols[1].v), s2 |-> cols[1].s2] >>
                 /\ pos' = pos - 1 /\ UNCHANGED phase
         /\ UNCHANGED <<sid, rng, dims, prog, len, text, pc, smap, cmap, gates, incom>>
HomeT == /\ phase = "undo" /\ pos = 0 /\ phase' = "home"
         /\ UNCHANGED <<sid, rng, dims, prog, cols, pos, len, text, pc, smap, cmap, gates, incom>>

(* on a device of as many ions (module Device) the branches sit on the placed levels *)
RecordT == LET dev == DeviceOf(sid, dims) IN
           Record @@ [dev |-> [l \in 1..Len(dims) |-> [edges |-> dev[l].edges, place |-> dev[l].place, init |-> dev[l].init,
                                                        phys |-> PhysEdges(dev[l])]],
                      pv |-> [k \in 1..Len(cols[1].v) |-> <<[l \in 1..Len(dims) |-> dev[l].place[cols[1].v[k][1][l] + 1]], cols[1].v[k][2]>>]]
FinishT == /\ phase = "run" /\ Len(prog) = len
           /\ (Emit => PrintT("@@" \o ToJson(RecordT)))
           /\ phase' = (IF Echo THEN "undo" ELSE "done")
           /\ pos' = len
           /\ UNCHANGED <<sid, rng, dims, prog, cols, len>>

NextT == StepT
         \/ (~Text /\ FinishT /\ UNCHANGED <<text, pc, smap, cmap, gates, incom>>)
         \/ (~Text /\ (UndoT \/ HomeT))
         \/ (Text /\ (PrintStep \/ LoadStep))
SpecTrail == InitT /\ [][NextT]_qvars

(* different branches stay different *)
ApartOK == \A j, k \in 1..Len(cols[1].v) : j < k => cols[1].v[j][1] # cols[1].v[k][1]
DigitsOK == \A k \in 1..Len(cols[1].v) : \A m \in 1..Len(dims) : cols[1].v[k][1][m] \in 0..dims[m] - 1
HomeOK == phase = "home" => \A k \in 1..Len(cols[1].v) : cols[1].v[k][2] = 0
                            /\ \A m \in 1..Len(dims) : (\A j \in 1..Len(prog) : prog[j] # H(m - 1)) => cols[1].v[k][1][m] = 0
=============================================================================
