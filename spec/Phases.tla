------------------------------- MODULE Phases -------------------------------
(***************************************************************************)
(* The two passes that deal with local phases, as functions on programs.   *)
(*                                                                         *)
(* Push(p, back): in every run of uncontrolled rotations and virtual       *)
(* phases on one line, the phases travel to the front (back) or to the end *)
(* of the run, turning the axes of the rotations they pass.                *)
(* Strip(p): diagonal local gates that act before anything else happened   *)
(* to their line, or after everything else, are dropped.                   *)
(*                                                                         *)
(* TLC checks on every program drawn that Push keeps the whole operator    *)
(* exactly, that Strip keeps the outcome distribution from |0...0>, and    *)
(* that dropping only the leading phases keeps the state up to a phase.    *)
(***************************************************************************)
EXTENDS Programs

CanPush(op) == op.g \in {"rxy", "virtrz"} /\ op.ctl = <<>> /\ ~op.cus
Fresh(line, d) == [line |-> line, z |-> [k \in 1..d |-> 0], rots |-> <<>>]
NoRun == [line |-> -1, z |-> <<>>, rots |-> <<>>]
ModN(a) == ((a % N) + N) % N

Phase(run, k) == [g |-> "virtrz", q |-> <<run.line>>, p |-> <<k - 1, run.z[k]>>, dag |-> FALSE, ctl |-> <<>>, cus |-> FALSE]
(* a run of phases only never vanishes: it keeps its neighbours apart *)
PhasesOf(run) == SelectSeq([k \in 1..Len(run.z) |-> Phase(run, k)], LAMBDA op : op.p[2] # 0 \/ run.rots = <<>>)
Flush(run, back) == IF run.line = -1 THEN <<>>
                    ELSE IF back THEN PhasesOf(run) \o Reverse(run.rots) ELSE run.rots \o PhasesOf(run)

Absorb(run, op, back) ==
  LET sgn == IF op.dag THEN -1 ELSE 1 IN
  IF op.g = "virtrz" THEN [run EXCEPT !.z = [@ EXCEPT ![op.p[1] + 1] = ModN(@ + sgn * op.p[2])]]
  ELSE LET turn == run.z[Lo(op.p) + 1] - run.z[Hi(op.p) + 1]
           axis == ModN(IF back THEN op.p[4] + turn ELSE op.p[4] - turn)
       IN [run EXCEPT !.rots = Append(@, [op EXCEPT !.dag = FALSE, !.p = <<op.p[1], op.p[2], ModN(sgn * op.p[3]), axis>>])]

(* walk the program forwards (phases to the end) or backwards (phases to the front) *)
RECURSIVE Walk(_, _, _, _, _, _)
Walk(ds, p, i, run, out, back) ==
  LET join(a, b) == IF back THEN b \o a ELSE a \o b IN
  IF i = 0 \/ i > Len(p) THEN join(out, Flush(run, back))
  ELSE LET op == p[i]  nxt == IF back THEN i - 1 ELSE i + 1 IN
       IF ~CanPush(op) THEN Walk(ds, p, nxt, NoRun, join(join(out, Flush(run, back)), <<op>>), back)
       ELSE IF op.q[1] = run.line THEN Walk(ds, p, nxt, Absorb(run, op, back), out, back)
       ELSE Walk(ds, p, nxt, Absorb(Fresh(op.q[1], ds[op.q[1] + 1]), op, back), join(out, Flush(run, back)), back)
Push(ds, p, back) == Walk(ds, p, IF back THEN Len(p) ELSE 1, NoRun, <<>>, back)

(* ------------------------------------------------------------------ dropping phases *)
LinesOf(op) == {op.q[k] : k \in 1..Len(op.q)} \cup {op.ctl[k][1] : k \in 1..Len(op.ctl)}
IsPhase(op) == op.g \in {"rz", "virtrz", "z"} /\ op.ctl = <<>> /\ ~op.cus
(* indices kept when phases are dropped walking in the given order over indices order *)
RECURSIVE Keep(_, _, _, _)
Keep(p, order, seen, kept) ==
  IF order = <<>> THEN kept
  ELSE LET i == Head(order)  op == p[i] IN
       IF IsPhase(op) /\ op.q[1] \notin seen THEN Keep(p, Tail(order), seen, kept)
       ELSE Keep(p, Tail(order), seen \cup LinesOf(op), kept \cup {i})
Up(n) == [k \in 1..n |-> k]
Pick(p, S) == LET idx == SelectSeq(Up(Len(p)), LAMBDA i : i \in S) IN [k \in 1..Len(idx) |-> p[idx[k]]]
KeepLeading(p) == Keep(p, Up(Len(p)), {}, {})
KeepTrailing(p) == Keep(p, Reverse(Up(Len(p))), {}, {})
StripLeading(p) == Pick(p, KeepLeading(p))
StripTrailing(p) == Pick(p, KeepTrailing(p))
Strip(p) == StripTrailing(StripLeading(p))

(* ------------------------------------------------------------------ state machine: the one of Programs with a richer record *)
RunAllOps(ds, ops, cs) == FoldLeft(LAMBDA acc, op : ApplyAll(ds, op, acc), cs, ops)
FinishP == /\ phase = "run" /\ Len(prog) = len
           /\ (Emit => PrintT("@@" \o ToJson(Record @@ [back |-> Push(dims, prog, TRUE), fwd |-> Push(dims, prog, FALSE),
                                                        lead |-> StripLeading(prog), trail |-> StripTrailing(prog), both |-> Strip(prog)])))
           /\ phase' = "done" /\ pos' = len
           /\ UNCHANGED <<sid, rng, dims, prog, cols, len>>
NextP == StepSampled \/ FinishP
SpecP == InitSampled /\ [][NextP]_vars

(* ------------------------------------------------------------------ theorems checked on every drawn program *)
Same(us, ws) == \A k \in 1..Len(us) : SameState(us[k], ws[k])
PushOK == (phase = "done" /\ AllCols) => \A b \in BOOLEAN : Same(RunAllOps(dims, Push(dims, prog, b), InitCols(dims)), cols)
Prob(st, i) == RMul(st.v[i], RConj(st.v[i]))
SameDist(u, w) == \A i \in 1..Len(u.v) : RScale(w.s2, Prob(u, i)) = RScale(u.s2, Prob(w, i))
UpToPhase(u, w) == \A i, j \in 1..Len(u.v) : RScale(w.s2, RMul(u.v[i], RConj(u.v[j]))) = RScale(u.s2, RMul(w.v[i], RConj(w.v[j])))
StripOK == (phase = "done" /\ ~AllCols) =>
             LET fin(p) == RunAllOps(dims, p, InitCols(dims))[1] IN
             /\ SameDist(fin(Strip(prog)), cols[1])
             /\ SameDist(fin(StripTrailing(prog)), cols[1])
             /\ UpToPhase(fin(StripLeading(prog)), cols[1])
(* nothing that is left can still be dropped or pushed *)
NormalOK == phase = "done" =>
             /\ Strip(Strip(prog)) = Strip(prog)
             /\ Push(dims, Push(dims, prog, TRUE), TRUE) = Push(dims, prog, TRUE)
             /\ Push(dims, Push(dims, prog, FALSE), FALSE) = Push(dims, prog, FALSE)
=============================================================================
