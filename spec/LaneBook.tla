------------------------------ MODULE LaneBook ------------------------------
(***************************************************************************)
(* A circuit cut into lanes: the lane of a line is the subsequence of the  *)
(* gates on that line.  A run is a maximal stretch of local gates in a     *)
(* lane.  Merge replaces a stretch of a run by one gate, its product, in   *)
(* the place of its first gate.  The gates reassembled from the lanes are  *)
(* the circuit: same operator, every lane in its order.                    *)
(* A program may contain the same gate object twice (field `again`).       *)
(***************************************************************************)
EXTENDS Programs
CONSTANTS MaxMerge, AgainPct
VARIABLES again, items, merges, mlog
lvars == <<vars, again, items, merges, mlog>>

LinesOf(op) == {op.q[i] : i \in 1..Len(op.q)} \cup {op.ctl[i][1] : i \in 1..Len(op.ctl)}
Local(op) == Len(op.q) = 1 /\ op.ctl = <<>>
NumLines == Len(dims)

InitL == InitSampled /\ again = <<>> /\ items = <<>> /\ merges = 0 /\ mlog = <<>>
(* a gate of the program: a new one, or an earlier one once more *)
DrawOne == /\ phase = "run" /\ Len(prog) < len
           /\ LET rs == RSeq(NextRng(rng), 2) IN
              IF Len(prog) > 0 /\ RVal(rs[1]) % 100 < AgainPct
              THEN LET j == 1 + (RVal(rs[2]) % Len(prog)) IN
                   Do(prog[j]) /\ again' = Append(again, IF again[j] = 0 THEN j ELSE again[j])
              ELSE Do(GenOp(dims, rng)) /\ again' = Append(again, 0)
           /\ rng' = RStep(NextRng(rng))
           /\ UNCHANGED <<sid, dims, phase, pos, len, items, merges, mlog>>
(* an item is the list of the program positions it stands for *)
ItemLines(it) == LinesOf(prog[it[1]])
ItemLocal(it) == Local(prog[it[1]])
Lane(its, l) == SelectSeq(its, LAMBDA it : l \in ItemLines(it))
(* the stretches of a lane: runs of local gates, other gates alone *)
Runs(lane) == FoldLeft(LAMBDA acc, it :
                IF ItemLocal(it) /\ acc # <<>> /\ ItemLocal(acc[Len(acc)][1])
                THEN [acc EXCEPT ![Len(acc)] = Append(@, it)] ELSE Append(acc, <<it>>), <<>>, lane)
NextLocal(i) == LET lane == Lane(items, prog[i].q[1])
                    at == CHOOSE j \in 1..Len(lane) : lane[j] = <<i>>
                IN at < Len(lane) /\ ItemLocal(lane[at + 1])
Cut == /\ phase = "run" /\ Len(prog) = len
       /\ items' = [i \in 1..len |-> <<i>>]
       /\ phase' = "merge"
       /\ UNCHANGED <<sid, rng, dims, prog, cols, pos, len, again, merges, mlog>>
LongRuns == UNION {LET rs == TLCEval(Runs(Lane(items, l))) IN
                     {<<l, r>> : r \in {r \in 1..Len(rs) : ItemLocal(rs[r][1]) /\ Len(rs[r]) > 1}} : l \in 0..NumLines - 1}
Flat(s) == FoldLeft(LAMBDA a, x : a \o x, <<>>, s)
Merge == /\ phase = "merge" /\ merges < MaxMerge /\ LongRuns # {}
         /\ LET v == [i \in 1..4 |-> RVal(RSeq(rng, 4)[i])]
                all == TLCEval(SetToSortSeq(LongRuns, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])))
                pick == all[(v[1] % Len(all)) + 1]
                l == pick[1]
                rs == TLCEval(Runs(Lane(items, l)))
                run == rs[pick[2]]
                s == 1 + (v[2] % Len(run))
                e == s + (v[3] % (Len(run) - s + 1))
                seg == SubSeq(run, s, e)
                before == FoldLeft(LAMBDA a, x : a + Len(x), 0, SubSeq(rs, 1, pick[2] - 1))
                rest == SelectSeq(items, LAMBDA it : \A j \in 2..Len(seg) : seg[j] # it)
            IN /\ items' = [i \in 1..Len(rest) |-> IF rest[i] = seg[1] THEN Flat(seg) ELSE rest[i]]
               /\ mlog' = Append(mlog, [line |-> l, from |-> before + s - 1, to |-> before + e - 1, seg |-> Flat(seg)])
         /\ merges' = merges + 1
         /\ rng' = RSeq(rng, 4)[4]
         /\ UNCHANGED <<sid, dims, prog, cols, phase, pos, len, again>>
Close == /\ phase = "merge" /\ (merges = MaxMerge \/ LongRuns = {})
         /\ LET first == [i \in 1..len |-> <<i>>] IN
            PrintT("@@" \o ToJson([id |-> sid, dims |-> dims, prog |-> prog, again |-> again,
               v |-> [i \in 1..Len(cols) |-> cols[i].v], s2 |-> [i \in 1..Len(cols) |-> cols[i].s2],
               runs |-> [l \in 1..NumLines |-> LET rs == Runs(Lane(first, l - 1)) IN [r \in 1..Len(rs) |-> Flat(rs[r])]],
               merges |-> mlog, lanes |-> [l \in 1..NumLines |-> Lane(items, l - 1)]]))
         /\ phase' = "done"
         /\ UNCHANGED <<sid, rng, dims, prog, cols, pos, len, again, items, merges, mlog>>
NextL == DrawOne \/ Cut \/ Merge \/ Close
SpecL == InitL /\ [][NextL]_lvars

(* merging keeps the operator, every gate exactly once, and the order of every lane *)
RunItems(cs) == FoldLeft(LAMBDA acc, i : TLCEval(ApplyAll(dims, prog[i], acc)), cs, Flat(items))
MergeOK == phase = "done" => LET end == TLCEval(RunItems(InitCols(dims))) IN \A i \in 1..Len(cols) : SameState(end[i], cols[i])
OnceOK == phase \in {"merge", "done"} => LET f == Flat(items) IN Len(f) = len /\ {f[i] : i \in 1..Len(f)} = 1..len
OrderOK == phase \in {"merge", "done"} => \A l \in 0..NumLines - 1 : LET f == Flat(Lane(items, l)) IN \A i \in 1..(Len(f) - 1) : f[i] < f[i + 1]
=============================================================================
