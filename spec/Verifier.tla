------------------------------ MODULE Verifier ------------------------------
(***************************************************************************)
(* What the unitary verifier must answer.                                  *)
(* A sequence of gates is compiled for a target operator on levels placed  *)
(* by an initial and a final permutation; it is right when                 *)
(*      final^-1 . sequence . initial . target                             *)
(* is the identity up to one global phase.                                 *)
(* The target is the inverse of a drawn program; the sequence is the       *)
(* program between the two permutations, or that program with one gate     *)
(* dropped, exchanged, replaced, or with another final permutation.  The   *)
(* verdict is computed exactly, not by how the sequence was altered: a     *)
(* dropped gate may have been the identity.                                *)
(***************************************************************************)
EXTENDS Programs

CONSTANTS Placed      \* TRUE: with permutations (one-line registers)

Reverse2(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Undoing(ops) == LET r == Reverse2(ops) IN [i \in 1..Len(r) |-> Dagger(r[i])]
PmOp(p) == [g |-> "pm", q |-> <<0>>, p |-> p, dag |-> FALSE, ctl |-> <<>>, cus |-> FALSE]

DrawsOf(s) == TLCEval(LET rs == RSeq(InitRng(s * 97 + 5), Draws) IN [i \in 1..Draws |-> RVal(rs[i])])
PermOf(d, v) == LET p == Perm3(d, v) IN [i \in 1..d |-> p[i] - 1]
MutOf(v) == <<"none", "none", "drop", "swap", "replace", "final">>[(v[1] % 6) + 1]

Altered(ops, kind, v, r) ==
  LET i == (v[2] % Len(ops)) + 1 IN
  CASE kind = "drop" -> SelectSeq([j \in 1..Len(ops) |-> <<j, ops[j]>>], LAMBDA t : t[1] # i)
    [] kind = "swap" -> LET j == (i % Len(ops)) + 1 IN [m \in 1..Len(ops) |-> <<m, IF m = i THEN ops[j] ELSE IF m = j THEN ops[i] ELSE ops[m]>>]
    [] kind = "replace" -> [m \in 1..Len(ops) |-> <<m, IF m = i THEN GenOp(dims, r) ELSE ops[m]>>]
    [] OTHER -> [m \in 1..Len(ops) |-> <<m, ops[m]>>]
Plain(s) == [j \in 1..Len(s) |-> s[j][2]]

(* the columns are the identity up to one phase *)
Scalar(cs) ==
  /\ \A c \in 1..Len(cs) : \A r \in 1..Len(cs) : r # c => cs[c].v[r] = RZero
  /\ \A c \in 1..Len(cs) : RMul(RootElem(cs[1].s2), cs[c].v[c]) = RMul(RootElem(cs[c].s2), cs[1].v[1])


VARIABLES plan, target, seqcols

PlanOf ==
  LET v == DrawsOf(sid)
      kind == LET m == MutOf(v) IN IF m = "final" /\ ~Placed THEN "none" ELSE m
      d == dims[1]
      ini == IF Placed THEN PermOf(d, SubSeq(v, 3, 8)) ELSE <<>>
      fin == IF Placed THEN PermOf(d, SubSeq(v, 9, 14)) ELSE <<>>
      used == IF Placed /\ kind = "final" THEN PermOf(d, SubSeq(v, 15, 20)) ELSE fin
      body == Plain(Altered(prog, kind, v, InitRng(sid * 131 + 9)))
      seqn == IF Placed THEN << [PmOp(ini) EXCEPT !.dag = TRUE] >> \o body \o << PmOp(used) >> ELSE body
  IN [kind |-> kind, ini |-> ini, fin |-> fin, seqn |-> seqn,
      all |-> Undoing(prog) \o (IF Placed THEN <<PmOp(ini)>> ELSE <<>>) \o seqn \o (IF Placed THEN << [PmOp(fin) EXCEPT !.dag = TRUE] >> ELSE <<>>)]

Id == InitCols(dims)
InitV == InitSampled /\ plan = [kind |-> "none"] /\ target = <<>> /\ seqcols = <<>>

(* the program is drawn first; its state is not followed *)
Draw == /\ phase = "run" /\ Len(prog) < len
        /\ prog' = Append(prog, GenOp(dims, rng))
        /\ rng' = NextRng(rng)
        /\ UNCHANGED <<sid, dims, cols, phase, pos, len, plan, target, seqcols>>
(* the sequence and the whole check are laid out *)
Plan == /\ phase = "run" /\ Len(prog) = len
        /\ plan' = TLCEval(PlanOf)
        /\ phase' = "check"
        /\ UNCHANGED <<sid, rng, dims, prog, cols, pos, len, target, seqcols>>
(* target, placement, sequence, placement undone: one gate at a time; the target alone and the sequence alone are kept *)
Check == /\ phase = "check" /\ pos < Len(plan.all)
         /\ LET nxt == ApplyAll(dims, plan.all[pos + 1], cols)
                a == Len(prog) + (IF Placed THEN 1 ELSE 0) IN
            /\ cols' = nxt
            /\ target' = (IF pos + 1 = Len(prog) THEN nxt ELSE target)
            /\ seqcols' = (IF pos >= a /\ pos < a + Len(plan.seqn)
                           THEN ApplyAll(dims, plan.all[pos + 1], IF pos = a THEN Id ELSE seqcols) ELSE seqcols)
         /\ pos' = pos + 1
         /\ UNCHANGED <<sid, rng, dims, prog, phase, len, plan>>
FinishV == /\ phase = "check" /\ pos = Len(plan.all)
           /\ LET sc == IF plan.seqn = <<>> THEN Id ELSE seqcols IN
              PrintT("@@" \o ToJson([id |-> sid, dims |-> dims, prog |-> plan.seqn, base |-> prog, kind |-> plan.kind, ini |-> plan.ini, fin |-> plan.fin,
                                     verdict |-> Scalar(cols),
                                     v |-> [c \in 1..Len(sc) |-> sc[c].v], s2 |-> [c \in 1..Len(sc) |-> sc[c].s2],
                                     tv |-> [c \in 1..Len(target) |-> target[c].v], ts2 |-> [c \in 1..Len(target) |-> target[c].s2]]))
           /\ phase' = "done"
           /\ UNCHANGED <<sid, rng, dims, prog, cols, len, pos, plan, target, seqcols>>
NextV == Draw \/ Plan \/ Check \/ FinishV
SpecV == InitV /\ [][NextV]_<<vars, plan, target, seqcols>>

(* an unaltered sequence is right *)
UnalteredOK == (phase = "done" /\ plan.kind = "none") => Scalar(cols)
=============================================================================
