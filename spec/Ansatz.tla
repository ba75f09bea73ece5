------------------------------- MODULE Ansatz -------------------------------
(***************************************************************************)
(* The layered ansatz of the variational two-qudit compiler.               *)
(*                                                                         *)
(* SU(d) is parametrised by d^2-1 angles, kept here as integers k meaning  *)
(* 2 pi k / N.  As a matrix product (leftmost factor first)                *)
(*   prod_{l<d-1} exp(i a_l (|l><l| - |d-1><d-1|))                         *)
(*   prod_{m<n} exp(i b_mn (|m><m| - |n><n|)) exp(i c_mn y_mn),            *)
(*   y_mn = -i|m><n| + i|n><m|,                                            *)
(* with a_l, b_mn, c_mn at places l*d+l, n*d+m, m*d+n of the angle vector. *)
(* An ansatz with L layers is the matrix product                           *)
(*   W_1 P W_2 P ... P W_(L+2),  W_i = SU(d0) (x) SU(d1),                  *)
(* P the entangling primitive: it is built here from the right, because    *)
(* the rightmost factor acts first.  Prefix phase: a program on the pair   *)
(* of lines is drawn (state machine of Programs); it is the custom         *)
(* primitive of the "cu" ansatz, and the target the fidelity refers to.    *)
(***************************************************************************)
EXTENDS Programs

CONSTANTS Prim,      \* "ms", "ls" or "cu"
          MinLayers, MaxLayers,
          SparePct,  \* percent of angles that are 0
          LinesList, \* the ordered pair of lines, one per register
          EndDag     \* TRUE: the custom primitive is the inverse of the drawn program

VARIABLES pars, goal, left
avars == <<sid, rng, dims, prog, cols, phase, pos, len, pars, goal, left>>

Lines == LinesList[(sid % Len(LinesList)) + 1]
DimAt(i) == dims[Lines[i] + 1]

Plain(g, q, p) == [g |-> g, q |-> q, p |-> p, dag |-> FALSE, ctl |-> <<>>, cus |-> FALSE]
MN(a) == ((a % N) + N) % N
PairsUp(d) == FoldLeft(LAMBDA acc, m : acc \o [j \in 1..(d - 1 - m) |-> <<m, m + j>>], <<>>, [m \in 1..(d - 1) |-> m - 1])
RZOf(line, a, b, k) == Plain("rz", <<line>>, <<a, b, MN(0 - k)>>)
RYOf(line, a, b, k) == Plain("rxy", <<line>>, <<a, b, MN(0 - k), N \div 4>>)
(* the factors of one SU(d), leftmost first; at[i+1] is angle i *)
Factors(line, d, at) ==
  [l \in 1..(d - 1) |-> RZOf(line, l - 1, d - 1, at[(l - 1) * d + l])]
  \o FoldLeft(LAMBDA acc, mn : acc \o <<RZOf(line, mn[1], mn[2], at[mn[2] * d + mn[1] + 1]),
                                        RYOf(line, mn[1], mn[2], at[mn[1] * d + mn[2] + 1])>>, <<>>, PairsUp(d))
Live(ops) == SelectSeq(ops, LAMBDA op : op.p[3] # 0)
RunOps(ops, cs) == FoldLeft(LAMBDA acc, op : TLCEval(ApplyAll(dims, op, acc)), cs, ops)

(* the primitive as gates *)
PrimDims == {DimAt(1), DimAt(2)}
LsTurn == IF 2 \in PrimDims THEN N \div 4 ELSE IF 3 \in PrimDims THEN N \div 3 ELSE N \div 2
PrimOps == CASE Prim = "ms" -> <<Plain("ms", Lines, <<N \div 16>>)>>
             [] Prim = "ls" -> <<Plain("ls", Lines, <<LsTurn>>)>>
             [] OTHER -> IF EndDag THEN [i \in 1..Len(prog) |-> Dagger(prog[Len(prog) + 1 - i])] ELSE prog

(* a vector of angles for a line: two draws per angle *)
Angles(d, r) == LET rs == RSeq(r, 2 * (d * d - 1)) IN
  [i \in 1..(d * d - 1) |-> IF RVal(rs[2 * i - 1]) % 100 < SparePct THEN 0 ELSE RVal(rs[2 * i]) % N]
After(d, r) == RSeq(r, 2 * (d * d - 1))[2 * (d * d - 1)]

InitA == InitSampled /\ pars = <<>> /\ goal = <<>> /\ left = 0
(* a gate drawn on a register of the two lines alone, moved to where the lines are *)
Placed(op) == [op EXCEPT !.q = [i \in 1..Len(op.q) |-> Lines[op.q[i] + 1]],
                         !.ctl = [i \in 1..Len(op.ctl) |-> <<Lines[op.ctl[i][1] + 1], op.ctl[i][2]>>]]
Prefix == /\ phase = "run" /\ Len(prog) < len
          /\ Do(Placed(GenOp(<<DimAt(1), DimAt(2)>>, rng)))
          /\ rng' = NextRng(rng)
          /\ UNCHANGED <<sid, dims, phase, pos, len, pars, goal, left>>
Turn == /\ phase = "run" /\ Len(prog) = len
        /\ goal' = cols
        /\ cols' = InitCols(dims)
        /\ left' = MinLayers + (RVal(rng) % (MaxLayers - MinLayers + 1)) + 2
        /\ rng' = RStep(rng)
        /\ phase' = "line1"
        /\ UNCHANGED <<sid, dims, prog, pos, len, pars>>
(* one block of angles: first the second line of the pair, then the first line *)
Block(i, ph, nx) ==
  /\ phase = ph
  /\ LET at == Angles(DimAt(i), rng) IN
     /\ pars' = <<at>> \o pars
     /\ cols' = RunOps(Reverse(Live(Factors(Lines[i], DimAt(i), at))), cols)
  /\ rng' = After(DimAt(i), rng)
  /\ phase' = nx
  /\ UNCHANGED <<sid, dims, prog, pos, len, goal, left>>
Entangle == /\ phase = "prim"
            /\ left' = left - 1
            /\ IF left = 1 THEN phase' = "full" /\ cols' = cols
               ELSE phase' = "line1" /\ cols' = RunOps(PrimOps, cols)
            /\ UNCHANGED <<sid, rng, dims, prog, pos, len, pars, goal>>
(* overlap of the ansatz with the target, column by column: sum over conj(goal) * ansatz *)
Overlap(u, w) == FoldLeft(LAMBDA acc, i : RAdd(acc, RMul(RConj(u.v[i]), w.v[i])), RZero, [i \in 1..Len(u.v) |-> i])
FinishA == /\ phase = "full"
           /\ PrintT("@@" \o ToJson([id |-> sid, dims |-> dims, prog |-> prog, lines |-> Lines, pars |-> pars, prim |-> Prim,
                        layers |-> (Len(pars) \div 2) - 2, enddag |-> EndDag,
                        gv |-> [i \in 1..Len(goal) |-> goal[i].v], gs |-> [i \in 1..Len(goal) |-> goal[i].s2],
                        v |-> [i \in 1..Len(cols) |-> cols[i].v], s2 |-> [i \in 1..Len(cols) |-> cols[i].s2],
                        ov |-> [i \in 1..Len(cols) |-> Overlap(goal[i], cols[i])], os |-> [i \in 1..Len(cols) |-> goal[i].s2 * cols[i].s2]]))
           /\ phase' = "done"
           /\ UNCHANGED <<sid, rng, dims, prog, cols, pos, len, pars, goal, left>>
NextA == Prefix \/ Turn \/ Block(2, "line1", "line0") \/ Block(1, "line0", "prim") \/ Entangle \/ FinishA
SpecA == InitA /\ [][NextA]_avars

AnsatzOK == phase = "done" => \A i \in 1..Len(cols) : IsNormalised(cols[i]) /\ IsNormalised(goal[i])
ShapeOK == phase = "done" => /\ Len(pars) % 2 = 0 /\ Len(pars) >= 4
                             /\ \A i \in 1..Len(pars) : Len(pars[i]) = DimAt(((i - 1) % 2) + 1) * DimAt(((i - 1) % 2) + 1) - 1
=============================================================================
