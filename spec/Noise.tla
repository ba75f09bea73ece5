-------------------------------- MODULE Noise --------------------------------
(***************************************************************************)
(* Noisy execution of a program.                                           *)
(*                                                                         *)
(* A noise model assigns, per gate name and per mode (which qudits of the  *)
(* gate are hit), either mathematical noise (the depolarising channel over *)
(* the Weyl group), physical noise on named two-level subspaces, or        *)
(* physical noise on the subspace the gate itself rotates ("dyn").         *)
(* After each gate the channels of its modes act; every channel is a       *)
(* finite list of weighted branches, each branch a sequence of gates.      *)
(* The state machine first draws a program and a model, then walks through *)
(* the program and takes one branch per draw: the reachable end states are *)
(* the whole distribution of noisy programs, each with its exact weight    *)
(* and exact final state.                                                  *)
(*                                                                         *)
(* Engine "tn": one independent draw per affected qudit.                   *)
(* Engine "mi": one X draw and one Z draw per gate and mode, shared by all *)
(* affected qudits; two-level gates are hit on their own levels.           *)
(***************************************************************************)
EXTENDS Programs

CONSTANTS Engine, Modes, Kinds, Den, MaxDraws

VARIABLES model, at, draws, pend, noisy
nvars == <<sid, rng, dims, prog, cols, phase, pos, len, model, at, draws, pend, noisy>>

Tag(op) == IF op.cus THEN (IF Len(op.q) = 1 THEN "cuone" ELSE "cutwo") ELSE op.g
Refs(op) == [k \in 1..Len(op.ctl) |-> op.ctl[k][1]] \o op.q
G(g, l, p) == [g |-> g, q |-> <<l>>, p |-> p, dag |-> FALSE, ctl |-> <<>>, cus |-> FALSE]

(* ------------------------------------------------------------------ which qudits a mode hits *)
ModeOK(op, m) == CASE m \in {"local", "all"} -> TRUE
                   [] m = "nonlocal" -> Len(Refs(op)) >= 2
                   [] m = "control" -> Len(Refs(op)) = 2
                   [] m = "target" -> Engine = "tn" \/ Len(op.q) = 2
Hit(op, m) == CASE m \in {"local", "nonlocal"} -> Refs(op)
                [] m = "all" -> [k \in 1..Len(dims) |-> k - 1]
                [] m = "control" -> <<Refs(op)[1]>>
                [] m = "target" -> IF Len(op.q) = 1 \/ op.ctl # <<>> THEN op.q ELSE Tail(op.q)

(* ------------------------------------------------------------------ branches of one draw: <<weight, denominator, gates>> *)
TwoLevels(op) == CASE op.g \in {"rxy", "rz", "rh", "cx"} -> <<Lo(op.p), Hi(op.p)>>
                   [] OTHER -> <<0, 1>>
Pauli(l, lv, a, den) == << <<4 * den - 3 * a, 4 * den, <<>> >>, <<a, 4 * den, <<G("virtrz", l, <<lv[2], N \div 2>>)>> >>,
                           <<a, 4 * den, <<G("noisex", l, lv)>> >>, <<a, 4 * den, <<G("noisey", l, lv)>> >> >>
Flip(w, den, gs) == << <<den - w, den, <<>> >>, <<w, den, gs>> >>
Rept(n, g) == [k \in 1..n |-> g]

(* mathematical noise: X^i Z^j with equal weight for every (i,j) # (0,0) *)
Weyl(l, a) == LET d == dims[l + 1]  m == Den * d * d IN
  [k \in 1..(d * d) |-> IF k = 1 THEN <<m - a * (d * d - 1), m, <<>> >>
                        ELSE <<a, m, Rept((k - 1) \div d, G("x", l, <<>>)) \o Rept((k - 1) % d, G("z", l, <<>>))>>]

(* draws caused by one entry of the model on one gate, tensor network engine *)
LvOf(op, e) == IF e.kind = "dyn" THEN << TwoLevels(op) >> ELSE e.lev
Outside(d, lv) == SelectSeq([k \in 1..d |-> k - 1], LAMBDA x : x # lv[1] /\ x # lv[2])
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
EntryDraws(op, e) ==
  LET qs == Hit(op, e.mode) IN
  IF e.kind = "math" THEN [k \in 1..Len(qs) |-> Weyl(qs[k], e.a)]
  ELSE LET lvs == LvOf(op, e) IN
       Flat([k \in 1..Len(qs) |-> [j \in 1..Len(lvs) |-> Pauli(qs[k], lvs[j], e.a, Den)]])
       \o Flat([k \in 1..Len(qs) |-> Flat([j \in 1..Len(lvs) |->
              LET out == Outside(dims[qs[k] + 1], lvs[j]) IN
              [i \in 1..Len(out) |-> Flip(e.b, Den, <<G("virtrz", qs[k], <<out[i], N \div 2>>)>>)]])])

(* decision diagram engine *)
MiLevels(op, l) == LET d == dims[l + 1] IN
  IF op.g = "virtrz" THEN (IF op.p[1] # d - 1 THEN <<op.p[1], op.p[1] + 1>> ELSE <<d - 2, d - 1>>) ELSE <<op.p[1], op.p[2]>>
MiGate(op, l, x) == IF op.g \in {"rxy", "rz", "virtrz"}
                    THEN (IF x THEN G("rxy", l, MiLevels(op, l) \o <<N \div 4, N \div 4>>) ELSE G("rz", l, MiLevels(op, l) \o <<N \div 4>>))
                    ELSE G(IF x THEN "x" ELSE "z", l, <<>>)
MiDraws(op, e) == LET qs == Hit(op, e.mode) IN
  << Flip(e.a, Den, [k \in 1..Len(qs) |-> MiGate(op, qs[k], TRUE)]), Flip(e.b, Den, [k \in 1..Len(qs) |-> MiGate(op, qs[k], FALSE)]) >>

DrawsOf(op) == LET es == SelectSeq(model, LAMBDA e : e.tag = Tag(op)) IN
               Flat([k \in 1..Len(es) |-> IF Engine = "tn" THEN EntryDraws(op, es[k]) ELSE MiDraws(op, es[k])])

(* ------------------------------------------------------------------ drawing a model for the program at hand *)
FitsAll(op, m, lvs) == \A i \in 1..Len(Hit(op, m)) : \A j \in 1..Len(lvs) : lvs[j][2] < dims[Hit(op, m)[i] + 1]
Fits(e) == \A i \in 1..Len(prog) : Tag(prog[i]) = e.tag =>
              /\ ModeOK(prog[i], e.mode)
              /\ Engine = "tn" => CASE e.kind = "math" -> TRUE
                                    [] e.kind = "sub" -> FitsAll(prog[i], e.mode, e.lev)
                                    [] e.kind = "dyn" -> /\ prog[i].g \in {"rxy", "rz", "rh", "cx"} /\ ~prog[i].cus
                                                         /\ FitsAll(prog[i], e.mode, << TwoLevels(prog[i]) >>)
              /\ Engine = "mi" => /\ prog[i].ctl = <<>> /\ ~prog[i].cus
                                  /\ (prog[i].g \in {"rxy", "rz", "virtrz"} => e.mode = "local")
ModeRank(m) == CASE m = "all" -> 1 [] m = "control" -> 2 [] m = "local" -> 3 [] m = "nonlocal" -> 4 [] m = "target" -> 5

DrawEntry(v) ==
  LET op == prog[(v[1] % Len(prog)) + 1]
      pairs == << <<0, 1>>, <<1, 2>>, <<0, 2>> >>
      n == (v[5] % 2) + 1
      f == (v[6] % 3) + 1
      kind == Kinds[(v[3] % Len(Kinds)) + 1]
  IN [tag |-> Tag(op), mode |-> Modes[(v[2] % Len(Modes)) + 1], kind |-> kind,
      a |-> (v[7] % Den) + 1, b |-> v[8] % (Den + 1),
      lev |-> IF kind = "sub" THEN (IF n = 1 \/ dims[1] = 2 THEN <<pairs[f]>> ELSE <<pairs[f], pairs[(f % 3) + 1]>>) ELSE <<>>]

Branching(es) == LET ds == Flat([i \in 1..Len(prog) |-> Flat([k \in 1..Len(es) |->
                             IF es[k].tag = Tag(prog[i]) THEN (IF Engine = "tn" THEN EntryDraws(prog[i], es[k]) ELSE MiDraws(prog[i], es[k])) ELSE <<>>])])
                 IN FoldLeft(LAMBDA acc, d : IF acc > 10000 THEN acc ELSE acc * Len(d), 1, ds)
AddEntry(es, e) == IF (\E k \in 1..Len(es) : es[k].tag = e.tag /\ es[k].mode = e.mode) \/ ~Fits(e) \/ Branching(Append(es, e)) > MaxDraws
                   THEN es ELSE Append(es, e)
RECURSIVE DrawModel(_, _, _)
DrawModel(r, n, es) == IF n = 0 THEN es
                       ELSE LET rs == RSeq(r, Draws) IN
                            DrawModel(rs[Draws], n - 1, AddEntry(es, DrawEntry([k \in 1..Draws |-> RVal(rs[k])])))
(* the tensor network engine goes through the modes in the order they were given, the other one alphabetically *)
SortModes(es) == IF Engine = "tn" THEN es ELSE SortSeq(es, LAMBDA x, y : ModeRank(x.mode) < ModeRank(y.mode))

(* ------------------------------------------------------------------ state machine *)
InitN == InitSampled /\ model = <<>> /\ at = 0 /\ draws = <<>> /\ pend = <<>> /\ noisy = <<>>

ToNoise == /\ phase = "run" /\ Len(prog) = len
           /\ phase' = "noise"
           /\ model' = SortModes(DrawModel(rng, 6, <<>>))
           /\ cols' = InitCols(dims)
           /\ UNCHANGED <<sid, rng, dims, prog, pos, len, at, draws, pend, noisy>>

(* the next gate of the program itself *)
Gate == /\ phase = "noise" /\ pend = <<>> /\ at < Len(prog)
        /\ at' = at + 1
        /\ noisy' = Append(noisy, prog[at + 1])
        /\ cols' = ApplyAll(dims, prog[at + 1], cols)
        /\ pend' = DrawsOf(prog[at + 1])
        /\ UNCHANGED <<sid, rng, dims, prog, phase, pos, len, model, draws>>

(* one branch of the next pending draw *)
Draw == /\ phase = "noise" /\ pend # <<>>
        /\ \E b \in {i \in 1..Len(pend[1]) : pend[1][i][1] > 0} :
             /\ draws' = Append(draws, <<pend[1][b][1], pend[1][b][2], b>>)
             /\ noisy' = noisy \o pend[1][b][3]
             /\ cols' = FoldLeft(LAMBDA acc, op : ApplyAll(dims, op, acc), cols, pend[1][b][3])
        /\ pend' = Tail(pend)
        /\ UNCHANGED <<sid, rng, dims, prog, phase, pos, len, model, at>>

EndN == /\ phase = "noise" /\ pend = <<>> /\ at = Len(prog)
        /\ (Emit => PrintT("@@" \o ToJson([id |-> sid, dims |-> dims, prog |-> prog, model |-> model, draws |-> draws, noisy |-> noisy,
                                           v |-> cols[1].v, s2 |-> cols[1].s2])))
        /\ phase' = "done"
        /\ UNCHANGED <<sid, rng, dims, prog, cols, pos, len, model, at, draws, pend, noisy>>

NextN == (StepSampled /\ UNCHANGED <<model, at, draws, pend, noisy>>) \/ ToNoise \/ Gate \/ Draw \/ EndN
SpecN == InitN /\ [][NextN]_nvars

(* ------------------------------------------------------------------ properties of the specification *)
(* every draw is a probability distribution *)
WeightsOK == \A k \in 1..Len(pend) : FoldLeft(LAMBDA s, b : s + b[1], 0, pend[k]) = pend[k][1][2] /\ \A i \in 1..Len(pend[k]) : pend[k][i][1] >= 0
(* the program survives inside the noisy program, and only qudits named by the model are hit *)
Touched == UNION {{Hit(prog[i], model[k].mode)[j] : j \in 1..Len(Hit(prog[i], model[k].mode))} :
                  <<i, k>> \in {x \in (1..Len(prog)) \X (1..Len(model)) : Tag(prog[x[1]]) = model[x[2]].tag}}
KeepsProgram == phase = "done" =>
  /\ Len(noisy) >= Len(prog)
  /\ \A l \in 0..Len(dims)-1 : l \notin Touched =>
        SelectSeq(noisy, LAMBDA op : \E j \in 1..Len(op.q) : op.q[j] = l) = SelectSeq(prog, LAMBDA op : \E j \in 1..Len(op.q) : op.q[j] = l)
ModelOK == \A k \in 1..Len(model) : Fits(model[k]) /\ \A j \in 1..Len(model) : j # k => model[j].tag # model[k].tag \/ model[j].mode # model[k].mode
NormN == phase = "done" => IsNormalised(cols[1])
=============================================================================
