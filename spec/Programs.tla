------------------------------ MODULE Programs ------------------------------
(***************************************************************************)
(* The circuit state machine: a program is built one gate at a time and    *)
(* the exact state of the register follows every gate.                     *)
(*                                                                         *)
(* Two next-state relations share the semantics:                           *)
(*  - SpecSampled: NProg pseudo-random programs (one behaviour each), drawn *)
(*    by a seeded generator written in TLA+, so a run is reproducible;      *)
(*  - SpecAll: every program of length <= Depth over the finite gate set   *)
(*    GateSet (exhaustive).                                                *)
(* After the program is complete it is emitted (phase "emit" prints it as  *)
(* JSON for the replay into the real code) and then, when Echo is set, it  *)
(* is undone gate by gate in reverse order with the daggered gates; the    *)
(* invariant EchoHome says the register is back in its initial state.      *)
(***************************************************************************)
EXTENDS QuditSem, Json

CONSTANTS
  NProg,        \* number of sampled programs
  Seed,         \* generator seed
  MinDepth, Depth,
  DimsList,     \* tuple of registers (tuples of dimensions)
  Fams,         \* tuple of gate families to draw from (repetition = weight)
  DagPct, CtlPct, RevPct, LevRevPct, MaxCtl,
  AllCols,      \* TRUE: follow every basis state (the whole unitary), FALSE: only |0...0>
  Echo,         \* TRUE: undo the program afterwards
  Emit          \* TRUE: print finished programs

VARIABLES sid, rng, dims, prog, cols, phase, pos, len

vars == <<sid, rng, dims, prog, cols, phase, pos, len>>

(* ------------------------------------------------------------------ generator *)
M1 == 46337
M2 == 46327
RStep(r) == << (31337 * r[1] + 17) % M1, (23011 * r[2] + 5) % M2 >>
RVal(r) == (r[1] + r[2] * 7) \div 3
RECURSIVE RSeq(_, _)
RSeq(r, n) == IF n = 0 THEN <<>> ELSE LET s == RStep(r) IN <<s>> \o RSeq(s, n - 1)
Draws == 24
InitRng(s) == RStep(RStep(RStep(<< ((s % 19997) * 7919 + Seed * 1009 + 3) % M1, ((s % 19997) * 104729 + Seed * 331 + 11) % M2 >>)))

IsPrime(d) == d \in {2, 3, 5, 7}
SingleFams == {"h", "x", "z", "s", "pm", "rxy", "rz", "rh", "virtrz", "noisex", "noisey"}
TwoFams == {"csum", "cx", "ls", "ms"}

(* v : draws (naturals) ; levels of a two-level gate on dimension d *)
Levels(d, v1, v2, rev) == LET a == v1 % d  b == (a + 1 + (v2 % (d - 1))) % d
                              lo == IF a < b THEN a ELSE b
                              hi == IF a < b THEN b ELSE a
                          IN IF rev THEN <<hi, lo>> ELSE <<lo, hi>>

(* a permutation of 0..n-1 by three transpositions *)
Swap(p, i, j) == [p EXCEPT ![i] = p[j], ![j] = p[i]]
Perm3(n, v) == LET id == [k \in 1..n |-> k]
                   a == Swap(id, (v[1] % n) + 1, (v[2] % n) + 1)
                   b == Swap(a, (v[3] % n) + 1, (v[4] % n) + 1)
               IN Swap(b, (v[5] % n) + 1, (v[6] % n) + 1)

ParamsOf(g, ld, v, rev) ==
  CASE g \in {"h", "x", "z", "s", "csum"} -> <<>>
    [] g = "pm" -> LET p == Perm3(ld[1], SubSeq(v, 1, 6)) IN [k \in 1..ld[1] |-> p[k] - 1]
    [] g = "rxy" -> Levels(ld[1], v[1], v[2], rev) \o <<v[3] % N, v[4] % N>>
    [] g = "rz" -> Levels(ld[1], v[1], v[2], rev) \o <<v[3] % N>>
    [] g \in {"rh", "noisex", "noisey"} -> Levels(ld[1], v[1], v[2], rev)
    [] g = "virtrz" -> <<v[1] % ld[1], v[2] % N>>
    [] g = "cx" -> Levels(ld[2], v[1], v[2], FALSE) \o <<v[3] % ld[1], v[4] % (N + 1)>>
    [] g = "ls" -> <<v[1] % (N + 1)>>
    [] g = "ms" -> <<v[1] % ((N \div 4) + 1)>>
    [] g = "mono" -> <<Perm3(Prod(ld), SubSeq(v, 1, 6)), [k \in 1..Prod(ld) |-> (v[7] + k * (v[8] % N) + k * k * (v[9] % N)) % N]>>

(* distinct lines l1 # l2 (# l3) *)
Line2(n, v1, v2) == LET a == v1 % n  b == (a + 1 + (v2 % (n - 1))) % n IN <<a, b>>
Others(n, ls) == SelectSeq([k \in 1..n |-> k - 1], LAMBDA x : \A i \in 1..Len(ls) : ls[i] # x)
SortSeq2(s) == SortSeq(s, LAMBDA a, b : a < b)

Controls(ds, ls, v, n) ==
  LET free == Others(Len(ds), ls) IN
  IF n = 0 \/ free = <<>> THEN <<>>
  ELSE LET l1 == free[(v[1] % Len(free)) + 1]
           c1 == <<l1, v[2] % ds[l1 + 1]>>
           rest == SelectSeq(free, LAMBDA x : x # l1)
       IN IF n = 1 \/ rest = <<>> THEN <<c1>>
          ELSE LET l2 == rest[(v[3] % Len(rest)) + 1] IN <<c1, <<l2, v[4] % ds[l2 + 1]>> >>

Fallback(ds, v) == [g |-> "x", q |-> <<v % Len(ds)>>, p |-> <<>>, dag |-> FALSE, ctl |-> <<>>, cus |-> FALSE]

OKSingle(g, d) == InRing(g, <<d>>) /\ (g = "s" => IsPrime(d))

GenOp(ds, r) ==
  LET rs == RSeq(r, Draws)
      v == [k \in 1..Draws |-> RVal(rs[k])]
      fam == Fams[(v[1] % Len(Fams)) + 1]
      n == Len(ds)
      dag == (v[2] % 100) < DagPct
      lrev == (v[3] % 100) < LevRevPct
      wantctl == (v[4] % 100) < CtlPct
      nctl == IF wantctl THEN (v[5] % MaxCtl) + 1 ELSE 0
      fb == Fallback(ds, v[6])
      pv == SubSeq(v, 8, 24)
      line == v[7] % n
      two == IF (v[17] % 100) < RevPct THEN Line2(n, v[7], v[18]) ELSE SortSeq2(Line2(n, v[7], v[18]))
      base == CASE fam \in SingleFams -> fam
                [] fam \in TwoFams -> fam
                [] fam = "cuone" -> <<"h", "rxy", "rh", "x", "z">>[(v[19] % 5) + 1]
                [] fam = "cutwo" -> <<"cx", "csum", "ls", "ms">>[(v[19] % 4) + 1]
                [] OTHER -> "mono"
      kind == CASE fam \in SingleFams \cup {"cuone", "mono1"} -> 1
                [] fam \in TwoFams \cup {"cutwo", "mono2"} -> 2
                [] fam = "mono3" -> 3
      cus == fam \in {"cuone", "cutwo", "mono1", "mono2", "mono3"}
      lines == CASE kind = 1 -> <<line>>
                 [] kind = 2 -> IF n < 2 THEN <<>> ELSE IF cus THEN SortSeq2(two) ELSE two
                 [] kind = 3 -> IF n < 3 THEN <<>>
                                ELSE SortSeq2(two \o <<Others(n, two)[(v[20] % (n - 2)) + 1]>>)
      ld == [k \in 1..Len(lines) |-> ds[lines[k] + 1]]
      ok == lines # <<>> /\ InRing(base, ld) /\ (base = "s" => IsPrime(ld[1]))
      ctls == IF kind = 1 THEN Controls(ds, lines, SubSeq(v, 20, 24), nctl) ELSE <<>>
  IN IF ~ok THEN fb
     ELSE [g |-> base, q |-> lines, p |-> ParamsOf(base, ld, pv, lrev), dag |-> dag, ctl |-> ctls, cus |-> cus]

NextRng(r) == LET rs == RSeq(r, Draws) IN rs[Draws]

(* ------------------------------------------------------------------ gate set, for the exhaustive runs *)
Levs(d) == {<<a, b>> \in (0..d-1) \X (0..d-1) : a < b}
AngleGrid == {1, 3, (N \div 4) + 1}
ParamSet(g, ld) ==
  CASE g \in {"h", "x", "z", "s", "csum"} -> {<<>>}
    [] g = "pm" -> {[k \in 1..ld[1] |-> (k) % ld[1]], [k \in 1..ld[1] |-> IF k = 1 THEN 1 ELSE IF k = 2 THEN 0 ELSE k - 1]}
    [] g = "rxy" -> {l \o <<a, b>> : l \in Levs(ld[1]), a \in {1, (N \div 4) + 1}, b \in {0, 5}}
    [] g = "rz" -> {l \o <<a>> : l \in Levs(ld[1]), a \in AngleGrid}
    [] g \in {"rh", "noisex", "noisey"} -> Levs(ld[1])
    [] g = "virtrz" -> {<<l, a>> : l \in 0..ld[1]-1, a \in {1, 7}}
    [] g = "cx" -> {l \o <<c, b>> : l \in Levs(ld[2]), c \in 0..ld[1]-1, b \in {0, 5}}
    [] g = "ls" -> {<<3>>, <<7>>}
    [] g = "ms" -> {<<1>>, <<4>>}
    [] OTHER -> {}
FamSet == {Fams[k] : k \in 1..Len(Fams)}
Singles(ds) == UNION {UNION {{[g |-> g, q |-> <<l>>, p |-> p, dag |-> b, ctl |-> c, cus |-> FALSE] :
                     p \in ParamSet(g, <<ds[l+1]>>), b \in (IF DagPct > 0 THEN BOOLEAN ELSE {FALSE}),
                     c \in {<<>>} \cup (IF CtlPct > 0 THEN {<< <<m, e>> >> : m \in (0..Len(ds)-1) \ {l}, e \in 0..1} ELSE {})}
                   : g \in {h \in FamSet \cap SingleFams : OKSingle(h, ds[l+1])}} : l \in 0..Len(ds)-1}
Doubles(ds) == UNION {UNION {{[g |-> g, q |-> <<l, m>>, p |-> p, dag |-> b, ctl |-> <<>>, cus |-> FALSE] :
                     p \in ParamSet(g, <<ds[l+1], ds[m+1]>>), b \in (IF DagPct > 0 THEN BOOLEAN ELSE {FALSE})}
                   : g \in FamSet \cap TwoFams} : <<l, m>> \in {x \in (0..Len(ds)-1) \X (0..Len(ds)-1) : x[1] # x[2]}}
GateSet(ds) == Singles(ds) \cup Doubles(ds)

(* ------------------------------------------------------------------ state machine *)
InitCols(ds) == IF AllCols THEN [k \in 1..Prod(ds) |-> Basis(ds, k)] ELSE <<Basis(ds, 1)>>

Init0(s) == /\ sid = s
            /\ rng = InitRng(s)
            /\ dims = DimsList[(s % Len(DimsList)) + 1]
            /\ prog = <<>>
            /\ cols = InitCols(DimsList[(s % Len(DimsList)) + 1])
            /\ phase = "run"
            /\ pos = 0
            /\ len = MinDepth + (RVal(InitRng(s)) % (Depth - MinDepth + 1))

InitSampled == \E s \in 1..NProg : Init0(s)
InitAll == \E s \in 1..Len(DimsList) : Init0(s)

Do(op) == /\ prog' = Append(prog, op)
          /\ cols' = ApplyAll(dims, op, cols)

StepSampled == /\ phase = "run" /\ Len(prog) < len
               /\ Do(GenOp(dims, rng))
               /\ rng' = NextRng(rng)
               /\ UNCHANGED <<sid, dims, phase, pos, len>>

StepAll == /\ phase = "run" /\ Len(prog) < Depth
           /\ \E op \in GateSet(dims) : Do(op)
           /\ UNCHANGED <<sid, rng, dims, phase, pos, len>>

Record == [id |-> sid, dims |-> dims, prog |-> prog,
           v |-> [k \in 1..Len(cols) |-> cols[k].v], s2 |-> [k \in 1..Len(cols) |-> cols[k].s2]]

Finish(l) == /\ phase = "run" /\ Len(prog) = l
             /\ (Emit => PrintT("@@" \o ToJson(Record)))
             /\ phase' = (IF Echo THEN "undo" ELSE "done")
             /\ pos' = l
             /\ UNCHANGED <<sid, rng, dims, prog, cols, len>>

Undo == /\ phase = "undo" /\ pos > 0
        /\ cols' = ApplyAll(dims, Dagger(prog[pos]), cols)
        /\ pos' = pos - 1
        /\ UNCHANGED <<sid, rng, dims, prog, phase, len>>
Home == /\ phase = "undo" /\ pos = 0
        /\ phase' = "done"
        /\ UNCHANGED <<sid, rng, dims, prog, cols, pos, len>>

NextSampled == StepSampled \/ Finish(len) \/ Undo \/ Home
NextAll == StepAll \/ (\E l \in 1..Depth : Finish(l)) \/ Undo \/ Home
SpecSampled == InitSampled /\ [][NextSampled]_vars
SpecAll == InitAll /\ [][NextAll]_vars

(* ------------------------------------------------------------------ properties of the specification *)
RingOK == CycloOK
(* unitarity: every column keeps norm 1, and distinct columns stay orthogonal *)
NormOK == phase \in {"undo", "done"} => \A k \in 1..Len(cols) : IsNormalised(cols[k])
UnitaryOK == (phase = "undo" /\ pos = Len(prog)) =>
               \A j, k \in 1..Len(cols) : j < k => Orthogonal(cols[j], cols[k])
EchoHome == (phase = "done" /\ Echo) => cols = InitCols(dims)
=============================================================================
