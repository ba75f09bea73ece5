------------------------------ MODULE QuditSem ------------------------------
(***************************************************************************)
(* The abstract semantics of MQT Qudits: what every gate means on a        *)
(* register of qudits with individual dimensions.                          *)
(*                                                                         *)
(* A gate is a record                                                      *)
(*   g    tag (the DITQASM tag)                                            *)
(*   q    target lines, 0-based, in the order the user names them          *)
(*   p    integer parameters: levels, and angles in units of the ring      *)
(*   dag  TRUE for the inverse of the gate                                 *)
(*   ctl  sequence of <<line, level>>                                      *)
(*   cus  TRUE when the same operator is handed over as an explicit matrix *)
(*                                                                         *)
(* Angle units (z = zeta_N): rxy <<la,lb,a,b>>: theta = 4 pi a/N,          *)
(* phi = 2 pi b/N; rz <<la,lb,a>>: phi = 4 pi a/N; virtrz <<l,a>>:         *)
(* phi = 2 pi a/N; cx <<la,lb,c,b>>: phi = 2 pi b/N; ls <<a>>:             *)
(* theta = 2 pi a/N; ms <<a>>: theta = 8 pi a/N.                           *)
(*                                                                         *)
(* Operators are kept unnormalised: the true matrix entry is               *)
(* Ent/sqrt(S2(op)); the identity has entry Sc(op) with Sc^2 = S2.         *)
(***************************************************************************)
EXTENDS Cyclo

Prod(s) == FoldLeft(LAMBDA a, x : a * x, 1, s)

(* mixed radix, first line most significant, index 1-based *)
Digits(dims, idx) ==
  [k \in 1..Len(dims) |-> ((idx - 1) \div Prod(SubSeq(dims, k + 1, Len(dims)))) % dims[k]]
RECURSIVE Index0(_, _, _, _)
Index0(dims, ds, k, acc) == IF k > Len(dims) THEN acc ELSE Index0(dims, ds, k + 1, acc * dims[k] + ds[k])
Index(dims, ds) == Index0(dims, ds, 1, 0) + 1

One == << <<1, 0>> >>
MinusI(c) == << <<c, 0 - (N \div 4)>> >>
Lo(p) == IF p[1] < p[2] THEN p[1] ELSE p[2]
Hi(p) == IF p[1] < p[2] THEN p[2] ELSE p[1]

TriMod(i, d) == ((i * (i + 1)) \div 2) % d

(* squared normalisation of the operator, and the scale itself as a ring element *)
S2(g, ld) == CASE g = "h" -> ld[1]
               [] g = "rxy" -> 4
               [] g = "rh" -> 2
               [] g = "ms" -> 4
               [] OTHER -> 1
Sc(g, ld) == CASE g = "h" -> SqrtTerms(ld[1])
               [] g \in {"rxy", "ms"} -> << <<2, 0>> >>
               [] g = "rh" -> Root2
               [] OTHER -> One

(* entry <r|G|c> of the undaggered operator; ld local dimensions, r and c local digit tuples *)
Two(p, r, c, ll, lh, hl, hh, sc) ==
  LET a == Lo(p)  b == Hi(p) IN
  IF r[1] = a /\ c[1] = a THEN ll
  ELSE IF r[1] = a /\ c[1] = b THEN lh
  ELSE IF r[1] = b /\ c[1] = a THEN hl
  ELSE IF r[1] = b /\ c[1] = b THEN hh
  ELSE IF r[1] = c[1] THEN sc ELSE <<>>

Ent(g, p, ld, r, c) ==
  CASE g = "h"   -> << <<1, (r[1] * c[1]) * (N \div ld[1])>> >>
    [] g = "x"   -> IF r[1] = (c[1] + 1) % ld[1] THEN One ELSE <<>>
    [] g = "z"   -> IF r = c THEN << <<1, r[1] * (N \div ld[1])>> >> ELSE <<>>
    [] g = "s"   -> IF r # c THEN <<>>
                    ELSE IF ld[1] = 2 THEN << <<1, r[1] * (N \div 4)>> >>
                    ELSE << <<1, TriMod(r[1], ld[1]) * (N \div ld[1])>> >>
    [] g = "pm"  -> IF r[1] = p[c[1] + 1] THEN One ELSE <<>>
    [] g = "rxy" -> LET a == p[3]  b == p[4] IN
                    Two(p, r, c, << <<1, a>>, <<1, 0 - a>> >>,
                                 << <<-1, a - b>>, <<1, 0 - a - b>> >>,
                                 << <<-1, a + b>>, <<1, 0 - a + b>> >>,
                                 << <<1, a>>, <<1, 0 - a>> >>, << <<2, 0>> >>)
    [] g = "rz"  -> Two(p, r, c, << <<1, 0 - p[3]>> >>, <<>>, <<>>, << <<1, p[3]>> >>, One)
    [] g = "rh"  -> LET i == N \div 4 IN
                    Two(p, r, c, << <<1, i>> >>, << <<1, i>> >>, << <<1, i>> >>, << <<-1, i>> >>, Root2)
    [] g = "noisex" -> Two(p, r, c, <<>>, One, One, <<>>, One)
    [] g = "noisey" -> Two(p, r, c, <<>>, << <<-1, N \div 4>> >>, << <<1, N \div 4>> >>, <<>>, One)
    [] g = "virtrz" -> IF r # c THEN <<>> ELSE IF r[1] = p[1] THEN << <<1, 0 - p[2]>> >> ELSE One
    [] g = "csum" -> IF r[1] = c[1] /\ r[2] = (c[1] + c[2]) % ld[2] THEN One ELSE <<>>
    [] g = "cx"  -> IF r[1] # c[1] THEN <<>>
                    ELSE IF r[1] = p[3] /\ r[2] = p[1] /\ c[2] = p[2] THEN << <<1, 0 - (N \div 4) - p[4]>> >>
                    ELSE IF r[1] = p[3] /\ r[2] = p[2] /\ c[2] = p[1] THEN << <<1, p[4] - (N \div 4)>> >>
                    ELSE IF r[1] = p[3] /\ (r[2] \in {p[1], p[2]} \/ c[2] \in {p[1], p[2]}) THEN <<>>
                    ELSE IF r[2] = c[2] THEN One ELSE <<>>
    [] g = "ls"  -> IF r # c THEN <<>> ELSE IF r[1] = r[2] THEN << <<1, 0 - p[1]>> >> ELSE One
    [] g = "ms"  -> (* exp(-i theta/4 (S(x)1 + 1(x)S)^2), S = |0><1| + |1><0| *)
                    LET in1 == r[1] < 2  in2 == r[2] < 2  t == 4 * p[1] IN
                    IF in1 /\ in2
                    THEN IF r = c THEN << <<1, 0>>, <<1, 0 - t>> >>
                         ELSE IF c = <<1 - r[1], 1 - r[2]>> THEN << <<-1, 0>>, <<1, 0 - t>> >>
                         ELSE <<>>
                    ELSE IF r # c THEN <<>>
                    ELSE IF in1 \/ in2 THEN << <<2, 0 - p[1]>> >> ELSE << <<2, 0>> >>
    [] g = "mono" -> (* p = <<perm, phases>>: |j> -> zeta^phases[j] |perm[j]>, j a local index *)
                     LET ir == Index(ld, r)  ic == Index(ld, c) IN
                     IF p[1][ic] = ir THEN << <<1, p[2][ic]>> >> ELSE <<>>

EntD(op, ld, r, c) == IF op.dag THEN TermsConj(Ent(op.g, op.p, ld, c, r)) ELSE Ent(op.g, op.p, ld, r, c)

(* can the operator be expressed in this ring? *)
InRing(g, ld) == CASE g \in {"h"} -> N % ld[1] = 0 /\ HasSqrt(ld[1])
                   [] g \in {"z", "s"} -> N % ld[1] = 0
                   [] g = "rh" -> N % 8 = 0
                   [] OTHER -> TRUE

LocalDims(dims, op) == [k \in 1..Len(op.q) |-> dims[op.q[k] + 1]]
CtlOK(op, ds) == \A k \in 1..Len(op.ctl) : ds[op.ctl[k][1] + 1] = op.ctl[k][2]

(* local row: the sequence of <<column index, terms>> with non-empty terms *)
LocalRow(op, ld, ri) ==
  SelectSeq([ci \in 1..Prod(ld) |-> <<ci, EntD(op, ld, Digits(ld, ri), Digits(ld, ci))>>],
            LAMBDA t : t[2] # <<>>)
LocalRows(op, ld) == [ri \in 1..Prod(ld) |-> LocalRow(op, ld, ri)]

(* for each global row: the flat list of <<global source index, coefficient, exponent>> *)
RowSources(dims, op, ld, rows, idx) ==
  LET ds == Digits(dims, idx)
      lr == [k \in 1..Len(ld) |-> ds[op.q[k] + 1]]
      mine == rows[Index(ld, lr)]
      Src(ci) == LET lc == Digits(ld, ci) IN
                 Index(dims, [m \in 1..Len(dims) |->
                   IF \E k \in 1..Len(op.q) : op.q[k] + 1 = m
                   THEN lc[CHOOSE k \in 1..Len(op.q) : op.q[k] + 1 = m] ELSE ds[m]])
  IN IF CtlOK(op, ds)
     THEN FoldLeft(LAMBDA acc, t : LET s == Src(t[1]) IN
                     acc \o [k \in 1..Len(t[2]) |-> <<s, t[2][k][1], t[2][k][2]>>], <<>>, mine)
     ELSE LET sc == Sc(op.g, ld) IN [k \in 1..Len(sc) |-> <<idx, sc[k][1], sc[k][2]>>]

ApplySources(srcs, vec) ==
  [idx \in 1..Len(vec) |->
     LET live == SelectSeq(srcs[idx], LAMBDA t : vec[t[1]] # RZero) IN
     IF live = <<>> THEN RZero
     ELSE [i \in RIdx |-> FoldLeft(LAMBDA acc, t : acc + t[2] * RotAt(vec[t[1]], t[3], i), 0, live)]]

(***************************************************************************)
(* A quantum state is [v |-> tuple of ring elements, s2 |-> squared scale]: *)
(* the amplitude of |idx> is v[idx]/sqrt(s2).                              *)
(***************************************************************************)
Basis(dims, idx) == [v |-> [k \in 1..Prod(dims) |-> IF k = idx THEN ROne ELSE RZero], s2 |-> 1]

RECURSIVE Lower(_, _)
Lower(st, ps) ==
  IF ps = <<>> THEN st
  ELSE LET pr == Head(ps) IN
       IF st.s2 % (pr * pr) = 0 /\ \A k \in 1..Len(st.v) : \A i \in RIdx : st.v[k][i] % pr = 0
       THEN Lower([v |-> [k \in 1..Len(st.v) |-> [i \in RIdx |-> st.v[k][i] \div pr]],
                   s2 |-> st.s2 \div (pr * pr)], ps)
       ELSE Lower(st, Tail(ps))
LowerAll(st) == Lower(st, <<2, 3, 5, 7>>)

ApplyAll(dims, op, sts) ==
  LET ld == LocalDims(dims, op)
      rows == LocalRows(op, ld)
      srcs == [idx \in 1..Prod(dims) |-> RowSources(dims, op, ld, rows, idx)]
  IN [k \in 1..Len(sts) |-> LowerAll([v |-> ApplySources(srcs, sts[k].v), s2 |-> sts[k].s2 * S2(op.g, ld)])]
Apply(dims, op, st) == ApplyAll(dims, op, <<st>>)[1]

Dagger(op) == [op EXCEPT !.dag = ~op.dag]

(* the square root of an integer with prime factors 2, 3, 5, 7 *)
RECURSIVE RootOf(_, _)
RootOf(m, ps) == IF m = 1 THEN One
                 ELSE IF m % Head(ps) = 0 THEN TermsProd(SqrtTerms(Head(ps)), RootOf(m \div Head(ps), ps)) ELSE RootOf(m, Tail(ps))
RootElem(m) == TermsVal(RootOf(m, <<2, 3, 5, 7>>))

NormSq(st) == FoldLeft(LAMBDA acc, a : RAdd(acc, RMul(a, RConj(a))), RZero, st.v)
IsNormalised(st) == NormSq(st) = RInt(st.s2)
(* equality of states whose scales may differ by a surd *)
SameState(u, w) == \/ u = w
                   \/ /\ u.s2 # w.s2
                      /\ \A i \in 1..Len(u.v) : TermsMul(SqrtTerms(w.s2), u.v[i]) = TermsMul(SqrtTerms(u.s2), w.v[i])
RECURSIVE InnerSum(_, _, _, _)
InnerSum(u, w, k, acc) == IF k > Len(u.v) THEN acc
                          ELSE InnerSum(u, w, k + 1, RAdd(acc, RMul(RConj(u.v[k]), w.v[k])))
Orthogonal(u, w) == InnerSum(u, w, 1, RZero) = RZero
=============================================================================
