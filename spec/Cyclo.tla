------------------------------- MODULE Cyclo -------------------------------
(***************************************************************************)
(* Exact arithmetic in the ring Z[zeta_N] of cyclotomic integers.          *)
(* An element is a tuple of phi(N) integers: its coordinates in the power  *)
(* basis 1, zeta, ..., zeta^(phi(N)-1).  The representation is canonical,  *)
(* so ring equality is structural equality.                                *)
(* CycPoly is the tuple of coefficients (low to high) of the N-th          *)
(* cyclotomic polynomial; it is supplied by the configuration and is       *)
(* validated by CycloOK below.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS N, CycPoly

Deg == Len(CycPoly) - 1
RIdx == 1..Deg

RZero == [i \in RIdx |-> 0]
ROne  == [i \in RIdx |-> IF i = 1 THEN 1 ELSE 0]

(* multiplication by zeta: shift, and fold the overflow back with the monic polynomial *)
RShift(v) == [i \in RIdx |-> (IF i = 1 THEN 0 ELSE v[i-1]) - v[Deg] * CycPoly[i]]

RECURSIVE PowTab(_, _, _)
PowTab(k, v, acc) == IF k = N THEN acc ELSE PowTab(k + 1, RShift(v), Append(acc, v))

(* RPow[e+1] = zeta^e, for e in 0..N-1 *)
RPow == PowTab(0, ROne, <<>>)
Zeta(e) == RPow[(e % N) + 1]

(* MulTab[e+1][i] = sparse list of <<j, c>>: coordinate i of zeta^e * v is the sum of c*v[j] *)
MulTab == [e \in 1..N |-> [i \in RIdx |->
             SelectSeq([j \in RIdx |-> <<j, Zeta(e - 1 + j - 1)[i]>>], LAMBDA t : t[2] # 0)]]

RAdd(u, v) == [i \in RIdx |-> u[i] + v[i]]
RSub(u, v) == [i \in RIdx |-> u[i] - v[i]]
RNeg(u)    == [i \in RIdx |-> 0 - u[i]]
RScale(c, u) == [i \in RIdx |-> c * u[i]]

(* coordinate i of zeta^e * v *)
RotAt(v, e, i) == FoldLeft(LAMBDA acc, t : acc + t[2] * v[t[1]], 0, MulTab[(e % N) + 1][i])
RRot(v, e) == [i \in RIdx |-> RotAt(v, e, i)]

(* A "terms" value is a sequence of monomials <<c, e>> denoting the sum of c*zeta^e. *)
TermsVal(ts) == [i \in RIdx |-> FoldLeft(LAMBDA acc, t : acc + t[1] * Zeta(t[2])[i], 0, ts)]
TermsMul(ts, v) == [i \in RIdx |-> FoldLeft(LAMBDA acc, t : acc + t[1] * RotAt(v, t[2], i), 0, ts)]
TermsConj(ts) == [k \in 1..Len(ts) |-> <<ts[k][1], 0 - ts[k][2]>>]
RECURSIVE TermsProd(_, _)
TermsProd(a, b) == IF a = <<>> THEN <<>>
                   ELSE [k \in 1..Len(b) |-> <<a[1][1] * b[k][1], a[1][2] + b[k][2]>>]
                        \o TermsProd(Tail(a), b)

RMul(u, v) == TermsMul(SelectSeq([i \in RIdx |-> <<u[i], i - 1>>], LAMBDA t : t[1] # 0), v)
RConj(u) == TermsVal(SelectSeq([i \in RIdx |-> <<u[i], 1 - i>>], LAMBDA t : t[1] # 0))
RInt(c) == RScale(c, ROne)

(* exact square roots of small integers, as sums of roots of unity (quadratic Gauss sums) *)
Root2 == << <<1, N \div 8>>, <<1, 0 - (N \div 8)>> >>
Root3 == << <<1, N \div 12>>, <<1, 0 - (N \div 12)>> >>
Root5 == << <<1, N \div 5>>, <<-1, 2 * (N \div 5)>>, <<-1, 3 * (N \div 5)>>, <<1, 4 * (N \div 5)>> >>
Root7 == LET g == << <<1, 1>>, <<1, 2>>, <<-1, 3>>, <<1, 4>>, <<-1, 5>>, <<-1, 6>> >> IN
         [k \in 1..6 |-> <<g[k][1], g[k][2] * (N \div 7) - (N \div 4)>>]
SqrtTerms(d) == CASE d = 1 -> << <<1, 0>> >>
                  [] d = 2 -> Root2
                  [] d = 3 -> Root3
                  [] d = 4 -> << <<2, 0>> >>
                  [] d = 5 -> Root5
                  [] d = 6 -> TermsProd(Root2, Root3)
                  [] d = 7 -> Root7
                  [] d = 8 -> TermsProd(<< <<2, 0>> >>, Root2)
                  [] d = 9 -> << <<3, 0>> >>

(* does the configured ring contain sqrt(d)? *)
HasSqrt(d) == CASE d \in {1, 4, 9} -> TRUE
                [] d \in {2, 8} -> N % 8 = 0
                [] d = 3 -> N % 12 = 0
                [] d = 5 -> N % 5 = 0
                [] d = 6 -> N % 24 = 0
                [] d = 7 -> N % 28 = 0
                [] OTHER -> FALSE

(* sanity of the configured ring *)
CycloOK == /\ N % 4 = 0
           /\ CycPoly[Deg + 1] = 1
           /\ RShift(Zeta(N - 1)) = ROne
           /\ Zeta(N \div 2) = RNeg(ROne)
           /\ \A k \in 1..(N - 1) : Zeta(k) # ROne
           /\ \A d \in 2..8 : HasSqrt(d) => RMul(TermsVal(SqrtTerms(d)), TermsVal(SqrtTerms(d))) = RInt(d)
=============================================================================
