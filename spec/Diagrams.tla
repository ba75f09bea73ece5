------------------------------ MODULE Diagrams ------------------------------
(***************************************************************************)
(* Decision diagrams over registers of mixed dimensions.                   *)
(*                                                                         *)
(* Two programs, left and right, are grown over the same register (the     *)
(* state machine of Programs, run twice).  Of the states and operators     *)
(* they produce the specification states                                   *)
(*   - every entry (exactly), the sum of the two states, their inner       *)
(*     product, the product of the two operators;                          *)
(*   - the size of the canonical diagram: two parts of a vector (of a      *)
(*     matrix) share a node exactly when they are multiples of each other, *)
(*     so on every level there is one node per class of nonzero parts.     *)
(* Spread is the state-spreading routine as a program of gates; SpreadOK   *)
(* says it turns |1,0,...,0> into the equal superposition of all one-hot   *)
(* states and leaves |0,...,0> alone.                                      *)
(***************************************************************************)
EXTENDS Programs

CONSTANTS WithMatrix,     \* TRUE: also count the nodes of the operators
          SpreadLines     \* <<>> or, per register of DimsList, the lines to spread over (<<>> for none)

VARIABLES other           \* the finished left program: [prog, cols], or <<>>
varsG == <<vars, other>>

(* ------------------------------------------------------------------ canonical size *)
IsZero(p) == \A i \in 1..Len(p) : p[i] = RZero
Pivot(p) == CHOOSE i \in 1..Len(p) : p[i] # RZero /\ \A j \in 1..(i - 1) : p[j] = RZero
(* u and w nonzero: u = c*w for some number c *)
Multiple(u, w) == LET i == Pivot(u) IN
                  /\ w[i] # RZero
                  /\ \A j \in 1..Len(u) : (u[j] = RZero) <=> (w[j] = RZero)
                  /\ \A j \in (i + 1)..Len(u) : u[j] # RZero => RMul(u[j], w[i]) = RMul(w[j], u[i])
Classes(parts) == FoldLeft(LAMBDA reps, p : IF IsZero(p) \/ \E r \in 1..Len(reps) : (p = reps[r] \/ Multiple(p, reps[r]))
                                            THEN reps ELSE Append(reps, p), <<>>, parts)

Tails(ds, j) == SubSeq(ds, j + 1, Len(ds))
(* the parts of a vector below a prefix of j levels *)
VecParts(ds, v, j) == LET size == Prod(Tails(ds, j)) IN
                      [b \in 1..(Len(v) \div size) |-> SubSeq(v, (b - 1) * size + 1, b * size)]
VecNodes(ds, v) == 1 + FoldLeft(LAMBDA acc, j : acc + Len(Classes(VecParts(ds, v, j - 1))), 0, [j \in 1..Len(ds) |-> j])

(* columns with a common scale *)
Common(cs) == IF \A i \in 1..Len(cs) : cs[i].s2 = cs[1].s2 THEN [i \in 1..Len(cs) |-> cs[i].v]
              ELSE LET all == {cs[i].s2 : i \in 1..Len(cs)}
                       mul(s) == FoldLeft(LAMBDA acc, x : RMul(acc, RootElem(x)), ROne, SetToSeq(all \ {s}))
                   IN [i \in 1..Len(cs) |-> LET f == mul(cs[i].s2) IN [q \in 1..Len(cs[i].v) |-> RMul(f, cs[i].v[q])]]
MatParts(ds, m, j) == LET size == Prod(Tails(ds, j))
                          nb == Len(m) \div size
                      IN [b \in 1..(nb * nb) |->
                            LET br == (b - 1) \div nb  bc == (b - 1) % nb IN
                            [e \in 1..(size * size) |-> m[bc * size + ((e - 1) % size) + 1][br * size + ((e - 1) \div size) + 1]]]
MatNodes(ds, cs) == LET m == Common(cs) IN
                    1 + FoldLeft(LAMBDA acc, j : acc + Len(Classes(MatParts(ds, m, j - 1))), 0, [j \in 1..Len(ds) |-> j])

(* ------------------------------------------------------------------ algebra *)
Sum(u, w) == IF u.s2 = w.s2 THEN [v |-> [i \in 1..Len(u.v) |-> RAdd(u.v[i], w.v[i])], s2 |-> u.s2]
             ELSE LET ru == RootElem(u.s2)  rw == RootElem(w.s2) IN
                  [v |-> [i \in 1..Len(u.v) |-> RAdd(RMul(rw, u.v[i]), RMul(ru, w.v[i]))], s2 |-> u.s2 * w.s2]
RunAll(ds, ops, cs) == FoldLeft(LAMBDA acc, op : TLCEval(ApplyAll(ds, op, acc)), cs, ops)

(* ------------------------------------------------------------------ spreading *)
Op(g, q, dag, ctl) == [g |-> g, q |-> q, p |-> <<>>, dag |-> dag, ctl |-> ctl, cus |-> FALSE]
Copies(op, m) == [i \in 1..m |-> op]
Spread(ls) ==
  LET head == << Op("h", <<ls[2]>>, FALSE, << <<ls[1], 1>> >>), Op("x", <<ls[1]>>, TRUE, <<>>), Op("x", <<ls[1]>>, FALSE, << <<ls[2], 0>> >>) >>
      tail == FoldLeft(LAMBDA acc, m : acc \o << Op("x", <<ls[m + 1]>>, FALSE, << <<ls[2], m>> >>) >>
                                           \o Copies(Op("csum", <<ls[m + 1], ls[2]>>, TRUE, <<>>), m), <<>>, [m \in 1..(Len(ls) - 2) |-> m + 1])
  IN head \o tail
OneHot(ds, ls, m) == Index(ds, [i \in 1..Len(ds) |-> IF m > 0 /\ i = ls[m] + 1 THEN 1 ELSE 0])
SpreadOf(ds) == IF SpreadLines = <<>> THEN <<>> ELSE LET i == CHOOSE i \in 1..Len(DimsList) : DimsList[i] = ds IN SpreadLines[i]
SpreadOK == \A i \in 1..Len(SpreadLines) : SpreadLines[i] # <<>> =>
              LET ds == DimsList[i]  ls == SpreadLines[i]
                  w == RunAll(ds, Spread(ls), <<Basis(ds, OneHot(ds, ls, 1)), Basis(ds, OneHot(ds, ls, 0))>>)
              IN /\ SameState(w[2], Basis(ds, OneHot(ds, ls, 0)))
                 /\ w[1].s2 = Len(ls)
                 /\ \A x \in 1..Prod(ds) : w[1].v[x] = (IF \E m \in 1..Len(ls) : x = OneHot(ds, ls, m) THEN ROne ELSE RZero)

(* ------------------------------------------------------------------ state machine *)
InitG == InitSampled /\ other = <<>>
GrowG == StepSampled /\ UNCHANGED other
Turn == /\ phase = "run" /\ Len(prog) = len /\ other = <<>>
        /\ other' = [prog |-> prog, cols |-> cols]
        /\ prog' = <<>> /\ cols' = InitCols(dims)
        /\ rng' = NextRng(rng)
        /\ len' = MinDepth + (RVal(rng) % (Depth - MinDepth + 1))
        /\ UNCHANGED <<sid, dims, phase, pos>>

Side(p, cs) == [prog |-> p, v |-> [i \in 1..Len(cs) |-> cs[i].v], s2 |-> [i \in 1..Len(cs) |-> cs[i].s2],
                vnodes |-> VecNodes(dims, cs[1].v), mnodes |-> IF WithMatrix THEN MatNodes(dims, cs) ELSE 0]
Result ==
  LET a == other.cols  b == cols
      sum == Sum(a[1], b[1])
      ab == RunAll(dims, other.prog, b)
      sp == SpreadOf(dims)
      spread == IF sp = <<>> THEN <<>> ELSE RunAll(dims, Spread(sp), <<a[1]>>)
  IN [id |-> sid, dims |-> dims, left |-> Side(other.prog, a), right |-> Side(prog, b),
      sum |-> [v |-> sum.v, s2 |-> sum.s2, nodes |-> VecNodes(dims, sum.v)],
      inner |-> [v |-> InnerSum(b[1], a[1], 1, RZero), s2 |-> a[1].s2 * b[1].s2],
      ab |-> [v |-> [i \in 1..Len(ab) |-> ab[i].v], s2 |-> [i \in 1..Len(ab) |-> ab[i].s2],
              mnodes |-> IF WithMatrix THEN MatNodes(dims, ab) ELSE 0],
      spreadlines |-> sp,
      spread |-> [i \in 1..Len(spread) |-> [v |-> spread[i].v, s2 |-> spread[i].s2]]]
FinishG == /\ phase = "run" /\ Len(prog) = len /\ other # <<>>
           /\ PrintT("@@" \o ToJson(Result))
           /\ phase' = "done"
           /\ UNCHANGED <<sid, rng, dims, prog, cols, pos, len, other>>
NextG == (~(Len(prog) = len) /\ GrowG) \/ Turn \/ FinishG
SpecG == InitG /\ [][NextG]_varsG

(* the canonical diagram is never larger than the vector it stands for, and |0...0> is a chain *)
SizeOK == phase = "done" => /\ VecNodes(dims, cols[1].v) <= 1 + Prod(dims) * Len(dims)
                            /\ VecNodes(dims, Basis(dims, 1).v) = Len(dims) + 1
=============================================================================
