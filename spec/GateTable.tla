----------------------------- MODULE GateTable -----------------------------
(***************************************************************************)
(* The complete gate table: every gate of the library, on every listed     *)
(* local dimension, with every level choice and a grid of angles, is       *)
(* evaluated exactly and printed for comparison with the real matrices.    *)
(* The defining algebra of the gates (orders, Weyl commutation, Clifford   *)
(* conjugations, additivity of rotations, ...) is stated as equalities of  *)
(* programs and checked as invariants of the specification.                *)
(***************************************************************************)
EXTENDS QuditSem, Json

CONSTANTS SDims,    \* local dimensions of the single-qudit gates
          TDims,    \* pairs of dimensions of the two-qudit gates
          Angs,     \* angle grid, ring units
          Full      \* TRUE: every level pair, FALSE: only neighbouring and extreme ones

VARIABLES item, phase, cols, rcols
vars == <<item, phase, cols, rcols>>

SetOf(s) == {s[k] : k \in 1..Len(s)}
AngSet == SetOf(Angs)
Pairs(d) == {<<a, b>> \in (0..d-1) \X (0..d-1) : a # b /\ (Full \/ b = (a + 1) % d \/ {a, b} = {0, d - 1})}
UpPairs(d) == {x \in Pairs(d) : x[1] < x[2]}
Prime(d) == d \in {2, 3, 5, 7}
Cycles(d) == {[k \in 1..d |-> (k - 1 + s) % d] : s \in 1..d-1}
             \cup {[k \in 1..d |-> IF k - 1 = a THEN b ELSE IF k - 1 = b THEN a ELSE k - 1] : <<a, b>> \in UpPairs(d)}
             \cup {[k \in 1..d |-> d - k], [k \in 1..d |-> IF k = d THEN 0 ELSE IF k = 1 THEN d - 1 ELSE k - 1]}
Mid == {a \in AngSet : a % 2 = 1}

SingleItems(d) ==
  {[g |-> g, p |-> <<>>] : g \in {h \in {"h", "x", "z"} : InRing(h, <<d>>)}}
  \cup (IF Prime(d) /\ InRing("s", <<d>>) THEN {[g |-> "s", p |-> <<>>]} ELSE {})
  \cup {[g |-> "pm", p |-> c] : c \in Cycles(d)}
  \cup {[g |-> "rxy", p |-> <<l[1], l[2], a, b>>] : l \in Pairs(d), a \in AngSet, b \in AngSet}
  \cup {[g |-> "rz", p |-> <<l[1], l[2], a>>] : l \in Pairs(d), a \in AngSet}
  \cup {[g |-> "virtrz", p |-> <<l, a>>] : l \in 0..d-1, a \in AngSet}
  \cup {[g |-> g, p |-> l] : g \in {"noisex", "noisey"}, l \in Pairs(d)}
  \cup (IF InRing("rh", <<d>>) THEN {[g |-> "rh", p |-> l] : l \in Pairs(d)} ELSE {})
  \cup {[g |-> g, p |-> l] : g \in {"gells", "gella", "gelld"}, l \in UpPairs(d)}

TwoItems(t) ==
  {[g |-> "csum", p |-> <<>>]}
  \cup {[g |-> "cx", p |-> <<l[1], l[2], c, b>>] : l \in UpPairs(t[2]), c \in 0..t[1]-1, b \in AngSet}
  \cup {[g |-> "ls", p |-> <<a>>] : a \in AngSet}
  \cup {[g |-> "ms", p |-> <<a>>] : a \in {x \in AngSet : x <= N \div 4}}

Gates == UNION {{[kind |-> "gate", ld |-> <<d>>, g |-> i.g, p |-> i.p] : i \in SingleItems(d)} : d \in SetOf(SDims)}
         \cup UNION {{[kind |-> "gate", ld |-> t, g |-> i.g, p |-> i.p] : i \in TwoItems(t)} : t \in SetOf(TDims)}

(* Gell-Mann generators are Hermitian, not unitary: entries over sqrt(S2) *)
GellS2(g, p) == IF g = "gelld" THEN (p[2] * (p[2] + 1)) \div 2 ELSE 1
GellEnt(g, p, r, c) ==
  CASE g = "gells" -> IF {r, c} = {p[1], p[2]} THEN One ELSE <<>>
    [] g = "gella" -> IF r = p[1] /\ c = p[2] THEN MinusI(1) ELSE IF r = p[2] /\ c = p[1] THEN MinusI(0 - 1) ELSE <<>>
    [] g = "gelld" -> IF r # c THEN <<>> ELSE IF r < p[2] THEN One ELSE IF r = p[2] THEN << <<0 - p[2], 0>> >> ELSE <<>>
IsGell(g) == g \in {"gells", "gella", "gelld"}
GellCol(g, p, d, c) == [v |-> [r \in 1..d |-> TermsVal(GellEnt(g, p, r - 1, c - 1))], s2 |-> GellS2(g, p)]

(* ------------------------------------------------------------------ the algebra of the gates *)
Op(g, q, p) == [g |-> g, q |-> q, p |-> p, dag |-> FALSE, ctl |-> <<>>, cus |-> FALSE]
Dg(g, q, p) == [Op(g, q, p) EXCEPT !.dag = TRUE]
Cu(g, q, p, c) == [Op(g, q, p) EXCEPT !.ctl = c]
Rep(op, k) == [i \in 1..k |-> op]
Ph(d, e) == [Op("mono", <<0>>, <<[k \in 1..d |-> k], [k \in 1..d |-> e]>>) EXCEPT !.cus = TRUE]
Diag(d, f) == [Op("mono", <<0>>, <<[k \in 1..d |-> k], f>>) EXCEPT !.cus = TRUE]
Rel(nm, ld, l, r) == [kind |-> "rel", name |-> nm, ld |-> ld, lhs |-> l, rhs |-> r]
X0 == Op("x", <<0>>, <<>>)
Z0 == Op("z", <<0>>, <<>>)
H0 == Op("h", <<0>>, <<>>)
S0 == Op("s", <<0>>, <<>>)
Parity(d) == Op("pm", <<0>>, [k \in 1..d |-> (d - (k - 1)) % d])

WeylRels(d) == IF N % d # 0 THEN {} ELSE
  { Rel("X^d = 1", <<d>>, Rep(X0, d), <<>>),
    Rel("Z^d = 1", <<d>>, Rep(Z0, d), <<>>),
    Rel("Z X = w X Z", <<d>>, <<X0, Z0>>, <<Z0, X0, Ph(d, N \div d)>>),
    Rel("X X+ = 1", <<d>>, <<X0, Dg("x", <<0>>, <<>>)>>, <<>>) }
HRels(d) == IF ~InRing("h", <<d>>) THEN {} ELSE
  { Rel("H^2 = parity", <<d>>, <<H0, H0>>, <<Parity(d)>>),
    Rel("H^4 = 1", <<d>>, Rep(H0, 4), <<>>),
    Rel("H+ Z H = X", <<d>>, <<H0, Z0, Dg("h", <<0>>, <<>>)>>, <<X0>>),
    Rel("H X H+ = Z", <<d>>, <<Dg("h", <<0>>, <<>>), X0, H0>>, <<Z0>>) }
SRels(d) == IF ~Prime(d) \/ ~InRing("s", <<d>>) THEN {} ELSE
  IF d = 2 THEN { Rel("S^2 = Z", <<2>>, <<S0, S0>>, <<Z0>>) }
  ELSE { Rel("S^d = 1", <<d>>, Rep(S0, d), <<>>),
         Rel("S X S+ = X Z w", <<d>>, <<Dg("s", <<0>>, <<>>), X0, S0>>, <<Z0, X0, Ph(d, N \div d)>>) }
RotRels(d) == UNION {UNION {
  { Rel("R(a)R(b) = R(a+b)", <<d>>, <<Op("rxy", <<0>>, l \o <<a, 5>>), Op("rxy", <<0>>, l \o <<3, 5>>)>>,
                                    <<Op("rxy", <<0>>, l \o <<(a + 3) % N, 5>>)>>),
    Rel("R(a)+ = R(-a)", <<d>>, <<Dg("rxy", <<0>>, l \o <<a, 7>>)>>, <<Op("rxy", <<0>>, l \o <<(N - a) % N, 7>>)>>),
    Rel("R symmetric in its levels", <<d>>, <<Op("rxy", <<0>>, <<l[2], l[1], a, 7>>)>>, <<Op("rxy", <<0>>, l \o <<a, 7>>)>>),
    Rel("Rz(a)Rz(b) = Rz(a+b)", <<d>>, <<Op("rz", <<0>>, l \o <<a>>), Op("rz", <<0>>, l \o <<3>>)>>,
                                     <<Op("rz", <<0>>, l \o <<(a + 3) % N>>)>>),
    Rel("Rz = two virtual phases", <<d>>, <<Op("rz", <<0>>, l \o <<a>>)>>,
                                     <<Op("virtrz", <<0>>, <<l[1], a>>), Op("virtrz", <<0>>, <<l[2], (N - a) % N>>)>>),
    Rel("Rz turns the axis of R", <<d>>, <<Op("rz", <<0>>, l \o <<(N - a) % N>>), Op("rxy", <<0>>, l \o <<5, 3>>), Op("rz", <<0>>, l \o <<a>>)>>,
                                     <<Op("rxy", <<0>>, l \o <<5, (3 + 2 * a) % N>>)>>),
    Rel("virtual phase commutes through R with a changed axis", <<d>>,
        <<Op("virtrz", <<0>>, <<l[1], a>>), Op("rxy", <<0>>, l \o <<5, 3>>)>>,
        <<Op("rxy", <<0>>, l \o <<5, (3 + N - a) % N>>), Op("virtrz", <<0>>, <<l[1], a>>)>>),
    Rel("NoiseY = i NoiseX Z-phase", <<d>>, <<Op("noisey", <<0>>, l)>>,
        <<Op("virtrz", <<0>>, <<l[1], N - (N \div 4)>>), Op("virtrz", <<0>>, <<l[2], N \div 4>>), Op("noisex", <<0>>, l)>>) }
   \cup (IF N % 8 = 0 THEN
  { Rel("Rh^2 = -1 on its levels", <<d>>, <<Op("rh", <<0>>, l), Op("rh", <<0>>, l)>>, 
        <<Op("virtrz", <<0>>, <<l[1], N \div 2>>), Op("virtrz", <<0>>, <<l[2], N \div 2>>)>>),
    Rel("Rh = R(-pi,0) R(pi/2,pi/2)", <<d>>, <<Op("rxy", <<0>>, l \o <<N \div 8, N \div 4>>), Op("rxy", <<0>>, l \o <<N - (N \div 4), 0>>)>>,
        <<Op("rh", <<0>>, l)>>) } ELSE {})
   : a \in Mid} : l \in UpPairs(d)}

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
Lcm(a, b) == (a * b) \div GCD(a, b)
TwoRels(t) ==
  { Rel("CSum^d = 1", t, Rep(Op("csum", <<0, 1>>, <<>>), t[2]), <<>>),
    Rel("CSum = controlled X powers", t, <<Op("csum", <<0, 1>>, <<>>)>>,
        FoldLeft(LAMBDA acc, c : acc \o [i \in 1..c |-> Cu("x", <<1>>, <<>>, << <<0, c>> >>)], <<>>, [c \in 1..t[1]-1 |-> c])) }
  \cup UNION {
  { Rel("CEx^4 = 1", t, Rep(Op("cx", <<0, 1>>, <<0, t[2] - 1, t[1] - 1, a>>), 4), <<>>),
    Rel("CEx = controlled R(pi)", t, <<Op("cx", <<0, 1>>, <<0, t[2] - 1, t[1] - 1, a>>)>>,
        <<Cu("rxy", <<1>>, <<0, t[2] - 1, N \div 4, a>>, << <<0, t[1] - 1>> >>)>>),
    Rel("LS(a)LS(b) = LS(a+b)", t, <<Op("ls", <<0, 1>>, <<a>>), Op("ls", <<0, 1>>, <<1>>)>>, <<Op("ls", <<0, 1>>, <<a + 1>>)>>) } : a \in Mid}
  \cup { Rel("MS(a)MS(b) = MS(a+b)", t, <<Op("ms", <<0, 1>>, <<1>>), Op("ms", <<0, 1>>, <<2>>)>>, <<Op("ms", <<0, 1>>, <<3>>)>>) }
  \cup { Rel("symmetric gates ignore the target order", t, <<Op("ls", <<1, 0>>, <<3>>), Op("ms", <<1, 0>>, <<1>>)>>,
             <<Op("ls", <<0, 1>>, <<3>>), Op("ms", <<0, 1>>, <<1>>)>>) }
  (* the same gates with the second line named first *)
  \cup { Rel("reversed CSum = controlled X powers", t, <<Op("csum", <<1, 0>>, <<>>)>>,
        FoldLeft(LAMBDA acc, c : acc \o [i \in 1..c |-> Cu("x", <<0>>, <<>>, << <<1, c>> >>)], <<>>, [c \in 1..t[2]-1 |-> c])),
          Rel("reversed CSum daggered", t, <<Dg("csum", <<1, 0>>, <<>>), Op("csum", <<1, 0>>, <<>>)>>, <<>>),
          Rel("reversed CSum^d = 1", t, Rep(Op("csum", <<1, 0>>, <<>>), t[1]), <<>>) }
  \cup { Rel("reversed CEx = controlled R(pi)", t, <<Op("cx", <<1, 0>>, <<0, t[1] - 1, c, a>>)>>,
            <<Cu("rxy", <<0>>, <<0, t[1] - 1, N \div 4, a>>, << <<1, c>> >>)>>) : a \in Mid, c \in 0..t[2]-1 }

Rels == UNION {WeylRels(d) \cup HRels(d) \cup SRels(d) \cup RotRels(d) : d \in SetOf(SDims)}
        \cup UNION {TwoRels(t) : t \in SetOf(TDims)}

Eye(ld) == [k \in 1..Prod(ld) |-> Basis(ld, k)]
Lines(ld) == [k \in 1..Len(ld) |-> k - 1]
RunAll(ld, ops) == FoldLeft(LAMBDA st, op : ApplyAll(ld, op, st), Eye(ld), ops)

Init == item \in Gates \cup Rels /\ phase = "todo" /\ cols = <<>> /\ rcols = <<>>
Next == /\ phase = "todo" /\ phase' = "done" /\ UNCHANGED item
        /\ IF item.kind = "gate"
           THEN /\ cols' = IF IsGell(item.g) THEN [c \in 1..item.ld[1] |-> GellCol(item.g, item.p, item.ld[1], c)]
                           ELSE RunAll(item.ld, <<Op(item.g, Lines(item.ld), item.p)>>)
                /\ rcols' = <<>>
                /\ PrintT("@@" \o ToJson([item EXCEPT !.kind = "gate"] @@
                     [v |-> [k \in 1..Len(cols') |-> cols'[k].v], s2 |-> [k \in 1..Len(cols') |-> cols'[k].s2]]))
           ELSE /\ cols' = RunAll(item.ld, item.lhs)
                /\ rcols' = RunAll(item.ld, item.rhs)
                /\ PrintT("@@" \o ToJson(item))
Spec == Init /\ [][Next]_vars

Unitary == (phase = "done" /\ item.kind = "gate" /\ ~IsGell(item.g)) =>
             /\ \A k \in 1..Len(cols) : IsNormalised(cols[k])
             /\ \A j, k \in 1..Len(cols) : j < k => Orthogonal(cols[j], cols[k])
RelOK == (phase = "done" /\ item.kind = "rel") => \A k \in 1..Len(cols) : SameState(cols[k], rcols[k])
GellOK == (phase = "done" /\ item.kind = "gate" /\ IsGell(item.g)) =>
            \* Hermitian, with trace of the square equal to 2
            /\ \A j, k \in 1..Len(cols) : RConj(cols[j].v[k]) = cols[k].v[j]
            /\ FoldLeft(LAMBDA acc, c : RAdd(acc, NormSq(c)), RZero, cols) = RInt(2 * GellS2(item.g, item.p))
=============================================================================
