-------------------------------- MODULE Qasm --------------------------------
(***************************************************************************)
(* The DITQASM exchange format.  A finished program (module Programs) is   *)
(* printed as a sequence of statements - each a sequence of tokens - and   *)
(* then read back by a loader that is itself a state machine: one          *)
(* statement per step, building the register map and the gate list.        *)
(* RoundTrip: the loader ends with the program that was printed.           *)
(* The concrete text and the program are emitted for the replay into the   *)
(* real reader; the statements are what the real writer must produce.      *)
(***************************************************************************)
EXTENDS Programs

VARIABLES text,   \* the printed statements
          pc,     \* loader: next statement
          smap,   \* loader: sequence of <<register, index, dimension>>
          cmap,   \* loader: sequence of <<classical register, index>>
          gates,  \* loader: gates read so far
          incom   \* loader: inside a block comment
qvars == <<vars, text, pc, smap, cmap, gates, incom>>

(* ------------------------------------------------------------------ tokens *)
W(s) == [t |-> "w", s |-> s]
Num(k) == [t |-> "num", n |-> k]
Ref(r, i) == [t |-> "ref", r |-> r, i |-> i]
Sym(s) == [t |-> "sym", s |-> s]
(* an angle k * 2 pi * mult / N *)
Ang(mult, k) == [t |-> "ang", m |-> mult, k |-> k, free |-> TRUE]
(* ... of a gate that takes angles in [0, 2 pi] only *)
Arc(mult, k) == [t |-> "ang", m |-> mult, k |-> k, free |-> FALSE]
Lev(s) == [t |-> "lev", l |-> s]
TokText(x) == CASE x.t = "w" -> x.s
                [] x.t = "num" -> ToString(x.n)
                [] x.t = "ref" -> x.r \o "[" \o ToString(x.i) \o "]"
                [] x.t = "sym" -> x.s
                [] x.t = "ang" -> ToString(2 * x.m * x.k) \o "*pi/" \o ToString(N)
                [] x.t = "lev" -> "[" \o FoldLeft(LAMBDA a, b : IF a = "" THEN ToString(b) ELSE a \o ", " \o ToString(b), "", x.l) \o "]"
(* the same angle as other people write it: reordered, with a leading minus (a period less), with an exponent, with a rounding error *)
Spelt(x) ==
  IF x.t # "ang" THEN TokText(x)
  ELSE LET a == 2 * x.m * x.k  w == (x.k + x.m) % 8 IN
       CASE w = 0 -> "pi*" \o ToString(a) \o "/" \o ToString(N)
         [] w = 1 /\ (x.free \/ x.m * x.k < N) -> ToString(a) \o "*pi/" \o ToString(N) \o "+2.5e-13"
         [] w = 2 /\ x.free -> "-" \o ToString(2 * x.m * N - a) \o "*pi/" \o ToString(N)
         [] w = 3 /\ (x.free \/ x.m * x.k < N) -> ToString(a) \o "e-3*1E3*pi/" \o ToString(N)
         [] w = 4 /\ x.free -> "pi/" \o ToString(N) \o "*" \o ToString(a) \o "-3E-14"
         [] w = 5 -> ToString(a) \o ".0*pi/" \o ToString(N)
         [] w = 6 -> ToString(a) \o " * pi / " \o ToString(N)
         [] OTHER -> TokText(x)
Joined(st, T(_)) == FoldLeft(LAMBDA acc, x : acc \o (IF acc = "" \/ (x.t = "sym" /\ x.s \in {",", ";"}) THEN "" ELSE " ") \o T(x), "", st)
SpeltStmt(st) == Joined(st, Spelt)
StmtText(st) == FoldLeft(LAMBDA acc, x : acc \o (IF acc = "" \/ (x.t = "sym" /\ x.s \in {",", ";"}) THEN "" ELSE " ") \o TokText(x), "", st)

(* ------------------------------------------------------------------ registers: the lines split over named registers *)
Names == << <<"q">>, <<"field", "matter">>, <<"a", "b_1">>, <<"pin", "ctrl", "meas0">>, <<"q", "q1">> >>
Split(n, style) == \* sizes of the registers
  CASE style = 1 -> <<n>>
    [] style = 2 -> IF n > 1 THEN <<n - 1, 1>> ELSE <<1>>
    [] style = 3 -> IF n > 1 THEN <<1, n - 1>> ELSE <<1>>
    [] style = 5 -> IF n > 11 THEN <<11, n - 11>> ELSE <<n - 2, 2>>   \* q[10] and q1[0] are different lines
    [] style = 4 -> IF n > 2 THEN <<1, n - 2, 1>> ELSE IF n = 2 THEN <<1, 1>> ELSE <<1>>
Before(sizes, k) == FoldLeft(LAMBDA a, b : a + b, 0, SubSeq(sizes, 1, k - 1))
RegOf(sizes, line) == CHOOSE k \in 1..Len(sizes) : Before(sizes, k) <= line /\ line < Before(sizes, k) + sizes[k]
RefOf(style, n, line) == LET s == Split(n, style)  k == RegOf(s, line) IN Ref(Names[style][k], line - Before(s, k))

(* ------------------------------------------------------------------ printer *)
Mult(g) == CASE g \in {"rxy1", "rz"} -> 2 [] g = "ms" -> 4 [] OTHER -> 1
ParamToks(op) ==
  CASE op.g = "rxy" -> <<Num(op.p[1]), Num(op.p[2]), Ang(2, op.p[3]), Ang(1, op.p[4])>>
    [] op.g = "rz" -> <<Num(op.p[1]), Num(op.p[2]), Ang(2, op.p[3])>>
    [] op.g = "virtrz" -> <<Num(op.p[1]), Ang(1, op.p[2])>>
    [] op.g = "cx" -> <<Num(op.p[1]), Num(op.p[2]), Num(op.p[3]), Arc(1, op.p[4])>>
    [] op.g = "ls" -> <<Arc(1, op.p[1])>>
    [] op.g = "ms" -> <<Arc(4, op.p[1])>>
    [] OTHER -> [k \in 1..Len(op.p) |-> Num(op.p[k])]
RECURSIVE Commas(_)
Commas(s) == IF Len(s) <= 1 THEN s ELSE <<s[1], Sym(",")>> \o Commas(Tail(s))
GateStmt(op, style, n) ==
  <<W(op.g)>>
  \o (IF op.p = <<>> THEN <<>> ELSE <<Sym("(")>> \o Commas(ParamToks(op)) \o <<Sym(")")>>)
  \o Commas([k \in 1..Len(op.q) |-> RefOf(style, n, op.q[k])])
  \o (IF op.ctl = <<>> THEN <<>>
      ELSE <<W("ctl")>> \o [k \in 1..Len(op.ctl) |-> RefOf(style, n, op.ctl[k][1])]
           \o <<Lev([k \in 1..Len(op.ctl) |-> op.ctl[k][2]])>>)
  \o <<Sym(";")>>
RegStmt(name, size, ds) == <<W("qreg"), W(name), Lev(<<size>>)>>
                           \o (IF \A k \in 1..Len(ds) : ds[k] = 2 THEN <<>> ELSE <<Lev(ds)>>) \o <<Sym(";")>>
Header == <<W("DITQASM"), W("2.0"), Sym(";")>>
CregStmt(n) == <<W("creg"), W("meas"), Lev(<<n>>), Sym(";")>>
Measure(style, n, k) == <<W("measure"), RefOf(style, n, k), W("->"), Ref("meas", k), Sym(";")>>
Noise(v) == CASE v % 7 = 0 -> << <<W("// x q[0];")>> >>
              [] v % 7 = 1 -> << <<W("/* x q[0]; */")>> >>
              [] v % 7 = 2 -> << <<W("/* z q[0];")>>, <<W("h q[0];")>>, <<W("*/")>> >>
              [] v % 7 = 3 -> << <<>> >>
              [] v % 7 = 4 -> << <<W("/* begin")>>, <<W("x q[0]; */")>> >>
              [] OTHER -> <<>>
Printed(ds, pr, style, vs) ==
  LET n == Len(ds)  s == Split(n, style) IN
  <<Header>>
  \o [k \in 1..Len(s) |-> RegStmt(Names[style][k], s[k], SubSeq(ds, Before(s, k) + 1, Before(s, k) + s[k]))]
  \o <<CregStmt(n)>>
  \o FoldLeft(LAMBDA acc, k : acc \o Noise(vs[k]) \o <<GateStmt(pr[k], style, n)>>, <<>>, [k \in 1..Len(pr) |-> k])
  \o [k \in 1..n |-> Measure(style, n, k - 1)]

(* ------------------------------------------------------------------ loader *)
LineOf(m, r, i) == (CHOOSE k \in 1..Len(m) : m[k][1] = r /\ m[k][2] = i) - 1
UpTo(s, k, pred(_)) == LET ks == {j \in k..Len(s) : pred(s[j])} IN CHOOSE j \in ks : \A i \in ks : j <= i
ReadGate(st, m) ==
  LET g == st[1].s
      hasp == Len(st) > 1 /\ st[2].t = "sym" /\ st[2].s = "("
      close == IF hasp THEN UpTo(st, 2, LAMBDA x : x.t = "sym" /\ x.s = ")") ELSE 1
      ptoks == IF hasp THEN SelectSeq(SubSeq(st, 3, close - 1), LAMBDA x : x.t # "sym") ELSE <<>>
      params == [k \in 1..Len(ptoks) |-> IF ptoks[k].t = "num" THEN ptoks[k].n ELSE ptoks[k].k]
      rest == SubSeq(st, close + 1, Len(st))
      ctlat == {k \in 1..Len(rest) : rest[k].t = "w" /\ rest[k].s = "ctl"}
      c == IF ctlat = {} THEN Len(rest) + 1 ELSE CHOOSE k \in ctlat : TRUE
      refs == SelectSeq(SubSeq(rest, 1, c - 1), LAMBDA x : x.t = "ref")
      crefs == SelectSeq(SubSeq(rest, c, Len(rest)), LAMBDA x : x.t = "ref")
      levs == SelectSeq(SubSeq(rest, c, Len(rest)), LAMBDA x : x.t = "lev")
  IN [g |-> g, q |-> [k \in 1..Len(refs) |-> LineOf(m, refs[k].r, refs[k].i)], p |-> params, dag |-> FALSE,
      ctl |-> IF ctlat = {} THEN <<>> ELSE [k \in 1..Len(crefs) |-> <<LineOf(m, crefs[k].r, crefs[k].i), levs[1].l[k]>>],
      cus |-> FALSE]

IsW(st, s) == st # <<>> /\ st[1].t = "w" /\ st[1].s = s
Opens(st) == st # <<>> /\ st[1].t = "w" /\ st[1].s \in {"/* begin", "/* z q[0];"}
OneLine(st) == IsW(st, "/* x q[0]; */") \/ IsW(st, "// x q[0];")
Closes(st) == st # <<>> /\ st[1].t = "w" /\ st[1].s \in {"*/", "x q[0]; */"}

LoadStep ==
  /\ phase = "load" /\ pc <= Len(text)
  /\ pc' = pc + 1
  /\ UNCHANGED <<vars, text>>
  /\ LET st == text[pc] IN
     IF incom THEN /\ incom' = ~Closes(st) /\ UNCHANGED <<smap, cmap, gates>>
     ELSE IF st = <<>> \/ OneLine(st) \/ IsW(st, "DITQASM") \/ IsW(st, "measure") THEN UNCHANGED <<smap, cmap, gates, incom>>
     ELSE IF Opens(st) THEN incom' = TRUE /\ UNCHANGED <<smap, cmap, gates>>
     ELSE IF IsW(st, "qreg")
          THEN LET n == st[3].l[1]
                   ds == IF st[4].t = "lev" THEN st[4].l ELSE [k \in 1..n |-> 2] IN
               /\ smap' = smap \o [k \in 1..n |-> <<st[2].s, k - 1, ds[k]>>]
               /\ UNCHANGED <<cmap, gates, incom>>
     ELSE IF IsW(st, "creg")
          THEN /\ cmap' = cmap \o [k \in 1..st[3].l[1] |-> <<st[2].s, k - 1>>]
               /\ UNCHANGED <<smap, gates, incom>>
     ELSE gates' = Append(gates, ReadGate(st, smap)) /\ UNCHANGED <<smap, cmap, incom>>

PrintStep ==
  /\ phase = "run" /\ Len(prog) = len
  /\ LET rs == RSeq(rng, 20 + len)
         vs == [k \in 1..20 + len |-> RVal(rs[k])]
         style == IF Len(dims) = 1 THEN 1 ELSE IF Len(dims) > 11 /\ vs[1] % 3 # 0 THEN 5 ELSE (vs[1] % (IF Len(dims) > 2 THEN 5 ELSE 3)) + 1
         txt == Printed(dims, prog, style, SubSeq(vs, 2, 20 + len))
     IN /\ text' = txt
        /\ PrintT("@@" \o ToJson(Record @@ [text |-> [k \in 1..Len(txt) |-> SpeltStmt(txt[k])],
             stmts |-> [k \in 1..Len(prog) |-> StmtText(GateStmt(prog[k], style, Len(dims)))],
             frame |-> LET bare == Printed(dims, <<>>, style, vs) IN [k \in 1..Len(bare) |-> StmtText(bare[k])],
             style |-> style, regs |-> [k \in 1..Len(Split(Len(dims), style)) |-> <<Names[style][k], Split(Len(dims), style)[k]>>]]))
  /\ phase' = "load" /\ pc' = 1
  /\ UNCHANGED <<sid, rng, dims, prog, cols, pos, len, smap, cmap, gates, incom>>

InitQ == InitSampled /\ text = <<>> /\ pc = 0 /\ smap = <<>> /\ cmap = <<>> /\ gates = <<>> /\ incom = FALSE
NextQ == (StepSampled /\ UNCHANGED <<text, pc, smap, cmap, gates, incom>>) \/ PrintStep \/ LoadStep
SpecQ == InitQ /\ [][NextQ]_qvars

RoundTrip == (phase = "load" /\ pc > Len(text)) =>
               /\ gates = prog
               /\ [k \in 1..Len(smap) |-> smap[k][3]] = dims
               /\ Len(cmap) = Len(dims)
               /\ ~incom
PrefixOK == phase = "load" => gates = SubSeq(prog, 1, Len(gates))
=============================================================================
