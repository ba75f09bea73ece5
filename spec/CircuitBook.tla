---------------------------- MODULE CircuitBook ----------------------------
(***************************************************************************)
(* The bookkeeping of circuit objects: registers, sitemaps, the gate list, *)
(* and every operation that edits them, on up to two circuits (the second  *)
(* one is always obtained as a copy of the other, so that independence of  *)
(* copies is observable).                                                  *)
(* log records the history with the expected outcome of every step and the *)
(* expected observable state after it; it is printed at depth MaxLen.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS MaxLen, MaxGates, MaxLines, Kinds   \* Kinds: the operations enabled in this run

VARIABLES start, circ,  \* <<record, record>>; circ[2] may be "none"
          log
vars == <<start, circ, log>>

None == [live |-> FALSE]
Empty == [live |-> TRUE, regs |-> <<>>, cl |-> <<>>, dims |-> <<>>, gates |-> <<>>, map |-> <<>>]

(* first register always present, so that gates can be added at once *)
Start == [Empty EXCEPT !.regs = << <<"q", <<2, 3>> >> >>, !.dims = <<2, 3>>]
Start2 == [Empty EXCEPT !.regs = << <<"a", <<3>> >>, <<"b", <<2, 4>> >> >>, !.dims = <<3, 2, 4>>]

G(t, q) == [t |-> t, q |-> q, ctl |-> <<>>, dag |-> FALSE]
Lines(c) == 0..(Len(c.dims) - 1)
Reverse2(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]

Step(op, c, i, newc, outcome) ==
  /\ Len(log) < MaxLen
  /\ circ' = [circ EXCEPT ![i] = newc]
  /\ UNCHANGED start
  /\ log' = Append(log, [op |-> op, i |-> i, arg |-> c, out |-> outcome, obs |-> [k \in 1..2 |-> circ'[k]]])

On(k) == k \in Kinds
Live(i) == circ[i].live

AppendReg == On("reg") /\ \E i \in 1..2, d \in {<<2>>, <<4, 2>>} :
  /\ Live(i) /\ Len(circ[i].dims) + Len(d) <= MaxLines
  /\ LET nm == "r" \o ToString(Len(circ[i].regs)) IN
     Step("append", [name |-> nm, dims |-> d], i,
          [circ[i] EXCEPT !.regs = Append(@, <<nm, d>>), !.dims = @ \o d], "ok")
AppendCl == On("reg") /\ \E i \in 1..2, n \in 1..2 :
  /\ Live(i) /\ Len(circ[i].cl) < 2
  /\ LET nm == "c" \o ToString(Len(circ[i].cl)) IN
     Step("append_classic", [name |-> nm, size |-> n], i, [circ[i] EXCEPT !.cl = Append(@, <<nm, n>>)], "ok")
AddOne == On("gate") /\ \E i \in 1..2 : Live(i) /\ Len(circ[i].gates) < MaxGates /\ \E l \in Lines(circ[i]), t \in {"x", "h"} :
  Step("gate", [t |-> t, q |-> <<l>>], i, [circ[i] EXCEPT !.gates = Append(@, G(t, <<l>>))], "ok")
AddTwo == On("gate") /\ \E i \in 1..2 : Live(i) /\ Len(circ[i].gates) < MaxGates /\ \E l, m \in Lines(circ[i]) : l # m /\
  Step("gate", [t |-> "csum", q |-> <<l, m>>], i, [circ[i] EXCEPT !.gates = Append(@, G("csum", <<l, m>>))], "ok")

(* controls on the last gate of a circuit; the code accepts them on single-qudit gates only, once *)
CtlOutcome(c, g, l, lev) ==
  IF Len(g.q) + Len(g.ctl) > 1 THEN "AssertionError"
  ELSE IF l \notin Lines(c) THEN "IndexError"
  ELSE IF l = g.q[1] THEN "IndexError"
  ELSE IF lev >= c.dims[l + 1] THEN "IndexError"
  ELSE "ok"
Control == On("ctl") /\ \E i \in 1..2 : Live(i) /\ circ[i].gates # <<>> /\ \E l \in 0..Len(circ[i].dims), lev \in {0, 1, 2, 3, 4} :
  LET c == circ[i]  n == Len(c.gates)  g == c.gates[n]  o == CtlOutcome(c, g, l, lev) IN
  Step("control", [k |-> n - 1, l |-> l, lev |-> lev], i,
       IF o = "ok" THEN [c EXCEPT !.gates[n].ctl = << <<l, lev>> >>] ELSE c, o)
Dag == On("dag") /\ \E i \in 1..2 : Live(i) /\ \E k \in 1..Len(circ[i].gates) :
  Step("dag", [k |-> k - 1], i, [circ[i] EXCEPT !.gates[k].dag = ~@], "ok")

(* replace gate k by 0..2 fresh gates *)
Replace == On("edit") /\ \E i \in 1..2 : Live(i) /\ Len(circ[i].gates) < MaxGates /\ \E k \in 1..Len(circ[i].gates), n \in 0..2 :
  LET c == circ[i]
      new == [j \in 1..n |-> G(IF j = 1 THEN "h" ELSE "x", <<0>>)]
  IN Step("replace", [k |-> k - 1, new |-> new], i,
          [c EXCEPT !.gates = SubSeq(@, 1, k - 1) \o new \o SubSeq(@, k + 1, Len(@))], "ok")
SetReversed == On("edit") /\ \E i \in 1..2 : Live(i) /\ circ[i].gates # <<>> /\
  Step("set_reversed", [k |-> 0], i, [circ[i] EXCEPT !.gates = Reverse2(@)], "ok")
SetEmpty == On("edit") /\ \E i \in 1..2 : Live(i) /\ circ[i].gates # <<>> /\
  Step("set_empty", [k |-> 0], i, [circ[i] EXCEPT !.gates = <<>>], "ok")
SetMapping == On("edit") /\ \E i \in 1..2 : Live(i) /\ circ[i].map = <<>> /\
  Step("set_mapping", [m |-> [k \in 1..Len(circ[i].dims) |-> [j \in 1..circ[i].dims[k] |-> circ[i].dims[k] - j]]], i,
       [circ[i] EXCEPT !.map = [k \in 1..Len(circ[i].dims) |-> [j \in 1..circ[i].dims[k] |-> circ[i].dims[k] - j]]], "ok")
Reset == On("reset") /\ \E i \in 1..2 : Live(i) /\ Step("reset", [k |-> 0], i, Empty, "ok")
Copy == On("copy") /\ \E i \in 1..2 : Live(i) /\ Step("copy", [from |-> i], 3 - i, circ[i], "ok")

Init == start \in {Start, Start2} /\ circ = <<start, None>> /\ log = <<>>
Act == AppendReg \/ AppendCl \/ AddOne \/ AddTwo \/ Control \/ Dag \/ Replace \/ SetReversed \/ SetEmpty \/ SetMapping \/ Reset \/ Copy
Emit == /\ Len(log) = MaxLen
        /\ PrintT("@@" \o ToJson([regs0 |-> start.regs, log |-> log]))
        /\ log' = Append(log, [op |-> "end"])
        /\ UNCHANGED <<start, circ>>
Next == Act \/ Emit
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ properties *)
Flat(c) == FoldLeft(LAMBDA acc, r : acc \o r[2], <<>>, c.regs)
WellFormed == \A i \in 1..2 : circ[i].live =>
  /\ circ[i].dims = Flat(circ[i])
  /\ \A k \in 1..Len(circ[i].gates) :
       LET g == circ[i].gates[k] IN
       /\ \A j \in 1..Len(g.ctl) : g.ctl[j][1] # g.q[1] /\ g.ctl[j][2] < circ[i].dims[g.ctl[j][1] + 1]
       /\ \A j \in 1..Len(g.q) : g.q[j] \in Lines(circ[i])
Isolated == [][\A i \in 1..2 : (log' # log /\ Len(log') <= MaxLen /\ log'[Len(log')].i # i) => circ'[i] = circ[i]]_vars
=============================================================================
