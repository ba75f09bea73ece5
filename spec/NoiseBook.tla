----------------------------- MODULE NoiseBook -----------------------------
(***************************************************************************)
(* Building noise models: noise objects the user holds, and a model that   *)
(* assigns noise per gate name and mode.  What a model says about a gate   *)
(* depends only on what was added for that gate: the model keeps its own   *)
(* copy of what it is given, and neither another gate nor a later edit of  *)
(* the user's object reaches it.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS MaxLen, MaxObjs, TagLists, ModeSet, LevelArgs, EditLevels,
          Accepted,  \* TRUE: only histories in which nothing is refused
          Staged     \* TRUE: first MaxObjs noises are made, then only additions follow

VARIABLES objs, book, log, live
vars == <<objs, book, log, live>>

Math(a) == [kind |-> "math", a |-> a, lv |-> <<>>]
Sub(lv) == [kind |-> "sub", a |-> 0, lv |-> lv]
Norm(l) == IF l[2] < l[1] THEN <<l[2], l[1]>> ELSE <<l[1], l[2]>>
Neg(l) == l[1] < 0 /\ l[2] < 0

(* one more subspace in a list of subspaces <<lev_a, lev_b, strength>> ; "no" when refused *)
LevelOK(lv, l) == LET x == Norm(l) IN
  /\ x[1] # x[2]
  /\ \A k \in 1..Len(lv) : lv[k][1] # x[1] \/ lv[k][2] # x[2]
  /\ ~((x[1] < 0 \/ x[2] < 0) /\ lv # <<>>)
  /\ \A k \in 1..Len(lv) : ~Neg(lv[k])
RECURSIVE AddLevels(_, _)
AddLevels(lv, new) == IF new = <<>> THEN [ok |-> TRUE, lv |-> lv]
                      ELSE IF ~LevelOK(lv, new[1]) THEN [ok |-> FALSE, lv |-> lv]
                      ELSE AddLevels(Append(lv, Norm(new[1]) \o <<new[1][3]>>), Tail(new))

(* ------------------------------------------------------------------ the model: sequence of [tag, es: sequence of [mode, noise]] *)
IdxOf(s, P(_)) == IF \E k \in 1..Len(s) : P(s[k]) THEN CHOOSE k \in 1..Len(s) : P(s[k]) ELSE 0
Put(bk, tag, mode, noise) ==
  LET t == IdxOf(bk, LAMBDA x : x.tag = tag) IN
  IF t = 0 THEN [ok |-> TRUE, bk |-> Append(bk, [tag |-> tag, es |-> <<[mode |-> mode, noise |-> noise]>>])]
  ELSE LET m == IdxOf(bk[t].es, LAMBDA x : x.mode = mode) IN
       IF m = 0 THEN [ok |-> TRUE, bk |-> [bk EXCEPT ![t].es = Append(@, [mode |-> mode, noise |-> noise])]]
       ELSE IF noise.kind = "math" \/ bk[t].es[m].noise.kind = "math" THEN [ok |-> FALSE, bk |-> bk]
       ELSE LET r == AddLevels(bk[t].es[m].noise.lv, noise.lv) IN
            [ok |-> r.ok, bk |-> IF r.ok THEN [bk EXCEPT ![t].es[m].noise.lv = r.lv] ELSE bk]
RECURSIVE PutAll(_, _, _, _)
PutAll(bk, tags, mode, noise) == IF tags = <<>> THEN [ok |-> TRUE, bk |-> bk]
                                 ELSE LET r == Put(bk, tags[1], mode, noise) IN
                                      IF r.ok THEN PutAll(r.bk, Tail(tags), mode, noise) ELSE [ok |-> FALSE, bk |-> bk]

(* ------------------------------------------------------------------ actions; a refusal ends the history *)
Step(op, arg, ok, no, nb) ==
  /\ live /\ Len(log) < MaxLen /\ (Accepted => ok)
  /\ Staged => (Len(objs) < MaxObjs <=> op \in {"math", "sub"})
  /\ objs' = (IF ok THEN no ELSE objs) /\ book' = (IF ok THEN nb ELSE book) /\ live' = ok
  /\ log' = Append(log, [op |-> op, arg |-> arg, ok |-> ok, objs |-> objs', book |-> book'])

NewMath == Len(objs) < MaxObjs /\ Step("math", [a |-> Len(log) + 1], TRUE, Append(objs, Math(Len(log) + 1)), book)
NewSub == Len(objs) < MaxObjs /\ \E ls \in LevelArgs :
  LET new == IF ls = <<>> THEN << <<-2, -1, Len(log) + 1>> >> ELSE [k \in 1..Len(ls) |-> ls[k] \o <<Len(log) + 1>>]
      r == AddLevels(<<>>, new)
  IN Step("sub", [levels |-> ls, a |-> Len(log) + 1], r.ok, Append(objs, Sub(r.lv)), book)
EditSub == \E i \in 1..Len(objs) : objs[i].kind = "sub" /\ \E l \in EditLevels :
  LET r == AddLevels(objs[i].lv, << l \o <<Len(log) + 1>> >>)
  IN Step("edit", [i |-> i - 1, level |-> l, a |-> Len(log) + 1], r.ok, [objs EXCEPT ![i].lv = r.lv], book)
(* the strength of one noise of an object handed over is edited in place; the model keeps what it was told *)
SetMath == \E i \in 1..Len(objs) : objs[i].kind = "math" /\
  Step("setmath", [i |-> i - 1, a |-> Len(log) + 1], TRUE, [objs EXCEPT ![i].a = Len(log) + 1], book)
SetLevel == \E i \in 1..Len(objs) : \E k \in 1..Len(objs[i].lv) :
  Step("setlevel", [i |-> i - 1, k |-> k - 1, a |-> Len(log) + 1], TRUE, [objs EXCEPT ![i].lv[k][3] = Len(log) + 1], book)
AddErr == \E i \in 1..Len(objs) : \E ts \in TagLists, m \in ModeSet :
  LET r == PutAll(book, ts, m, objs[i]) IN Step("add", [i |-> i - 1, tags |-> ts, mode |-> m], r.ok, objs, r.bk)

Init == objs = <<>> /\ book = <<>> /\ log = <<>> /\ live = TRUE
Emit == /\ Len(log) = MaxLen \/ (~live /\ log # <<>>)
        /\ log[Len(log)].op # "end"
        /\ PrintT("@@" \o ToJson([log |-> log]))
        /\ log' = Append(log, [op |-> "end"]) /\ live' = FALSE
        /\ UNCHANGED <<objs, book>>
Next == NewMath \/ NewSub \/ EditSub \/ SetMath \/ SetLevel \/ AddErr \/ Emit
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ properties *)
GoodLevels(lv) == /\ \A k \in 1..Len(lv) : lv[k][1] < lv[k][2] /\ (Neg(lv[k]) => Len(lv) = 1)
                  /\ \A j, k \in 1..Len(lv) : j # k => <<lv[j][1], lv[j][2]>> # <<lv[k][1], lv[k][2]>>
WellFormed == /\ \A i \in 1..Len(objs) : GoodLevels(objs[i].lv)
              /\ \A t \in 1..Len(book) : \A e \in 1..Len(book[t].es) : GoodLevels(book[t].es[e].noise.lv)
              /\ \A s, t \in 1..Len(book) : s # t => book[s].tag # book[t].tag
(* adding noise for some gates leaves every other gate alone *)
LastOp == log[Len(log)]
Local == [][(log' # log /\ LastOp'.op = "add") => \A t \in 1..Len(book) : (\A k \in 1..Len(LastOp'.arg.tags) : LastOp'.arg.tags[k] # book[t].tag) => book'[t] = book[t]]_vars
=============================================================================
