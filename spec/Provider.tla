------------------------------ MODULE Provider ------------------------------
(***************************************************************************)
(* Looking up backends by name.  Names are sequences of letters; a query   *)
(* matches the names it occurs in.  One match gives that backend, none or  *)
(* several are refused.  The queries are all pieces of all names, their    *)
(* pairwise joins of short pieces, and everything in Extra.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Table,    \* sequence of <<name as letters, kind>>
          Extra     \* set of further queries (as letters)

Rng(s) == {s[k] : k \in 1..Len(s)}
NameOf(k) == Table[k][1]
Pieces(n) == {SubSeq(n, i, j) : i \in 1..Len(n), j \in 1..Len(n)} \ {<<>>}
Occurs(q, n) == \E i \in 0..(Len(n) - Len(q)) : \A k \in 1..Len(q) : n[i + k] = q[k]
Matches(q) == SelectSeq([k \in 1..Len(Table) |-> k], LAMBDA k : Occurs(q, NameOf(k)))
Queries == UNION {Pieces(NameOf(k)) : k \in 1..Len(Table)} \cup Extra

VARIABLES q, done
Init == q \in Queries /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ q' = q
        /\ PrintT("@@" \o ToJson([q |-> q, m |-> Matches(q)]))
Spec == Init /\ [][Next]_<<q, done>>
(* every full name finds its backend; a longer query never finds more *)
Findable == \A k \in 1..Len(Table) : \E j \in 1..Len(Matches(NameOf(k))) : Matches(NameOf(k))[j] = k
Narrowing == \A p \in Pieces(q) : Rng(Matches(q)) \subseteq Rng(Matches(p))
=============================================================================
