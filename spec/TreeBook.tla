------------------------------ MODULE TreeBook ------------------------------
(***************************************************************************)
(* The search tree of the adaptive decomposition.  Nodes are added below   *)
(* existing nodes and get a cost; leaves may be declared finished.  A      *)
(* decomposition is a path from the root to a finished leaf; the one       *)
(* retrieved has the least cost of its leaf.  All trees with at most MaxNodes   *)
(* nodes are states.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS MaxNodes, Costs
VARIABLES parent, cost, fin, open
vars == <<parent, cost, fin, open>>
Nodes == 1..Len(parent)
Children(i) == {j \in Nodes : parent[j] = i}
Leaves == {i \in Nodes : Children(i) = {}}
Init == parent = <<0>> /\ cost \in {<<c>> : c \in Costs} /\ fin = {} /\ open = TRUE
Add == /\ open /\ Len(parent) < MaxNodes
       /\ \E p \in Nodes, c \in Costs : parent' = Append(parent, p) /\ cost' = Append(cost, c)
       /\ UNCHANGED <<fin, open>>
RECURSIVE PathTo(_), Depth(_), Below(_)
PathTo(i) == IF i = 1 THEN <<1>> ELSE Append(PathTo(parent[i]), i)
Max2(S) == CHOOSE x \in S : \A y \in S : y <= x
Depth(i) == IF Children(i) = {} THEN 0 ELSE 1 + Max2({Depth(j) : j \in Children(i)})
Below(i) == Children(i) \cup UNION {Below(j) : j \in Children(i)}
FinishedBelow(i) == (fin \cap (Below(i) \cup {i}))
BestCost(S) == CHOOSE c \in {cost[j] : j \in S} : \A j \in S : c <= cost[j]
Best(i) == LET S == FinishedBelow(i) IN IF S = {} THEN {} ELSE {j \in S : cost[j] = BestCost(S)}
Close == /\ open
         /\ \E S \in SUBSET Leaves : fin' = S
         /\ open' = FALSE
         /\ UNCHANGED <<parent, cost>>
Ask == /\ ~open /\ Len(parent) > 0
       /\ PrintT("@@" \o ToJson([parent |-> parent, cost |-> cost, fin |-> SetToSortSeq(fin, <),
                 depth |-> [i \in Nodes |-> Depth(i)], below |-> [i \in Nodes |-> Cardinality(Below(i))],
                 found |-> [i \in Nodes |-> FinishedBelow(i) # {}],
                 best |-> [i \in Nodes |-> LET b == SetToSortSeq(Best(i), <) IN [j \in 1..Len(b) |-> PathTo(b[j])]]]))
       /\ UNCHANGED vars
Next == Add \/ Close \/ Ask
Spec == Init /\ [][Next]_vars
(* every path is rooted, and goes down the tree *)
PathOK == \A i \in Nodes : LET p == PathTo(i) IN p[1] = 1 /\ p[Len(p)] = i /\ \A j \in 1..(Len(p) - 1) : parent[p[j + 1]] = p[j]
SizeOK == Cardinality(Below(1)) + 1 = Len(parent) /\ Depth(1) < Len(parent)
BestOK == \A i \in Best(1) : i \in Leaves
=============================================================================
