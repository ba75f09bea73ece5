-------------------------------- MODULE Jobs --------------------------------
(***************************************************************************)
(* Waiting for a job.  The environment is a script: the job shows          *)
(* Script[1] first and moves on to the next status after the given number  *)
(* of time units; the last status stays.  The waiter polls: a query, then  *)
(* either it returns, gives up, or reports to the callback and sleeps.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen,      \* statuses in a script
          Durations, Waits, Timeouts,   \* in time units; timeout -1 : none
          NoTimeout

Final == {"DONE", "CANCELLED", "ERROR"}
Open == {"INITIALIZING", "QUEUED", "VALIDATING", "RUNNING"}
Statuses == Final \cup Open

(* a job passes through open statuses and may end in a final one, which it never leaves *)
Scripts == UNION {{s \in [1..n -> (Statuses \X Durations)] :
                     /\ \A k \in 1..(n - 1) : s[k][1] \in Open /\ s[k][1] # s[k + 1][1]
                     /\ s[n][2] = CHOOSE d \in Durations : TRUE} : n \in 1..MaxLen}
RECURSIVE StatusAt(_, _)
StatusAt(s, t) == IF Len(s) = 1 \/ t < s[1][2] THEN s[1][1] ELSE StatusAt(Tail(s), t - s[1][2])
Ends(s) == s[Len(s)][1] \in Final

VARIABLES script, wait, timeout, clock, pc, seen, reports
vars == <<script, wait, timeout, clock, pc, seen, reports>>

Init == /\ script \in Scripts /\ wait \in Waits /\ timeout \in Timeouts
        /\ (timeout = NoTimeout => Ends(script))
        /\ clock = 0 /\ pc = "query" /\ seen = "none" /\ reports = <<>>

Query == /\ pc = "query"
         /\ seen' = StatusAt(script, clock)
         /\ pc' = (IF seen' \in Final THEN "returned"
                   ELSE IF timeout # NoTimeout /\ clock >= timeout THEN "timeout" ELSE "report")
         /\ UNCHANGED <<script, wait, timeout, clock, reports>>
Report == /\ pc = "report"
          /\ reports' = Append(reports, seen) /\ pc' = "sleep"
          /\ UNCHANGED <<script, wait, timeout, clock, seen>>
Sleep == /\ pc = "sleep"
         /\ clock' = clock + wait /\ pc' = "query"
         /\ UNCHANGED <<script, wait, timeout, seen, reports>>
Emit == /\ pc \in {"returned", "timeout"}
        /\ PrintT("@@" \o ToJson([script |-> script, wait |-> wait, timeout |-> timeout, outcome |-> pc, clock |-> clock, reports |-> reports]))
        /\ pc' = pc \o "."
        /\ UNCHANGED <<script, wait, timeout, clock, seen, reports>>
Next == Query \/ Report \/ Sleep \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == pc \in {"returned", "timeout", "returned.", "timeout."}
Returned == pc \in {"returned", "returned."}
TimedOut == pc \in {"timeout", "timeout."}
(* it returns only when the job is over, and never later than one poll after the end *)
ReturnsWhenOver == Returned => /\ StatusAt(script, clock) \in Final
                               /\ (clock >= wait => StatusAt(script, clock - wait) \in Open)
(* it gives up only after the timeout, on a job that is not over *)
GivesUpLate == TimedOut => timeout # NoTimeout /\ clock >= timeout /\ clock < timeout + wait /\ StatusAt(script, clock) \in Open
ReportsOpen == \A k \in 1..Len(reports) : reports[k] \in Open
(* no wait goes on for ever *)
Terminates == <>Done
=============================================================================
