----------------------------- MODULE AtmosTrace ------------------------------
(* Recorded sequences of edits of a column with the outputs observed after each
   edit.  Every edit must be a step of Atmos leading to the recorded column, and
   the observations must be those of the first column.                            *)
EXTENDS Fix, IOUtils, FiniteSets, Json

Scen == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sid, n, col, edits, first, obs
A == INSTANCE Atmos WITH Mats <- {1, 2, 3}, Cells <- 20, MaxLayers <- 20, MaxEdits <- 20
tvars == <<sid, n, col, edits, first, obs>>

Tol == 200      \* 2e-6 of the largest value of the same output

Init == /\ sid \in DOMAIN Scen /\ n = 1
        /\ col = Scen[sid].first /\ first = col /\ edits = << >>
        /\ obs = Scen[sid].obs
Step == LET e == Scen[sid].ev[n] IN
  /\ n <= Len(Scen[sid].ev)
  /\ \/ e.op = "split" /\ A!Split(e.l, e.k)
     \/ e.op = "merge" /\ A!Merge(e.l)
  /\ col' = e.col
  /\ \A q \in DOMAIN obs :
       IF NearSeq(e.obs[q], obs[q], Tol) THEN TRUE
       ELSE PrintT("REJECT " \o ToJson([sid |-> sid, id |-> Scen[sid].id, n |-> n, clause |-> "C04." \o q]))
  /\ n' = n + 1
  /\ UNCHANGED <<sid, obs>>
Done == n > Len(Scen[sid].ev) /\ UNCHANGED tvars
Next == Step \/ Done
Spec == Init /\ [][Next]_tvars
(* a deadlock is an edit that Atmos does not allow or a column it does not lead to  *)
Unchanged == A!SameMatter /\ A!SameScaledDepth /\ A!SameAverages
=============================================================================
