----------------------------- MODULE QueryTrace ------------------------------
(* Conformance of recorded query sessions with module Query: the value at a point
   of an output function never changes between queries, whatever else is asked in
   the same call, and is continuous across interfaces; queries with a point outside
   the atmosphere, and only those, are refused.                                  *)
EXTENDS Fix, IOUtils, FiniteSets, Json

Scen == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sid, n, L, mem, log
Q == INSTANCE Query WITH MaxL <- 0, MaxLen <- 0, MaxQueries <- 0

tvars == <<sid, n, L, mem, log>>

TolSame == 10       \* the same number up to rounding
TolCont == 500      \* continuity across an interface

Key(e, p) == <<e.fn, e.anti, p>>
Init == /\ sid \in DOMAIN Scen
        /\ n = 1
        /\ L = Scen[sid].L
        /\ mem = << >>                \* (function, point) -> value first seen
        /\ log = << >>

Known(e, p) == Key(e, p) \in DOMAIN mem
(* values of one call agree with each other and with memory                       *)
Same(e) ==
  \A i \in DOMAIN e.q :
    /\ Finite(e.v[i])
    /\ Known(e, e.q[i]) => NearSeq(e.v[i], mem[Key(e, e.q[i])], TolSame)
    /\ \A j \in 1..(i - 1) : e.q[i] = e.q[j] => NearSeq(e.v[i], e.v[j], TolSame)
NewMem(e) ==
  IF e.refused THEN mem
  ELSE [k \in DOMAIN mem \cup {Key(e, e.q[i]) : i \in DOMAIN e.q} |->
          IF k \in DOMAIN mem THEN mem[k] ELSE e.v[CHOOSE i \in DOMAIN e.q : Key(e, e.q[i]) = k]]
(* both sides of every interface known so far                                     *)
Continuous(m) ==
  \A k \in DOMAIN m :
    (~k[2] /\ Q!IsInterface(L, k[3]) /\ <<k[1], k[2], Q!BelowInterface(k[3])>> \in DOMAIN m)
      => NearSeq(m[k], m[<<k[1], k[2], Q!BelowInterface(k[3])>>], TolCont)

Report(e, c) == PrintT("REJECT " \o ToJson([sid |-> sid, id |-> Scen[sid].id, n |-> n, clause |-> c]))
Step == LET e == Scen[sid].ev[n] IN
  /\ n <= Len(Scen[sid].ev)
  /\ IF e.refused # Q!Refused(e.q) THEN Report(e, "C03.refusal") ELSE TRUE
  /\ IF ~e.refused /\ ~Q!Refused(e.q) /\ ~Same(e) THEN Report(e, "C03.pointwise") ELSE TRUE
  /\ mem' = NewMem(e)
  /\ IF Continuous(mem') \/ ~Continuous(mem) THEN TRUE ELSE Report(e, "C03.continuity")
  /\ n' = n + 1
  /\ UNCHANGED <<sid, L, log>>
Done == n > Len(Scen[sid].ev) /\ UNCHANGED tvars
Next == Step \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
