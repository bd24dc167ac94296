-------------------------------- MODULE Order ---------------------------------
(* Radiation is ordered like its causes.  The state is how much of every cause is present:
   level 0, 1 or 2 of the beam, the radiation entering at the top and at the bottom, the
   internal source, the surface reflectance and the albedo.  A step raises one of them.
   Raising the albedo also lowers the emission of an internal source, so it is allowed only
   while there is none.

   ESpec explores all levels: whatever the order of the steps, the levels only grow and the
   darkest and the brightest state are comparable with all.  GSpec emits random walks from
   darkness.  JSpec judges recordings (phase functions that are non-negative between all
   streams): every field is non-negative, never falls when a cause is raised, and, without a
   beam, stays below the largest of what enters (magnified by the surface) and the source.  *)
EXTENDS Fix, Json, IOUtils

CONSTANT Steps
VARIABLES lev, log, seen, sid, n
vars == <<lev, log, seen, sid, n>>

Causes == <<"beam", "top", "bottom", "source", "surface", "albedo">>
Top == 2
MayRaise(c, v) == v[c] < Top /\ (c = "albedo" => v["source"] = 0)
Raise(c) == MayRaise(c, lev) /\ lev' = [lev EXCEPT ![c] = @ + 1]
Dark == [c \in {Causes[i] : i \in 1..6} |-> 0]
Leq(a, b) == \A c \in DOMAIN a : a[c] <= b[c]

EInit == lev = Dark /\ log = <<>> /\ seen = <<>> /\ sid = 0 /\ n = 0
ENext == (\E c \in DOMAIN lev : Raise(c)) /\ UNCHANGED <<log, seen, sid, n>>
ESpec == EInit /\ [][ENext]_vars
Levels == lev \in [DOMAIN Dark -> 0..Top]
Grows == [][Leq(lev, lev') /\ lev' # lev]_lev
Stuck == ~(\E c \in DOMAIN lev : MayRaise(c, lev)) => \A c \in DOMAIN lev : lev[c] = Top \/ (c = "albedo" /\ lev["source"] > 0)

GInit == lev = Dark /\ log = <<>> /\ seen = <<>> /\ sid = 0 /\ n = 0
GStep == \/ /\ Len(log) < Steps
            /\ \E c \in DOMAIN lev : Raise(c) /\ log' = Append(log, c)
            /\ UNCHANGED <<seen, sid, n>>
         \/ /\ Len(log) = Steps /\ n = 0 /\ n' = 1 /\ PrintT("CLIMB " \o ToJson(log)) /\ UNCHANGED <<lev, log, seen, sid>>
GSpec == GInit /\ [][GStep]_vars

Scen == ndJsonDeserialize(IOEnv.TRACE)
Reject(S, c) == PrintT("REJECT " \o ToJson([sid |-> sid, id |-> S.id, n |-> n, clause |-> c]))
(* e.c: the cause raised; e.v: the observed values; e.u: intensities among them (indices S.ui)      *)
JInit == sid \in DOMAIN Scen /\ n = 1 /\ lev = Dark /\ log = <<>> /\ seen = <<>>
JStep == LET S == Scen[sid]  e == S.ev[n] IN
  /\ n <= Len(S.ev) /\ n' = n + 1 /\ UNCHANGED <<sid, log>>
  /\ Raise(e.c)                                  \* the recording is a walk of this machine
  /\ seen' = e.v
  /\ IF Finite(e.v) THEN TRUE ELSE Reject(S, "C22.finite")
  /\ IF \A i \in 1..Len(e.v) : e.v[i] >= -S.tol THEN TRUE ELSE Reject(S, "C22.negative")
  /\ IF seen = <<>> \/ ~Finite(e.v) \/ ~Finite(seen) \/ \A i \in 1..Len(e.v) : e.v[i] >= seen[i] - S.tol THEN TRUE ELSE Reject(S, "C22.order")
  /\ IF lev'["beam"] > 0 \/ ~Finite(e.v) \/ \A i \in 1..Len(S.ui) : e.v[S.ui[i]] <= e.bound + S.tol THEN TRUE ELSE Reject(S, "C22.bound")
JStuck == LET S == Scen[sid] IN n <= Len(S.ev) /\ ~MayRaise(S.ev[n].c, lev) /\ n' = 1000 /\ UNCHANGED <<lev, log, seen, sid>> /\ Reject(S, "C22.walk")
JDone == n > Len(Scen[sid].ev) /\ UNCHANGED vars
JSpec == JInit /\ [][JStep \/ JStuck \/ JDone]_vars
=============================================================================
