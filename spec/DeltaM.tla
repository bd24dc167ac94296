------------------------------- MODULE DeltaM --------------------------------
(* Delta-M scaling as an edit of the problem: the scaled problem S* has thickness
   h* = (1 - omega f) h, albedo omega* = (1 - f) omega / (1 - omega f), coefficients
   g* = (g - f) / (1 - f), the same source as a function of position and no peak
   fraction.  Its solution at the scaled depth is the solution of S; what delta-M
   took out of the beam is in the downward diffuse flux.                          *)
EXTENDS Transport, IOUtils, Json

Scen == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, n
vars == <<sid, n>>

Tol == 200
TolIn == 60     \* rounding of the scaled inputs themselves

(* the second problem posed to the code is the scaled problem of the first          *)
IsScaled(S) ==
  \A l \in 1..S.L :
    /\ Near(S.sh[l], Mul(St(S, l), S.h[l]), TolIn)
    /\ Near(S.som[l], OmS(S, l), TolIn)
    /\ \A k \in 1..S.nleg : Near(S.sg[l][k], GS(S, l, k - 1), TolIn)
    /\ (S.f[l] = 0 \/ S.om[l] = 0) => Near(S.sh[l], S.h[l], 2)

Judge(S, e) ==
  CASE e.k = "point" ->
        /\ NearSeq(e.u, e.v, Tol)
        /\ Near(e.fp, e.gp, Tol)
        /\ Near(e.fm + e.fd, e.gm + e.gd, Tol)     \* reclassification conserves the downward flux
        /\ e.beamok =>
             /\ Near(e.fd, IF e.I0 = 0 THEN 0 ELSE Mul(S.mu0, Mul(e.I0, Beam(S, e.l, e.a))), Tol)
             /\ Near(e.gd, IF e.I0 = 0 THEN 0 ELSE Mul(S.mu0, Mul(e.I0, BeamS(S, e.l, e.a))), Tol)
    [] e.k = "none" -> NearSeq(e.u, e.v, Tol)       \* all fractions zero against no fractions

Clause(e) == IF e.k = "point" THEN "C07.scaled" ELSE "C07.none"

Init == sid \in DOMAIN Scen /\ n = 1 /\ Assert(IsScaled(Scen[sid]), <<"harness: not the scaled problem", Scen[sid].id>>)
Step == LET S == Scen[sid] IN
  /\ n <= Len(S.ev)
  /\ S.ev[n].k = "point" => Assert(Near(S.ev[n].t, TauS(S, S.ev[n].l, S.ev[n].a), 100), "harness: not the scaled depth")
  /\ IF Judge(S, S.ev[n]) THEN TRUE
     ELSE PrintT("REJECT " \o ToJson([sid |-> sid, id |-> S.id, n |-> n, clause |-> Clause(S.ev[n])]))
  /\ n' = n + 1 /\ UNCHANGED sid
Done == n > Len(Scen[sid].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
