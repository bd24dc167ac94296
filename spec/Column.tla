------------------------------- MODULE Column -------------------------------
(* Conformance of recorded solutions with module Transport.

   A recording of one solution is a walk down the column: the field at the top
   boundary, then inside each layer one or more intervals, at each interface the
   field on both sides, at last the field at the bottom boundary; after the walk
   any number of pointwise observations.  The walk is a state machine (sid, n,
   at); each step consumes the next event and judges it with the equations.  An
   event that the equations do not permit is reported as a REJECT line naming the
   property clause; an event out of protocol order blocks the machine, which the
   runner treats as a broken check.                                             *)
EXTENDS Transport, Json, IOUtils

Scen == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sid, n, at
vars == <<sid, n, at>>

(* ---- tolerances, in units of 10^-8 of the magnitude of the mode ----------- *)
TolBc    == 500
TolCross == 500
TolPoint == 100
TolRte(h) == 100 + Mul(h, 1000)
(* residuals measured in floating point on larger problems, units of 10^-9     *)
TolRes(c) ==
  CASE c = "C01.rte"    -> 20000
    [] c = "C02.top"    -> 10000
    [] c = "C02.bottom" -> 10000
    [] c = "C03.cross"  -> 10000
    [] c = "C05.flux"   -> 2000
    [] c = "C06.energy" -> 10000
    [] c = "C06.conserve" -> 1000
    [] c = "C08.nt"     -> 10000
    [] c = "C20.rte"    -> 50000
    [] c = "C20.bc"     -> 50000
    [] c = "C20.cross"  -> 50000
    [] c = "C20.energy" -> 50000

Small(v, tol) == \A i \in DOMAIN v : AbsI(v[i]) <= tol
AllFinite2(u) == \A a \in DOMAIN u : Finite(u[a])
AllFinite3(u) == \A a \in DOMAIN u : AllFinite2(u[a])

Judge(S, e) ==
  CASE e.k = "top" -> AllFinite2(e.u) /\ \A m \in 1..S.nf : Small(TopResidual(S, m - 1, e.u[m]), TolBc)
    [] e.k = "bottom" -> AllFinite2(e.u) /\ \A m \in 1..S.nf : Small(BottomResidual(S, m - 1, e.u[m]), TolBc)
    [] e.k = "interval" ->
         AllFinite3(e.u) /\ \A m \in 1..S.nf : Small(RteResidual(S, e.l, m - 1, e.a, e.b, e.u[m]), TolRte(e.b - e.a))
    [] e.k = "cross" -> \A m \in 1..S.nf : NearSeq(e.u[m], e.v[m], TolCross)
    [] e.k = "flux" ->
         \* in units of 2 pi; zeroth mode e.u0, fluxes up / down / direct, actinic up / down
         LET rec == Reclassified(S, e.l, e.a, e.I0) IN
         /\ Finite(e.u0) /\ Finite(<<e.fp, e.fm, e.fd, e.ap, e.am>>)
         /\ Near(e.fp, UpMoment(S, e.u0), TolPoint)
         /\ Near(e.fm, DownMoment(S, e.u0) + Mul(S.mu0, rec), TolPoint)
         /\ Near(e.fd, IF e.I0 = 0 THEN 0 ELSE Mul(S.mu0, Mul(e.I0, Beam(S, e.l, e.a))), TolPoint)
         /\ Near(e.ap, UpSum(S, e.u0), TolPoint)
         /\ Near(e.am, DownSum(S, e.u0) + rec, TolPoint)
    [] e.k = "mean" -> \* azimuthal mean of the intensity against the zeroth mode
         /\ AllFinite2(e.u)
         /\ NearSeq(e.u0, [i \in 1..S.nq |-> SumI(Len(e.u), LAMBDA p : e.u[p][i]) \div Len(e.u)], TolPoint)
    [] e.k = "energy" ->
         \* change of net flux against absorption minus emission over [a, b]
         LET h == e.b - e.a
             ta(k) == e.a + Mul(h, GX[k])
             gain(k) == Mul(One - S.om[e.l],
                            e.act[k] + (IF e.I0 = 0 THEN 0 ELSE Mul(e.I0, Beam(S, e.l, ta(k))))
                            - 2 * PolyAt(e.s, TauTop(S, e.l) + ta(k)))
         IN  /\ Finite(e.act) /\ Finite(<<e.net1, e.net2>>)
             /\ Near(e.net2 - e.net1, Mul(h, SumI(6, LAMBDA k : Mul(GW[k], gain(k)))), TolRte(h))
    [] e.k = "res" -> e.v >= 0 /\ e.v <= TolRes(e.c)

Clause(e) ==
  CASE e.k = "top" -> "C02.top"
    [] e.k = "bottom" -> "C02.bottom"
    [] e.k = "interval" -> "C01.rte"
    [] e.k = "cross" -> "C03.cross"
    [] e.k = "flux" -> "C05.flux"
    [] e.k = "mean" -> "C05.mean"
    [] e.k = "energy" -> "C06.energy"
    [] e.k = "res" -> e.c

(* ---- the walk -------------------------------------------------------------- *)
InOrder(S, e) ==
  CASE e.k = "top" -> at = 0
    [] e.k = "interval" -> at = e.l
    [] e.k = "cross" -> at = e.l /\ e.l < S.L
    [] e.k = "bottom" -> at = S.L
    [] OTHER -> at = S.L + 1
After(S, e) ==
  CASE e.k = "top" -> 1
    [] e.k = "cross" -> at + 1
    [] e.k = "bottom" -> S.L + 1
    [] OTHER -> at

Init == sid \in DOMAIN Scen /\ n = 1 /\ at = (IF Scen[sid].walk THEN 0 ELSE Scen[sid].L + 1)
Step == LET S == Scen[sid] IN
  /\ n <= Len(S.ev)
  /\ InOrder(S, S.ev[n])
  /\ IF Judge(S, S.ev[n]) THEN TRUE
     ELSE PrintT("REJECT " \o ToJson([sid |-> sid, id |-> S.id, n |-> n, clause |-> Clause(S.ev[n])]))
  /\ n' = n + 1
  /\ at' = After(S, S.ev[n])
  /\ UNCHANGED sid
Done == n > Len(Scen[sid].ev) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
(* CHECK_DEADLOCK TRUE: a deadlock is an event out of protocol order.          *)
=============================================================================
