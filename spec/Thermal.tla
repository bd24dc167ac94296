------------------------------- MODULE Thermal -------------------------------
(* Thermal emission.  A thermal setting is a ladder of boundary temperatures, a band
   cut into sub-bands, the boundaries of the layers and a surface.  GSpec draws the
   setting step by step: temperatures, cuts of the band, layers.  JSpec judges what
   the helpers and the solver returned:

     planck   zero at zero temperature, strictly increasing in temperature, total
              emission sigma T^4 / pi, maximum where Wien's law puts it
     band     the emission of a band is the integral of the Planck function and the
              sum over any partition of the band
     source   the source polynomial of a layer has the band emission of its two
              boundary temperatures at its two boundaries (hence is continuous)
     emiss    one minus the hemispherical reflectance
     cavity   isothermal atmosphere + surface + downward emission: the intensity is
              the band emission in all directions and at all depths                    *)
EXTENDS Fix, Json, IOUtils

CONSTANTS MaxT, MaxCuts
VARIABLES q, sid, n
vars == <<q, sid, n>>

Temps == {0, 3, 40, 77, 120, 180, 210, 240, 255, 273, 288, 300, 310, 400, 900, 2000, 5800}
Edges == <<0, 1, 50, 200, 500, 667, 800, 1000, 1250, 1600, 2200, 3000>>       \* wavenumbers
GInit == q = [temps |-> <<>>, cuts |-> <<>>, form |-> "array"] /\ sid = 0 /\ n = 0
GTemp == \E t \in {RandomElement(Temps)} : q' = [q EXCEPT !.temps = Append(@, t)] /\ UNCHANGED <<sid, n>>
GCut == \E e \in {RandomElement((IF q.cuts = <<>> THEN 1 ELSE q.cuts[Len(q.cuts)] + 1)..(Len(Edges) - MaxCuts + Len(q.cuts)))} :
          q' = [q EXCEPT !.cuts = Append(@, e)] /\ UNCHANGED <<sid, n>>
GEmit == \E f \in {RandomElement({"array", "list"})} :
          n' = 2 /\ UNCHANGED <<q, sid>> /\ PrintT("THERM " \o ToJson([temps |-> q.temps, edges |-> [i \in DOMAIN q.cuts |-> Edges[q.cuts[i]]], form |-> f]))
GStep == /\ n = 0
         /\ IF Len(q.temps) < 2 \/ (Len(q.temps) < MaxT /\ RandomElement(1..3) > 1) THEN GTemp
            ELSE IF Len(q.cuts) < MaxCuts THEN GCut ELSE GEmit
GSpec == GInit /\ [][GStep]_vars
Ascending == \A i \in 2..Len(q.cuts) : q.cuts[i - 1] < q.cuts[i]

(* ---- judging ------------------------------------------------------------------------- *)
Scen == ndJsonDeserialize(IOEnv.TRACE)
TolRel == 20          \* 2e-7, quadrature of the helpers
(* values logged relative to the largest                                                     *)
Planck(e) == /\ e.zero = 0
             /\ \A i \in 2..Len(e.ratio) : e.ratio[i] >= 0 /\ e.ratio[i] < One      \* B(T_i-1) / B(T_i)
             /\ e.positive
             /\ \A i \in DOMAIN e.stefan : Near(e.stefan[i], One, 100)
             /\ \A i \in DOMAIN e.wien : Near(e.wien[i], One, 2000000)
             /\ e.shape
Band(e) == /\ \A i \in DOMAIN e.whole :
                /\ Near(e.whole[i], SumI(Len(e.parts), LAMBDA p : e.parts[p][i]), TolRel * Len(e.parts))
                /\ Near(e.whole[i], e.integral[i], TolRel)
           /\ e.shape
Source(e) == /\ e.rows = Len(e.at) /\ e.cols = 2
             /\ \A l \in DOMAIN e.at : Near(e.at[l][1], e.want[l], TolRel) /\ Near(e.at[l][2], e.want[l + 1], TolRel)
             /\ \A l \in 2..Len(e.at) : Near(e.at[l - 1][2], e.at[l][1], TolRel)
Emiss(e) == /\ Len(e.eps) = Len(e.rho)
            /\ \A i \in DOMAIN e.eps : Near(e.eps[i], One - 2 * SumI(Len(e.mu), LAMBDA j : Mul(Mul(e.rho[i][j], e.mu[j]), e.w[j])), 60)
            /\ Near(e.flat, One - e.rho0, 2)
TolCavity == 30
Cavity(e) == /\ \A i \in DOMAIN e.u : Near(e.u[i], One, TolCavity)
             /\ \A i \in DOMAIN e.flux : Near(e.flux[i], One, TolCavity)
             /\ \A i \in DOMAIN e.net : Near(e.net[i], 0, TolCavity)
Right(e) == CASE e.k = "planck" -> Planck(e) [] e.k = "band" -> Band(e) [] e.k = "source" -> Source(e) [] e.k = "emiss" -> Emiss(e) [] e.k = "cavity" -> Cavity(e)
JInit == sid \in DOMAIN Scen /\ n = 1 /\ q = "judge"
JStep == LET S == Scen[sid]  e == S.ev[n] IN
  /\ n <= Len(S.ev) /\ n' = n + 1 /\ UNCHANGED <<sid, q>>
  /\ IF ~e.raised /\ Right(e) THEN TRUE ELSE PrintT("REJECT " \o ToJson([sid |-> sid, id |-> S.id, n |-> n, clause |-> "C17." \o e.k]))
JDone == n > Len(Scen[sid].ev) /\ UNCHANGED vars
JSpec == JInit /\ [][JStep \/ JDone]_vars

(* ---- equilibrium of the model: with I = B everywhere the transfer equation of Transport.tla is
   satisfied for every albedo and every isotropically normalised phase function, in particular on
   two streams, where mu dI/dtau = I - om * I - (1 - om) * B                                      *)
EInit == q \in {[om |-> o, b |-> b] : o \in {k * 10000000 : k \in 0..9}, b \in {One, 3 * One, 7 * One}} /\ sid = 0 /\ n = 0
ESpec == EInit /\ [][UNCHANGED vars]_vars
Equilibrium == Near(q.b - Mul(q.om, q.b) - Mul(One - q.om, q.b), 0, 4)
=============================================================================
