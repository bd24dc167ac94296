--------------------------------- MODULE Nt ----------------------------------
(* Nakajima-Tanaka corrections (documentation section 3.7.2), judged on recorded
   differences between the corrected and the uncorrected intensity.

   TMS: single scattering of the beam with the full phase function minus the one
   with the truncated scaled phase function, each layer with its own source, in
   scaled depth.  IMS: for downward directions, layer-averaged secondary
   scattering inside the forward peak, in true depth.                            *)
EXTENDS Transport, IOUtils, Json

Scen == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, n
vars == <<sid, n>>

Tol == 300
TolFlux == 20

(* when the corrections are defined at all                                          *)
Active(S) == /\ S.nt /\ ~S.onlyflux /\ S.hasbeam
             /\ S.nleg < S.nall
             /\ \E l \in 1..S.L : S.f[l] > 0 /\ S.om[l] > 0

(* Legendre polynomials P_0 .. P_{k-1} at x                                          *)
MaxAll == 24
R1 == TLCEval([l \in 1..MaxAll |-> Rat(2 * l - 1, l)])
R2 == TLCEval([l \in 1..MaxAll |-> Rat(l - 1, l)])
LegP(k, x) ==
  FoldLeft(LAMBDA seq, l : Append(seq, Mul(R1[l], Mul(x, seq[l])) - (IF l = 1 THEN 0 ELSE Mul(R2[l], seq[l - 1]))),
           <<One>>, Idx(k - 1))
(* sum_k (2k+1) c_k P_k / 16 *)
LegSum16(c, P) == SumI(Len(c), LAMBDA k : (2 * k - 1) * (Mul(c[k], P[k]) \div 16))
LegSum(c, P)   == SumI(Len(c), LAMBDA k : (2 * k - 1) * Mul(c[k], P[k]))

(* cosine of the scattering angle: mu signed, cphi = cos(phi0 - phi)                  *)
Nu(S, mu, cphi) == Mul(Mul(Sqrt(One - Mul(S.mu0, S.mu0)), Sqrt(One - Mul(mu, mu))), cphi) - Mul(S.mu0, mu)

Inv4Pi == 7957747
(* beam source of layer l in the direction of scattering angle with Legendre values P *)
Source(S, l, I0, P) ==
  LET ptrue == LegSum(S.g[l], P)
      ptrun == LegSum([k \in 1..S.nleg |-> GS(S, l, k - 1)], P)
  IN  Mul(4 * Mul(OmS(S, l), Mul(I0, Inv4Pi)), Div(ptrue \div 4, One - S.f[l]) - ptrun \div 4)

E0(S, t) == ExpNeg(Div(t, S.mu0))
(* attenuation over scaled distance d along mu; 0 when opaque                          *)
Att(d, mu) == IF d \div 18 >= mu THEN 0 ELSE ExpNeg(Div(d, mu))

(* contribution of scaled depths [a, b] to direction mu > 0 (up) seen from depth t <= a *)
UpPart(S, mu, t, a, b, src) ==
  Mul(src, Mul(Div(S.mu0, S.mu0 + mu), Mul(Att(a - t, mu), E0(S, a)) - Mul(Att(b - t, mu), E0(S, b))))
(* and to direction -mu (down) seen from depth t >= b                                   *)
DownPart(S, mu, t, a, b, src) ==
  Mul(src, Div(Mul(S.mu0, Mul(Att(t - b, mu), E0(S, b)) - Mul(Att(t - a, mu), E0(S, a))), S.mu0 - mu))

Tms(S, e, i, P) ==
  LET mu == Node(S, i)
      t  == TauS(S, e.l, e.a)
      top(l) == TauTopS(S, l)
      bot(l) == TauTopS(S, l) + Mul(St(S, l), S.h[l])
      part(l) ==
        IF mu > 0
        THEN IF l < e.l THEN 0
             ELSE UpPart(S, mu, t, IF l = e.l THEN t ELSE top(l), bot(l), Source(S, l, e.I0, P))
        ELSE IF l > e.l THEN 0
             ELSE DownPart(S, -mu, t, top(l), IF l = e.l THEN t ELSE bot(l), Source(S, l, e.I0, P))
  IN  SumI(S.L, part)

(* ---- IMS ------------------------------------------------------------------------------- *)
SumH(S, F(_)) == SumI(S.L, LAMBDA l : Mul(F(l), S.h[l]))
OmAvg(S) == Div(SumH(S, LAMBDA l : S.om[l]), SumI(S.L, LAMBDA l : S.h[l]))
OmFH(S)  == SumH(S, LAMBDA l : Mul(S.om[l], S.f[l]))
FAvg(S)  == Div(OmFH(S), SumH(S, LAMBDA l : S.om[l]))
Resid(S, l, k) == IF k <= S.nleg THEN S.f[l] ELSE S.g[l][k]
ResidAvg(S, k) == Div(SumH(S, LAMBDA l : Mul(S.om[l], Resid(S, l, k))), OmFH(S))
(* (y - 1 + e^{-y}) / y^2 for |y| < 1; it is regular at y = 0, where mu = m0       *)
RF == TLCEval([k \in 1..14 |-> Rat(1, k)])
Phi2(y) == Mul(RF[2], FoldLeft(LAMBDA acc, k : One - Mul(Mul(y, acc), RF[k]), One, [j \in 1..10 |-> 13 - j]))
(* integral_0^t s exp(-s/m0) exp(-(t-s)/mu) ds / (mu m0)                              *)
Chi(t, mu, m0) ==
  LET x == One - Div(mu, m0)
      decay == ExpNeg(Div(t, m0))
  IN  IF AbsI(Mul(t \div 16, x)) >= mu \div 16
      THEN LET q == Div(mu, x)
           IN  Div(Div(Mul(t - q, decay) + Mul(q, Att(t, mu)), x), m0)
      ELSE Div(Mul(t, Div(Mul(t, Mul(decay, Phi2(Div(Mul(t, x), mu)))), mu)), m0)
Ims(S, e, i, P) ==
  LET mu == -Node(S, i)
      t  == TauTop(S, e.l) + e.a
      of == Mul(OmAvg(S), FAvg(S))
      m0 == Div(S.mu0, One - of)
      chi == Chi(t, mu, m0)
      c  == TLCEval([k \in 1..S.nall |-> LET r == ResidAvg(S, k) IN 2 * r - Mul(r, r)])
      pre == Div(Mul(of, of), One - of)
  IN  Mul(Mul(Mul(e.I0, Inv4Pi), pre), 16 * Mul(LegSum16(c, P), chi))

Correction(S, e, i) ==
  LET P == TLCEval(LegP(S.nall, Nu(S, Node(S, i), e.cphi)))
  IN  Tms(S, e, i, P) + (IF i > S.N THEN Ims(S, e, i, P) ELSE 0)

Judge(S, e) ==
  CASE e.k = "cor" -> /\ Finite(e.d)
                      /\ \A i \in 1..S.nq : Near(e.d[i], IF Active(S) THEN Correction(S, e, i) ELSE 0, Tol)
    [] e.k = "inert" -> NearSeq(e.u, e.v, TolFlux)     \* fluxes and zeroth mode; intensity when not Active
    [] e.k = "res" -> e.v >= 0 /\ e.v <= 5000

Clause(e) == CASE e.k = "cor" -> "C08.correction" [] e.k = "inert" -> "C08.inert" [] e.k = "res" -> "C08.correction"

Init == sid \in DOMAIN Scen /\ n = 1
Step == LET S == Scen[sid] IN
  /\ n <= Len(S.ev)
  /\ S.ev[n].k = "inert" => Assert(S.ev[n].what = "flux" \/ ~Active(S), "harness: corrections are active")
  /\ IF Judge(S, S.ev[n]) THEN TRUE
     ELSE PrintT("REJECT " \o ToJson([sid |-> sid, id |-> S.id, n |-> n, clause |-> Clause(S.ev[n])]))
  /\ n' = n + 1 /\ UNCHANGED sid
Done == n > Len(Scen[sid].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
