----------------------------- MODULE Transport -----------------------------
(* The discrete-ordinates radiative transfer problem that pydisort documents,
   stated on one problem record S.  All reals are fixed point (module Fix).

   S.nq streams, S.N per hemisphere, nodes S.mu / weights S.w (upward; the
   downward ones are the negatives), S.L layers of thickness S.h, albedo S.om,
   peak fraction S.f and phase-function coefficients S.g[l][k+1]; beam cosine
   S.mu0.  S.modes[m+1] holds, for Fourier mode m and in units of that mode's
   magnitude: beam I0, source polynomials s[l], conditions bneg / bpos and the
   reflectance samples rho / rho0 (when S.modes[m+1].refl).                    *)
EXTENDS Fix

(* ---- delta-M scaling (documentation section 3.3) ----------------------- *)
St(S, l)  == One - Mul(S.om[l], S.f[l])                       \* d tau* / d tau
OmS(S, l) == Div(Mul(One - S.f[l], S.om[l]), St(S, l))        \* scaled albedo
GS(S, l, k) == Div(S.g[l][k + 1] - S.f[l], One - S.f[l])      \* scaled coefficient k
TauTop(S, l)  == SumI(l - 1, LAMBDA j : S.h[j])               \* depth of the top of layer l
TauTopS(S, l) == SumI(l - 1, LAMBDA j : Mul(St(S, j), S.h[j]))
TauS(S, l, a) == TauTopS(S, l) + Mul(St(S, l), a)             \* scaled depth, a below the layer top
BeamS(S, l, a) == ExpNeg(Div(TauS(S, l, a), S.mu0))           \* attenuation, scaled depth
Beam(S, l, a)  == ExpNeg(Div(TauTop(S, l) + a, S.mu0))        \* attenuation, true depth
PolyAt(p, t) == FoldLeft(LAMBDA acc, k : p[Len(p) + 1 - k] + Mul(t, acc), 0, Idx(Len(p)))

(* ---- normalised associated Legendre functions -------------------------- *)
(* Lambda_l^m(x) = sqrt((l-m)!/(l+m)!) P_l^m(x), stable upward recursion in l *)
MaxDeg == 8
C1 == TLCEval([m \in 0..MaxDeg |-> TLCEval([l \in (m + 1)..MaxDeg |-> Sqrt(Rat((2 * l - 1) * (2 * l - 1), l * l - m * m))])])
C2 == TLCEval([m \in 0..MaxDeg |-> TLCEval([l \in (m + 1)..MaxDeg |-> Sqrt(Rat((l - 1) * (l - 1) - m * m, l * l - m * m))])])
DiagC == TLCEval([k \in 1..MaxDeg |-> Sqrt(Rat(2 * k - 1, 2 * k))])
LamStart(m, x) ==
  LET s == Sqrt(One - Mul(x, x))
  IN  FoldLeft(LAMBDA acc, k : Mul(Mul(acc, DiagC[k]), s), One, Idx(m))
(* the sequence Lambda_m^m(x) .. Lambda_{n-1}^m(x) *)
Lam(n, m, x) ==
  FoldLeft(LAMBDA seq, k :
      LET l == m + k IN
      Append(seq, Mul(Mul(C1[m][l], x), seq[k]) - (IF k = 1 THEN 0 ELSE Mul(C2[m][l], seq[k - 1]))),
    <<LamStart(m, x)>>, Idx(n - m - 1))

Node(S, i) == IF i <= S.N THEN S.mu[i] ELSE -S.mu[i - S.N]
Wt(S, i)   == IF i <= S.N THEN S.w[i] ELSE S.w[i - S.N]

(* weighted coefficients omega*_l / 2 (2k+1) g*_k,  k = m .. nleg-1 *)
WCoef(S, l, m) ==
  LET o == OmS(S, l) IN
  [k \in 1..(S.nleg - m) |-> Mul(o, (2 * (m + k - 1) + 1) * GS(S, l, m + k - 1)) \div 2]

(* D_ij for mode m, as a matrix of sequences *)
Dmat(S, l, m) ==
  IF m >= S.nleg THEN TLCEval([i \in 1..S.nq |-> [j \in 1..S.nq |-> 0]])
  ELSE
  LET lam == TLCEval([i \in 1..S.nq |-> Lam(S.nleg, m, Node(S, i))])
      wc  == TLCEval(WCoef(S, l, m))
      n   == S.nleg - m
  IN  TLCEval([i \in 1..S.nq |->
         LET cl == TLCEval([k \in 1..n |-> Mul(wc[k], lam[i][k])]) IN
         TLCEval([j \in 1..S.nq |-> SumI(n, LAMBDA k : Mul(cl[k], lam[j][k]))])])

(* X_i = omega*_l I0 (2 - delta_m0) / (4 pi) sum_k (2k+1) g*_k Lambda_k(mu_i) Lambda_k(-mu0) *)
InvTwoPi == 15915494
Xvec(S, l, m) ==
  IF S.modes[m + 1].I0 = 0 \/ m >= S.nleg THEN [i \in 1..S.nq |-> 0]
  ELSE
  LET lam0 == TLCEval(Lam(S.nleg, m, -S.mu0))
      wc   == TLCEval(WCoef(S, l, m))
      n    == S.nleg - m
      pre  == Mul(S.modes[m + 1].I0, InvTwoPi) * (IF m = 0 THEN 1 ELSE 2)
  IN  TLCEval([i \in 1..S.nq |->
         LET lam == TLCEval(Lam(S.nleg, m, Node(S, i))) IN
         Mul(pre, SumI(n, LAMBDA k : Mul(wc[k], Mul(lam[k], lam0[k]))))])

(* ---- the equation, integrated over [a, b] inside layer l ---------------- *)
(* u[1], u[2]: field at a and b; u[3..8]: field at the Gauss nodes           *)
RteResidual(S, l, m, a, b, u) ==
  LET h  == b - a
      st == St(S, l)
      D  == Dmat(S, l, m)
      X  == Xvec(S, l, m)
      md == S.modes[m + 1]
      at == TLCEval([k \in 1..6 |-> a + Mul(h, GX[k])])
      E  == TLCEval([k \in 1..6 |-> IF md.I0 = 0 THEN 0 ELSE BeamS(S, l, at[k])])
      src == TLCEval([k \in 1..6 |->
               IF m > 0 \/ Len(md.s) = 0 THEN 0
               ELSE Mul(One - S.om[l], PolyAt(md.s[l], TauTop(S, l) + at[k]))])
      Wu == TLCEval([k \in 1..6 |-> TLCEval([j \in 1..S.nq |-> Mul(Wt(S, j), u[k + 2][j])])])
  IN  TLCEval([i \in 1..S.nq |->
        LET rhs(k) == Mul(st, u[k + 2][i] - SumI(S.nq, LAMBDA j : Mul(D[i][j], Wu[k][j]))
                              - Mul(X[i], E[k])) - src[k]
        IN  Mul(Node(S, i), u[2][i] - u[1][i]) - Mul(h, SumI(6, LAMBDA k : Mul(GW[k], rhs(k))))])

(* ---- boundary conditions ------------------------------------------------ *)
TopResidual(S, m, u) == [i \in 1..S.N |-> u[S.N + i] - S.modes[m + 1].bneg[i]]

InvPi == 31830989
Reflected(S, m, u) ==
  LET md == S.modes[m + 1] IN
  IF ~md.refl THEN [i \in 1..S.N |-> 0]
  ELSE
  LET down == TLCEval([j \in 1..S.N |-> Mul(Mul(S.mu[j], S.w[j]), u[S.N + j])])
      beam == IF md.I0 = 0 THEN 0
              ELSE Mul(Mul(Mul(S.mu0, md.I0), InvPi), BeamS(S, S.L, S.h[S.L]))
  IN  TLCEval([i \in 1..S.N |->
        (IF m = 0 THEN 2 ELSE 1) * SumI(S.N, LAMBDA j : Mul(md.rho[i][j], down[j]))
        + Mul(beam, md.rho0[i])])
BottomResidual(S, m, u) ==
  LET r == TLCEval(Reflected(S, m, u)) IN
  [i \in 1..S.N |-> u[i] - S.modes[m + 1].bpos[i] - r[i]]

(* ---- fluxes -------------------------------------------------------------- *)
(* half-space quadratures of the zeroth mode, divided by 2 pi *)
UpMoment(S, u0)    == SumI(S.N, LAMBDA i : Mul(Mul(S.mu[i], S.w[i]), u0[i]))
DownMoment(S, u0)  == SumI(S.N, LAMBDA i : Mul(Mul(S.mu[i], S.w[i]), u0[S.N + i]))
UpSum(S, u0)       == SumI(S.N, LAMBDA i : Mul(S.w[i], u0[i]))
DownSum(S, u0)     == SumI(S.N, LAMBDA i : Mul(S.w[i], u0[S.N + i]))
(* beam intensity that delta-M scaling moved into the scattered field *)
Reclassified(S, l, a, I0) == IF I0 = 0 THEN 0 ELSE Mul(I0, BeamS(S, l, a) - Beam(S, l, a))
=============================================================================
