--------------------------------- MODULE Util ---------------------------------
(* Exact oracles for the numerical utilities.  GSpec draws arguments made of small
   integers; JSpec checks the answers against the defining identities, in integers
   (or in fixed point where square roots or quadrature nodes come in):

     affine    D(a x + b) = C(x) as polynomials
     spline    each segment passes through its two end points
     fd        the matrix differentiates every quadratic exactly at every grid point
     band      ab[u + i - j, j] = A[i, j] for every entry inside the band
     gauss     sum of w p(x) over the nodes is the integral of p, degree < 2 N
     clenshaw  the same, degree < N
     nu        spherical law of cosines, on the axes (mu, phi, mu', phi')
     interval  affine map of points and weights between intervals
     prepend, twod                                                                   *)
EXTENDS Fix, Json, IOUtils, FiniteSets

VARIABLES q, sid, n
vars == <<q, sid, n>>
Kinds == {"affine", "spline", "fd", "band", "gauss", "clenshaw", "nu", "interval", "prepend", "twod"}

Rnd(S) == RandomElement(S)
RSeq(k, S) == TLCEval([i \in 1..k |-> Rnd(S)])
Draw(kind) ==
  CASE kind = "affine" -> \E r \in {Rnd(1..4)}, d \in {Rnd(1..5)} :
         \E a \in {RSeq(r, {-2, -1, 1, 2})}, b \in {RSeq(r, -3..3)}, c \in {TLCEval([i \in 1..r |-> RSeq(d, -4..4)])} :
           q' = [k |-> kind, a |-> a, b |-> b, c |-> c]
    [] kind = "spline" -> \E m \in {Rnd(2..6)} : \E dx \in {RSeq(m, 1..4)}, y \in {RSeq(m, -9..9)}, x0 \in {Rnd(-5..5)} :
           q' = [k |-> kind, x |-> [i \in 1..m |-> x0 + FoldLeft(LAMBDA s, j : IF j < i THEN s + dx[j] ELSE s, 0, Idx(m))], y |-> y]
    [] kind = "fd" -> \E m \in {Rnd(3..9)}, a \in {Rnd(-3..2)}, h \in {Rnd(1..3)}, p \in {RSeq(3, -3..3)} :
           q' = [k |-> kind, m |-> m, a |-> a, b |-> a + h * (m - 1), h |-> h, p |-> p]
    [] kind = "band" -> \E m \in {Rnd(1..8)} : \E u \in {Rnd(0..(m - 1))}, l \in {Rnd(0..(m - 1))} :
         \E A \in {TLCEval([i \in 1..m |-> RSeq(m, -99..99)])} : q' = [k |-> kind, m |-> m, u |-> u, l |-> l, A |-> A]
    [] kind = "gauss" -> \E m \in {Rnd(1..20)}, c \in {Rnd(-3..3)}, d \in {Rnd({-4, -2, -1, 1, 2, 3, 5})} : q' = [k |-> kind, m |-> m, c |-> c, d |-> c + d, dflt |-> Rnd(1..4) = 1]
    [] kind = "clenshaw" -> \E m \in {Rnd(1..15)}, c \in {Rnd(-3..3)}, d \in {Rnd({-4, -2, -1, 1, 2, 3, 5})} : q' = [k |-> kind, m |-> 2 * m + 1, c |-> c, d |-> c + d, dflt |-> Rnd(1..4) = 1]
    [] kind = "nu" -> \E l \in {RSeq(4, 1..3)} :
         \E mu \in {RSeq(l[1], -10..10)}, mp \in {RSeq(l[3], -10..10)}, ph \in {RSeq(l[2], -12..24)}, pp \in {RSeq(l[4], -12..24)}, sc \in {RSeq(4, BOOLEAN)} :
           q' = [k |-> kind, mu |-> mu, phi |-> ph, mup |-> mp, phip |-> pp, scalar |-> sc]
    [] kind = "interval" -> \E m \in {Rnd(1..5)}, a \in {Rnd(-5..5)}, c \in {Rnd(-5..5)}, h \in {Rnd({-2, 1, 2, 4})}, g \in {Rnd({-8, -1, 3, 8})} :
         \E v \in {RSeq(m, -9..9)} : q' = [k |-> kind, v |-> v, a |-> a, b |-> a + h, c |-> c, d |-> c + g]
    [] kind = "prepend" -> \E m \in {Rnd(0..5)} : \E v \in {RSeq(m, -9..9)}, x \in {Rnd(-99..99)} : q' = [k |-> kind, v |-> v, x |-> x]
    [] kind = "twod" -> \E shp \in {RSeq(Rnd(0..3), 1..3)}, many \in {Rnd(1..3)} : q' = [k |-> kind, shape |-> shp, many |-> many]
GInit == q = [k |-> "none"] /\ sid = 0 /\ n = 0
GStep == IF n = 0 THEN (\E kind \in {Rnd(Kinds)} : Draw(kind)) /\ n' = 1 /\ UNCHANGED sid
         ELSE n = 1 /\ n' = 2 /\ PrintT("UTIL " \o ToJson(q)) /\ UNCHANGED <<q, sid>>
GSpec == GInit /\ [][GStep]_vars

(* every size and band width (exhaustive)                                                 *)
BInit == /\ \E m \in 1..7 : \E u \in 0..(m - 1), l \in 0..(m - 1) :
              q = [k |-> "band", m |-> m, u |-> u, l |-> l, A |-> [i \in 1..m |-> [j \in 1..m |-> 10 * i + j]]]
         /\ sid = 0 /\ n = 1
BSpec == BInit /\ [][GStep]_vars
(* every number of nodes                                                                   *)
NInit == /\ \E m \in 1..24 : \/ q = [k |-> "gauss", m |-> m, c |-> 0, d |-> 1, dflt |-> TRUE]
                             \/ q = [k |-> "clenshaw", m |-> 2 * m + 1, c |-> 0, d |-> 1, dflt |-> TRUE]
                             \/ m > 2 /\ q = [k |-> "fd", m |-> m, a |-> -1, b |-> m - 2, h |-> 1, p |-> <<1, 2, -1>>]
         /\ sid = 0 /\ n = 1
NSpec == NInit /\ [][GStep]_vars

(* ---- oracles ------------------------------------------------------------------------ *)
Scen == ndJsonDeserialize(IOEnv.TRACE)
Pow(b, e) == IF e = 0 THEN 1 ELSE FoldLeft(LAMBDA s, i : s * b, 1, Idx(e))
PolyAt(c, x) == SumI(Len(c), LAMBDA i : c[i] * Pow(x, i - 1))
(* D logged times 2^(d-1), exact integers                                                    *)
Affine(e) == LET w == e.q  d == Len(w.c[1]) IN
  /\ Len(e.D) = Len(w.c)
  /\ \A r \in DOMAIN w.c : Len(e.D[r]) = d /\ \A x \in -2..2 :
       PolyAt(e.D[r], w.a[r] * x + w.b[r]) = Pow(2, d - 1) * PolyAt(w.c[r], x)
Spline(e) == LET w == e.q IN
  /\ Len(e.C) = Len(w.x) - 1
  /\ \A i \in DOMAIN e.C : /\ Len(e.C[i]) = 2
                           /\ AbsI(e.C[i][1] + e.C[i][2] * w.x[i] - 1000000 * w.y[i]) <= 30
                           /\ AbsI(e.C[i][1] + e.C[i][2] * w.x[i + 1] - 1000000 * w.y[i + 1]) <= 30
(* e.d: the matrix applied to p on the grid, times 10^6; quadratics p0 + p1 t + p2 t^2        *)
Fd(e) == LET w == e.q IN
  /\ Len(e.t) = w.m /\ Len(e.d) = w.m
  /\ \A i \in 1..w.m : LET t == w.a + (i - 1) * w.h IN
       /\ AbsI(e.t[i] - 1000000 * t) <= 2
       /\ AbsI(e.d[i] - 1000000 * (w.p[2] + 2 * w.p[3] * t)) <= 60
(* a central difference uses the two neighbours only                                         *)
  /\ \A i \in 2..(w.m - 1) : \A j \in 1..w.m : e.nz[i][j] => AbsI(i - j) <= 1
Band(e) == LET w == e.q IN
  /\ Len(e.ab) = w.u + w.l + 1
  /\ \A r \in DOMAIN e.ab : Len(e.ab[r]) = w.m
  /\ \A i \in 1..w.m : \A j \in 1..w.m : (j - i <= w.u /\ i - j <= w.l) => e.ab[w.u + i - j + 1][j] = w.A[i][j]
(* a rule on [0, 1] scaled by 10^8; monomials                                                *)
PowF(x, e) == IF e = 0 THEN One ELSE FoldLeft(LAMBDA s, i : Mul(s, x), One, Idx(e))
Moments(e, deg) == \A k \in 0..deg :
  Near(SumI(Len(e.x), LAMBDA i : Mul(e.w[i], PowF(e.x[i], k))), Rat(1, k + 1), 6 * Len(e.x) + 10)
Rule(e, deg) == LET w == e.q IN
  /\ Len(e.x) = w.m /\ Len(e.w) = w.m
  /\ \A i \in DOMAIN e.x : e.x[i] >= 0 /\ e.x[i] <= One
  /\ \A i \in 2..w.m : e.x[i] > e.x[i - 1]
  /\ \A i \in DOMAIN e.w : e.w[i] > 0
  /\ e.length                                      \* weights of the interval itself add up to its length
  /\ (w.m <= 16 => Moments(e, MinI(deg, 24)))
  /\ \A k \in DOMAIN e.leg : e.leg[k] <= 30         \* logged moments of Legendre polynomials 1..deg, in 1e-9
(* cos of multiples of 30 degrees *)
Cos30(k) == LET m == k % 12 IN
  CASE m = 0 -> One [] m \in {1, 11} -> 86602540 [] m \in {2, 10} -> Half [] m \in {3, 9} -> 0
    [] m \in {4, 8} -> -Half [] m \in {5, 7} -> -86602540 [] m = 6 -> -One
SinOf(t) == Sqrt(One - Mul(t, t))
Nu(m, p, mp, pp) == LET a == m * 10000000  b == mp * 10000000 IN Mul(a, b) + Mul(Mul(SinOf(a), SinOf(b)), Cos30(pp - p))
NuOk(e) == LET w == e.q IN
  /\ e.shape = SelectSeq(<<Len(w.mu), Len(w.phi), Len(w.mup), Len(w.phip)>>, LAMBDA x : x # 1)
  /\ \A i \in DOMAIN w.mu : \A j \in DOMAIN w.phi : \A k \in DOMAIN w.mup : \A l \in DOMAIN w.phip :
       Near(e.nu[i][j][k][l], Nu(w.mu[i], w.phi[j], w.mup[k], w.phip[l]), 40)
Interval(e) == LET w == e.q IN
  \A i \in DOMAIN w.v : /\ e.pts[i] * (w.b - w.a) = 16 * ((w.v[i] - w.a) * (w.d - w.c) + w.c * (w.b - w.a))
                        /\ e.wts[i] * (w.b - w.a) = 16 * w.v[i] * (w.d - w.c)
Prepend(e) == e.r = <<e.q.x>> \o e.q.v
TwoD(e) == LET s == e.q.shape IN
  /\ \A i \in DOMAIN e.shapes : e.shapes[i] = (IF Len(s) = 0 THEN <<1, 1>> ELSE IF Len(s) = 1 THEN <<s[1], 1>> ELSE s)
  /\ e.same /\ Len(e.shapes) = e.q.many
Right(e) == CASE e.q.k = "affine" -> Affine(e) [] e.q.k = "spline" -> Spline(e) [] e.q.k = "fd" -> Fd(e) [] e.q.k = "band" -> Band(e)
              [] e.q.k = "gauss" -> Rule(e, 2 * e.q.m - 1) [] e.q.k = "clenshaw" -> Rule(e, e.q.m - 1)
              [] e.q.k = "nu" -> NuOk(e) [] e.q.k = "interval" -> Interval(e) [] e.q.k = "prepend" -> Prepend(e) [] e.q.k = "twod" -> TwoD(e)
              [] e.q.k = "res" -> e.v <= e.tol
JInit == sid \in DOMAIN Scen /\ n = 1 /\ q = "judge"
JStep == LET S == Scen[sid]  e == S.ev[n] IN
  /\ n <= Len(S.ev) /\ n' = n + 1 /\ UNCHANGED <<sid, q>>
  /\ IF ~e.raised /\ e.finite /\ Right(e) THEN TRUE
     ELSE PrintT("REJECT " \o ToJson([sid |-> sid, id |-> S.id, n |-> n, clause |-> "C16." \o (IF e.q.k = "res" THEN e.q.what ELSE e.q.k)]))
JDone == n > Len(Scen[sid].ev) /\ UNCHANGED vars
JSpec == JInit /\ [][JStep \/ JDone]_vars
=============================================================================
