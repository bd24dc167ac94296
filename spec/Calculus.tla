------------------------------ MODULE Calculus ------------------------------
(* Depth calculus of the output functions.  Every output function f of one
   solution comes with an antiderivative F (flag of the function) and, in
   autograd-compatible mode, a derivative.  A recording visits the layers of one
   solution from top to bottom; in each layer it holds, for every output, the
   values of the integrand at the six Gauss points of a depth interval [a, b]
   inside the layer and the change of the integral between its ends.  The
   integral is recomputed here.  A step of the machine consumes one interval; all
   outputs of a layer must be visited before the next layer.                     *)
EXTENDS Fix, Json, IOUtils, FiniteSets

Scen == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, n, layer, seen
vars == <<sid, n, layer, seen>>

Tol(h) == 100 + Mul(MinI(h, 9 * One), 1000)

Integral(h, f) == Mul(h, SumI(6, LAMBDA k : Mul(GW[k], f[k])))

Judge(e) ==
  CASE e.k = "int" -> /\ Finite(e.d)
                      /\ \A i \in DOMAIN e.f : Finite(e.f[i])
                      /\ \A i \in DOMAIN e.d : Near(e.d[i], Integral(e.h, e.f[i]), Tol(e.h))
    [] e.k = "res" -> e.v >= 0 /\ e.v <= 20000      \* composite quadrature in floating point, units of 10^-9
    [] e.k = "same" -> NearSeq(e.u, e.v, 20)        \* the same query in another array

Init == sid \in DOMAIN Scen /\ n = 1 /\ layer = 1 /\ seen = {}
Advance(S, e) ==
  IF e.l = layer
  THEN /\ e.o \notin seen
       /\ layer' = layer /\ seen' = seen \cup {e.o}
  ELSE /\ e.l = layer + 1
       /\ Cardinality(seen) = S.nout
       /\ layer' = layer + 1 /\ seen' = {e.o}
Step == LET S == Scen[sid]  e == S.ev[n] IN
  /\ n <= Len(S.ev)
  /\ Advance(S, e)
  /\ IF Judge(e) THEN TRUE
     ELSE PrintT("REJECT " \o ToJson([sid |-> sid, id |-> S.id, n |-> n, clause |-> S.prop \o "." \o e.o]))
  /\ n' = n + 1 /\ UNCHANGED sid
Done == n > Len(Scen[sid].ev) /\ layer = Scen[sid].L /\ Cardinality(seen) = Scen[sid].nout /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
