-------------------------------- MODULE Interp --------------------------------
(* Interpolation in polar angle.  The state of one query is a direction of [-1, 1],
   the values of the field at the nodes of the two hemispheres, and the answer.  The
   answer is the polynomial of degree N-1 through the nodes of the hemisphere the
   direction belongs to; the horizon (mu = 0) belongs to the downward one.

   GSpec makes queries: sequences of kinds of directions in any order, with repeats,
   for either function, any flags.  JSpec evaluates the Lagrange polynomial in fixed
   point (few nodes) or judges the logged deviation from it (many nodes).            *)
EXTENDS Fix, Json, IOUtils

CONSTANT MaxLen
VARIABLES q, sid, n
vars == <<q, sid, n>>

Dirs == {"upnode", "downnode", "zero", "negzero", "one", "minusone", "up", "down", "tinyup", "tinydown", "nearnode", "below", "above"}
Hemisphere(mu) == IF mu > 0 THEN "up" ELSE "down"

GInit == q = [dirs |-> <<>>, fn |-> "u", anti |-> FALSE, err |-> FALSE, tauarr |-> FALSE, tau |-> 0, phi |-> 0, form |-> "array"] /\ sid = 0 /\ n = 0
GBegin == /\ n = 0 /\ n' = 1 /\ UNCHANGED sid
          /\ \E f \in {RandomElement({"u", "u0"})}, a \in {RandomElement(BOOLEAN)}, e \in {RandomElement(BOOLEAN)}, b \in {RandomElement(BOOLEAN)},
               t \in {RandomElement(0..3)}, p \in {RandomElement(0..3)}, k \in {RandomElement({"scalar", "array", "list", "array"})} :
               q' = [dirs |-> <<>>, fn |-> f, anti |-> a, err |-> e /\ f = "u", tauarr |-> b, tau |-> t, phi |-> p, form |-> k]
GDir == /\ n = 1 /\ Len(q.dirs) < (IF q.form = "scalar" THEN 1 ELSE MaxLen)
        /\ \E d \in {RandomElement(1..40)} : \E w \in {RandomElement(Dirs \ {"below", "above"})}, v \in {RandomElement({"below", "above"})} :
             q' = [q EXCEPT !.dirs = Append(@, IF d = 1 THEN v ELSE w)]
        /\ UNCHANGED <<sid, n>>
GEmit == /\ n = 1 /\ q.dirs # <<>> /\ n' = 2 /\ UNCHANGED <<q, sid>> /\ PrintT("ASK " \o ToJson(q))
GSpec == GInit /\ [][IF n = 0 THEN GBegin
                     ELSE IF n = 1 /\ Len(q.dirs) < (IF q.form = "scalar" THEN 1 ELSE MaxLen) /\ (q.dirs = <<>> \/ RandomElement(1..5) > 1) THEN GDir ELSE GEmit]_vars

(* ---- judging ------------------------------------------------------------------------- *)
Scen == ndJsonDeserialize(IOEnv.TRACE)
(* basis polynomial i of the nodes x at direction m                                          *)
Basis(x, i, m) == FoldLeft(LAMBDA acc, j : IF j = i THEN acc ELSE Mul(acc, Div(m - x[j], x[i] - x[j])), One, Idx(Len(x)))
Lagrange(x, y, m) == SumI(Len(x), LAMBDA i : Mul(y[i], Basis(x, i, m)))
TolPoly == 400     \* fixed-point evaluation, relative to the largest value at the nodes
TolNode == 2
TolBig  == 60      \* logged deviation, 1e-9 of the largest term of the polynomial

(* e: mu (directions), y.up, y.down (values at the ascending nodes of each hemisphere, per
   column), got (per direction and column), node (0, or the node the direction is)            *)
Expected(S, e, m, c) == IF Hemisphere(m) = "up" THEN Lagrange(S.x, e.up[c], m)
                        ELSE Lagrange([i \in DOMAIN S.x |-> -S.x[i]], e.down[c], m)
AtNode(e, d, c) == LET k == e.node[d] IN k = 0 \/ Near(e.got[d][c], IF k > 0 THEN e.up[c][k] ELSE e.down[c][-k], TolNode)
Poly(S, e, d, c) == e.dev[d][c] <= TolBig /\ (S.small => Near(e.got[d][c], Expected(S, e, e.mu[d], c), TolPoly))
Reject(S, c) == PrintT("REJECT " \o ToJson([sid |-> sid, id |-> S.id, n |-> n, clause |-> c]))
JInit == sid \in DOMAIN Scen /\ n = 1 /\ q = "judge"
JStep == LET S == Scen[sid]  e == S.ev[n] IN
  /\ n <= Len(S.ev) /\ n' = n + 1 /\ UNCHANGED <<sid, q>>
  /\ IF e.outside THEN (IF e.what = "ValueError" THEN TRUE ELSE Reject(S, "C15.refuse"))
     ELSE IF e.what # "" \/ ~e.shape THEN Reject(S, "C15.shape")
     ELSE /\ IF \A d \in DOMAIN e.mu : \A c \in DOMAIN e.got[d] : AtNode(e, d, c) THEN TRUE ELSE Reject(S, "C15.nodes")
          /\ IF \A d \in DOMAIN e.mu : \A c \in DOMAIN e.got[d] : Poly(S, e, d, c) THEN TRUE ELSE Reject(S, "C15.polynomial")
          /\ IF e.extras THEN TRUE ELSE Reject(S, "C15.extras")
JDone == n > Len(Scen[sid].ev) /\ UNCHANGED vars
JSpec == JInit /\ [][JStep \/ JDone]_vars

(* ---- the interpolation lemma on small grids: the Lagrange polynomial reproduces every
   polynomial of lower degree and the values at the nodes (checked exhaustively by TLC)       *)
Grid == {k * 10000000 : k \in 1..9}
LInit == /\ q \in {[x |-> <<a, b, c>>, m |-> m] : a \in {5000000, 15000000}, b \in {40000000, 52000000}, c \in {80000000, 97000000}, m \in Grid}
         /\ sid = 0 /\ n = 0
LSpec == LInit /\ [][UNCHANGED vars]_vars
Lemma == LET x == q.x IN
  /\ Near(Lagrange(x, <<One, One, One>>, q.m), One, 40)
  /\ Near(Lagrange(x, x, q.m), q.m, 40)
  /\ Near(Lagrange(x, [i \in 1..3 |-> Mul(x[i], x[i])], q.m), Mul(q.m, q.m), 40)
  /\ \A i \in 1..3 : Near(Lagrange(x, <<3 * One, -One, 2 * One>>, x[i]), <<3 * One, -One, 2 * One>>[i], 8)
=============================================================================
