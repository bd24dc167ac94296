--------------------------------- MODULE Api ---------------------------------
(* Which calls pydisort and its helpers accept.  A call is described by the shape
   and class of every argument; Refuse says, from the documented domains alone,
   whether it must be refused.  Calls on whose acceptance the documentation is
   silent are DontCare and are not posed.

   GSpec starts from valid calls and makes up to Depth deviations, exhaustively or
   at random; JSpec judges what the implementation did with the calls.             *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, FiniteSets

CONSTANTS Depth, Random
VARIABLES call, k, sid
vars == <<call, k, sid>>

NONE == 99     \* an optional integer left out

Contexts ==
  { [L |-> L, lenom |-> L, rows |-> L, lenf |-> L, lens |-> L,
     nq |-> q, nleg |-> q, nf |-> IF q = 2 THEN 1 ELSE 3, nall |-> q + 2,
     tau |-> "ok", om |-> "ok", leg |-> "ok", f |-> f, s |-> s, I0 |-> b, mu0 |-> "ok", phi0 |-> "ok",
     bpos |-> "scalar", bneg |-> "scalar", bposzero |-> FALSE, bnegzero |-> FALSE, thr |-> 10, nt |-> FALSE, onlyflux |-> o]
    : L \in {1, 3}, q \in {2, 4, 6}, f \in {"zero", "ok"}, s \in {"none", "ok"}, b \in {"zero", "pos"}, o \in {FALSE, TRUE} }

Shapes == {"scalar", "one", "oneone", "vec", "vecplus", "vecminus", "mat", "matplus", "transposed", "column", "cube"}

Dev == [ lenom |-> {1, 2, 3, 4}, rows |-> {1, 2, 3, 4}, lenf |-> {1, 2, 3, 4}, lens |-> {1, 2, 3, 4},
         nq |-> {-2, 0, 1, 2, 3, 4, 5, 6, 8}, nleg |-> {-1, 0, 1, 2, 3, 4, 6, 7, NONE}, nf |-> {-1, 0, 1, 2, 3, 4, 5, 7, NONE}, nall |-> {1, 2, 4, 6, 9},
         tau |-> {"zerofirst", "negative", "decreasing", "repeated", "tiny"}, om |-> {"zero", "negative", "one", "above", "almostone"},
         leg |-> {"one", "minusone", "above", "zeroth", "zerothabove", "negative", "allzero"},
         f |-> {"zero", "ok", "negative", "above"}, s |-> {"none", "ok", "zeros", "wide"}, I0 |-> {"zero", "pos", "negative"},
         mu0 |-> {"zero", "negative", "above", "one", "node", "nearnode"}, phi0 |-> {"zero", "negative", "twopi", "above", "belowtwopi"},
         bpos |-> Shapes, bneg |-> Shapes, bposzero |-> {TRUE}, bnegzero |-> {TRUE},
         thr |-> {-1, 0, 2, 3, 1000}, nt |-> {TRUE}, onlyflux |-> {TRUE} ]

(* ---- the documented domain ---------------------------------------------------------- *)
NLegOf(c) == IF c.nleg = NONE THEN c.nq ELSE c.nleg
NFOf(c)   == IF c.onlyflux THEN 1 ELSE IF c.nf = NONE THEN c.nq ELSE c.nf
NOf(c)    == c.nq \div 2
Shape(c, b) ==
  LET N == NOf(c)  M == NFOf(c) IN
  CASE b = "scalar" -> <<>> [] b = "one" -> <<1>> [] b = "oneone" -> <<1, 1>>
    [] b = "vec" -> <<N>> [] b = "vecplus" -> <<N + 1>> [] b = "vecminus" -> <<N + 2>>
    [] b = "mat" -> <<N, M>> [] b = "matplus" -> <<N, M + 1>> [] b = "transposed" -> <<M, N>>
    [] b = "column" -> <<N, 1>> [] b = "cube" -> <<N, M, 2>>
Size(sh) == IF sh = <<>> THEN 1 ELSE IF Len(sh) = 1 THEN sh[1] ELSE IF Len(sh) = 2 THEN sh[1] * sh[2] ELSE sh[1] * sh[2] * sh[3]
BcOk(c, b, zero) == zero \/ Size(Shape(c, b)) = 1 \/ Shape(c, b) = <<NOf(c)>> \/ Shape(c, b) = <<NOf(c), NFOf(c)>>
Beam(c) == c.I0 = "pos"

Reasons(c) ==
  { r \in {"tau", "om", "nleg", "nall", "rows", "lenom", "lenf", "lens", "leg", "nq", "nf", "streams", "I0", "mu0", "phi0", "bpos", "bneg", "f", "thr", "node"} :
    CASE r = "tau"   -> c.tau \in {"zerofirst", "negative"} \/ (c.L > 1 /\ c.tau \in {"decreasing", "repeated"})
      [] r = "om"    -> c.om \in {"negative", "one", "above"}
      [] r = "nleg"  -> NLegOf(c) <= 0
      [] r = "nall"  -> NLegOf(c) > c.nall
      [] r = "rows"  -> c.rows # c.L
      [] r = "lenom" -> c.lenom # c.L
      [] r = "lenf"  -> c.f # "zero" /\ c.lenf # c.L
      [] r = "lens"  -> c.s \in {"ok", "wide"} /\ c.lens # c.L
      [] r = "leg"   -> c.leg \in {"one", "minusone", "above"} /\ c.nall > 1
      [] r = "nq"    -> c.nq < 2 \/ c.nq % 2 # 0
      [] r = "nf"    -> NFOf(c) <= 0 \/ NFOf(c) > NLegOf(c)
      [] r = "streams" -> NLegOf(c) > c.nq
      [] r = "I0"    -> c.I0 = "negative"
      [] r = "mu0"   -> Beam(c) /\ c.mu0 \in {"zero", "negative", "above"}
      [] r = "phi0"  -> Beam(c) /\ c.phi0 \in {"negative", "twopi", "above"}
      [] r = "bpos"  -> ~BcOk(c, c.bpos, c.bposzero)
      [] r = "bneg"  -> ~BcOk(c, c.bneg, c.bnegzero)
      [] r = "f"     -> c.f \in {"negative", "above"}
      [] r = "thr"   -> c.thr < 3
      [] r = "node"  -> c.nt /\ c.mu0 \in {"node", "nearnode"} }
Refuse(c) == Reasons(c) # {}
(* a wrong zeroth coefficient of a scattering layer is corrected with a warning            *)
Warn(c) == c.leg \in {"zeroth", "zerothabove", "allzero"} /\ c.om # "zero"

DontCare(c) ==
  \/ c.nt /\ ~Beam(c) /\ c.mu0 \in {"node", "nearnode"}        \* no beam to correct for
  \/ c.onlyflux /\ c.nf # NONE /\ (c.nf <= 0 \/ c.nf > NLegOf(c))   \* the number of modes is not used
  \/ c.f \in {"ok", "negative", "above"} /\ c.lenf = c.L /\ c.leg = "allzero"
  \/ c.s = "zeros" /\ c.lens # c.L                             \* an absent source of the wrong length
  \/ c.f = "zero" /\ c.lenf # c.L                              \* an absent peak fraction of the wrong length

(* ---- choosing calls --------------------------------------------------------------------- *)
GInit == call \in Contexts /\ k = 0 /\ sid = 0
Change(f, v) == call' = [call EXCEPT ![f] = v]
Deviate == /\ k < Depth
           /\ IF Random THEN \E f \in {RandomElement(DOMAIN Dev)} : \E v \in {RandomElement(Dev[f])} : Change(f, v)
              ELSE \E f \in DOMAIN Dev : \E v \in Dev[f] : Change(f, v)
           /\ k' = k + 1 /\ UNCHANGED sid
Emit == /\ k < 90 /\ (Random => k = Depth) /\ ~DontCare(call)
        /\ k' = 90 /\ UNCHANGED <<call, sid>>
        /\ PrintT("CALL " \o ToJson([c |-> call, r |-> Reasons(call), shapes |-> <<Shape(call, call.bpos), Shape(call, call.bneg)>>]))
GSpec == GInit /\ [][Deviate \/ Emit]_vars
ContextsValid == k = 0 => ~Refuse(call) /\ ~Warn(call) /\ ~DontCare(call)

(* ---- helpers ------------------------------------------------------------------------------- *)
HelperCalls ==
       {[h |-> "clenshaw", n |-> n] : n \in -1..12}
  \cup {[h |-> "spline", nx |-> nx, ny |-> ny, order |-> o] : nx \in 0..4, ny \in 0..4, o \in {"up", "down", "repeat", "swap"}}
  \cup {[h |-> "affine", n |-> n, zero |-> z] : n \in 1..3, z \in 0..3}       \* z: position of a zero factor, 0 = none
  \cup {[h |-> "temper", L |-> L, n |-> n] : L \in 1..4, n \in 1..6}
  \cup {[h |-> "interpolate", f |-> f, mu |-> m, at |-> a] : f \in {"u", "u0"}, m \in {"inside", "minusone", "one", "above", "below", "faraway"}, a \in 0..3}
  \cup {[h |-> "depth", f |-> f, t |-> t, at |-> a, anti |-> b] : f \in {"Fp", "Fm", "u0", "u", "NTu", "actp", "actm", "iu", "iu0"},
           t \in {"inside", "top", "bottom", "interface", "justabove", "justbelow", "above", "below"}, a \in 0..3, b \in BOOLEAN}
  \cup {[h |-> "wrongfunction", n |-> n] : n \in {1, 2, 3, 6}}
HelperRefuse(x) ==
  CASE x.h = "clenshaw" -> x.n <= 2 \/ x.n % 2 = 0
    [] x.h = "spline"   -> x.nx < 2 \/ x.nx # x.ny \/ x.order \in {"down", "repeat"} \/ (x.order = "swap" /\ x.nx > 2)
    [] x.h = "affine"   -> x.zero \in 1..x.n
    [] x.h = "temper"   -> x.n # x.L + 1
    [] x.h = "interpolate" -> x.mu \in {"above", "below", "faraway"}
    [] x.h = "depth"    -> x.t \in {"justabove", "justbelow", "above", "below"}     \* outside the atmosphere
    [] x.h = "wrongfunction" -> TRUE
HInit == call \in HelperCalls /\ k = 0 /\ sid = 0
HEmit == k = 0 /\ k' = 1 /\ UNCHANGED <<call, sid>> /\ PrintT("HELP " \o ToJson(call))
HSpec == HInit /\ [][HEmit]_vars

(* ---- judging --------------------------------------------------------------------------------- *)
Scen == ndJsonDeserialize(IOEnv.TRACE)
JudgeCall(e) ==
  IF Refuse(e.c) THEN e.got = "ValueError"
  ELSE e.got = "accepted" /\ (Warn(e.c) => e.warned /\ e.corrected)
JudgeHelper(e) ==
  IF HelperRefuse(e.c) THEN e.got = (IF e.c.h = "wrongfunction" /\ e.got # "accepted" THEN e.got ELSE "ValueError") ELSE e.got = "accepted"
What(e) == IF e.k = "help" THEN "helper." \o e.c.h
           ELSE IF ~Refuse(e.c) THEN (IF e.got = "accepted" THEN "warning" ELSE "accept")
           ELSE "refuse." \o (CHOOSE r \in Reasons(e.c) : TRUE)
JInit == sid \in DOMAIN Scen /\ k = 1 /\ call = <<>>
JStep == LET S == Scen[sid]  e == S.ev[k] IN
  /\ k <= Len(S.ev)
  /\ (e.k = "call" => Assert(~DontCare(e.c), "harness: posed a call on which the documentation is silent"))
  /\ IF IF e.k = "call" THEN JudgeCall(e) ELSE JudgeHelper(e) THEN TRUE
     ELSE PrintT("REJECT " \o ToJson([sid |-> sid, id |-> S.id, n |-> k, clause |-> "C12." \o What(e)]))
  /\ k' = k + 1 /\ UNCHANGED <<sid, call>>
JDone == k > Len(Scen[sid].ev) /\ UNCHANGED vars
JSpec == JInit /\ [][JStep \/ JDone]_vars
=============================================================================
