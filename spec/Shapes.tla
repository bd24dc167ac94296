-------------------------------- MODULE Shapes --------------------------------
(* The shape contract of the output functions.  A call is a function, the kind of
   each argument, the flags set and the way they are passed.  Outcome gives the
   members of the result, in order, with their shapes; GSpec enumerates all calls,
   JSpec judges recorded ones: members, shapes, and that the entry (i, j, k) of an
   array result is the value at the i-th direction, j-th depth and k-th azimuth.     *)
EXTENDS Fix, Json, IOUtils, FiniteSets

VARIABLES call, sid, n
vars == <<call, sid, n>>

Fns == {"fp", "fm", "u0", "u", "actp", "actm", "iu", "iu0"}
Takes(f) == CASE f \in {"fp", "fm", "u0", "actp", "actm"} -> <<"tau">>
              [] f = "u" -> <<"tau", "phi">> [] f = "iu" -> <<"mu", "tau", "phi">> [] f = "iu0" -> <<"mu", "tau">>
FlagsOf(f) == IF f \in {"u", "iu"} THEN <<"anti", "err", "tauarr">> ELSE <<"anti", "tauarr">>
Kinds == {"float", "npfloat", "one", "two", "three", "list"}
LenOf(k) == CASE k \in {"float", "npfloat"} -> 0 [] k = "one" -> 1 [] k = "two" -> 2 [] k = "three" -> 3 [] k = "list" -> 3
Styles == {"position", "name", "mixed", "allnames"}

Calls == UNION { { [fn |-> f, arg |-> a, flag |-> g, style |-> s]
                   : a \in [1..Len(Takes(f)) -> Kinds], g \in [1..Len(FlagsOf(f)) -> BOOLEAN], s \in Styles } : f \in Fns }

(* length of an axis; a scalar argument and one value both give a dropped axis            *)
Axis(k) == IF LenOf(k) = 0 THEN 1 ELSE LenOf(k)
Squeezed(sh) == SelectSeq(sh, LAMBDA x : x # 1)
Has(c, g) == LET fs == FlagsOf(c.fn) IN \E i \in DOMAIN fs : fs[i] = g /\ c.flag[i]
ArgOf(c, a) == LET ts == Takes(c.fn) IN c.arg[CHOOSE i \in DOMAIN ts : ts[i] = a]

Main(c, nq) ==
  LET t == Axis(ArgOf(c, "tau")) IN
  CASE c.fn \in {"fp", "actp", "actm"} -> <<Squeezed(<<t>>)>>
    [] c.fn = "fm" -> <<Squeezed(<<t>>), Squeezed(<<t>>)>>
    [] c.fn = "u0" -> <<Squeezed(<<nq, t>>)>>
    [] c.fn = "u"  -> <<Squeezed(<<nq, t, Axis(ArgOf(c, "phi"))>>)>>
    [] c.fn = "iu" -> <<Squeezed(<<Axis(ArgOf(c, "mu")), t, Axis(ArgOf(c, "phi"))>>)>>
    [] c.fn = "iu0" -> <<Squeezed(<<Axis(ArgOf(c, "mu")), t>>)>>
Outcome(c, nq, L) ==
  LET m == Main(c, nq) IN
  [i \in DOMAIN m |-> [what |-> "values", shape |-> m[i]]]
    \o (IF Has(c, "err") THEN <<[what |-> "error", shape |-> <<>>]>> ELSE <<>>)
    \o (IF Has(c, "tauarr") THEN <<[what |-> "bounds", shape |-> <<L>>]>> ELSE <<>>)
(* a single value for an array of one depth may keep its axis                              *)
IsFlux(c) == c.fn \in {"fp", "fm", "actp", "actm"}
ShapeOk(c, want, got) == \/ got = want
                         \/ IsFlux(c) /\ want = <<>> /\ got = <<1>> /\ LenOf(ArgOf(c, "tau")) = 1

GInit == call \in Calls /\ sid = 0 /\ n = 0
Emit == n = 0 /\ n' = 1 /\ PrintT("CALL " \o ToJson([c |-> call, takes |-> Takes(call.fn), flags |-> FlagsOf(call.fn)])) /\ UNCHANGED <<call, sid>>
GSpec == GInit /\ [][Emit]_vars
(* every flag combination only appends members; the values always come first                *)
Sane == LET o == Outcome(call, 4, 3) IN
        /\ Len(o) = Len(Main(call, 4)) + Cardinality({i \in DOMAIN call.flag : call.flag[i] /\ FlagsOf(call.fn)[i] # "anti"})
        /\ \A i \in DOMAIN o : o[i].what = "values" <=> i <= Len(Main(call, 4))

(* ---- judging ------------------------------------------------------------------------- *)
Scen == ndJsonDeserialize(IOEnv.TRACE)
Tol == 20
Members(S, e) == LET o == Outcome(e.c, S.nq, S.L) IN
  /\ Len(e.got) = Len(o)
  /\ \A i \in DOMAIN o : LET g == e.got[i] IN
       CASE o[i].what = "values" -> g.kind \in {"array", "scalar"} /\ ShapeOk(e.c, o[i].shape, g.shape)
         [] o[i].what = "error"  -> g.kind \in {"scalar", "array"} /\ g.shape = <<>> /\ Near(g.val, S.err, 200)
         [] o[i].what = "bounds" -> g.kind = "array" /\ g.shape = <<S.L>> /\ NearSeq(g.vals, S.tau, 0)
Values(S, e) == \A i \in DOMAIN e.at : NearSeq(e.at[i], e.alone[i], Tol)
MuOrder(S) == /\ Len(S.mu) = S.nq
              /\ \A i \in 1..(S.nq \div 2) :
                   /\ S.mu[i] > 0 /\ S.mu[i] < One /\ S.mu[i + S.nq \div 2] = -S.mu[i]
                   /\ Near(S.mu[i], S.nodes[i], 2)
                   /\ (i > 1 => S.mu[i] > S.mu[i - 1])
Reject(S, c) == PrintT("REJECT " \o ToJson([sid |-> sid, id |-> S.id, n |-> n, clause |-> c]))
JInit == sid \in DOMAIN Scen /\ n = 0 /\ call = [fn |-> "none"]
JTuple == LET S == Scen[sid] IN
  /\ n = 0 /\ n' = 1 /\ UNCHANGED <<call, sid>>
  /\ IF S.nout = (IF S.onlyflux THEN 4 ELSE 5) THEN TRUE ELSE Reject(S, "C14.tuple")
  /\ IF MuOrder(S) THEN TRUE ELSE Reject(S, "C14.mu")
JStep == LET S == Scen[sid]  e == S.ev[n] IN
  /\ n \in 1..Len(S.ev)
  /\ e.c \in Calls
  /\ IF e.raised \/ ~Members(S, e) THEN Reject(S, "C14.members")
     ELSE IF ~Values(S, e) THEN Reject(S, "C14.order") ELSE TRUE
  /\ n' = n + 1 /\ call' = e.c /\ UNCHANGED sid
JDone == n > Len(Scen[sid].ev) /\ UNCHANGED vars
JSpec == JInit /\ [][JTuple \/ JStep \/ JDone]_vars
=============================================================================
