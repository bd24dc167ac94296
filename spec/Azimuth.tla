------------------------------- MODULE Azimuth -------------------------------
(* Dependence on azimuth.  The state is the azimuth of the beam and the azimuth that is
   looked at, on a lattice of 15 degrees (whole turns included).  The steps are the
   symmetries: a whole turn, a reflection about the beam, a rotation of beam and view
   together; and moves of the view.  All fields are functions of Class, the unsigned
   difference of the two azimuths; they are cosine series of at most nf terms; without
   forcing that depends on azimuth they are constant.

   GSpec walks at random after a sweep over all classes; with ESpec TLC checks on the
   whole lattice that the steps keep the class.  JSpec judges recorded walks.            *)
EXTENDS Fix, Json, IOUtils, FiniteSets

CONSTANT Steps
VARIABLES b, v, log, seen, sid, n
vars == <<b, v, log, seen, sid, n>>
M == 24
Fold(k) == LET r == k % M IN IF r <= M \div 2 THEN r ELSE M - r
Class == Fold(v - b)

Turn(k)    == v' = v + k * M /\ UNCHANGED b
Reflect    == v' = 2 * b - v /\ UNCHANGED b
Rotate(k)  == b' = (b + k) % M /\ v' = v + (b' - b)
RotateV(k) == b' = (b + k) % M /\ v' = v + k           \* the beam azimuth is reduced, the view is not
Move(k)    == v' = v + k /\ UNCHANGED b
Symmetric  == (\E k \in {-2, -1, 1, 3} : Turn(k)) \/ Reflect \/ (\E k \in 1..(M - 1) : Rotate(k) \/ RotateV(k))

EInit == b \in 0..(M - 1) /\ v \in (-M)..(2 * M) /\ log = <<>> /\ seen = <<>> /\ sid = 0 /\ n = 0
ENext == n = 0 /\ n' = 1 /\ Symmetric /\ UNCHANGED <<log, seen, sid>>
ESpec == EInit /\ [][ENext]_vars
ClassKept == [][Fold(v' - b') = Fold(v - b)]_vars

GInit == \E b0 \in {RandomElement(0..(M - 1))} : b = b0 /\ v = b0 /\ log = <<>> /\ seen = <<>> /\ sid = 0 /\ n = 0
Pick == \E k \in {RandomElement(1..6)}, r \in {RandomElement(1..(M - 1))}, t \in {RandomElement({-3, -1, 1, 2})} :
          CASE k = 1 -> Turn(t) [] k = 2 -> Reflect [] k = 3 -> Rotate(r) [] k = 4 -> RotateV(r) [] OTHER -> Move(r)
GStep == IF Len(log) < Steps
         THEN /\ (IF Len(log) <= M \div 2 THEN Move(1) ELSE Pick) /\ log' = Append(log, [b |-> b, v |-> v]) /\ UNCHANGED <<seen, sid, n>>
         ELSE /\ n = 0 /\ n' = 1 /\ PrintT("AZ " \o ToJson(log)) /\ UNCHANGED <<b, v, log, seen, sid>>
GSpec == GInit /\ [][GStep]_vars

(* ---- judging ------------------------------------------------------------------------- *)
Scen == ndJsonDeserialize(IOEnv.TRACE)
Tol == 30
(* cos of multiples of 15 degrees                                                            *)
C15 == << 100000000, 96592583, 86602540, 70710678, 50000000, 25881905, 0 >>
Cos(k) == LET f == Fold(k) IN IF f <= 6 THEN C15[f + 1] ELSE -C15[13 - f]
(* coefficient m of the cosine series from the values at the 13 classes (type-I transform)    *)
Coef(vals, m, c) ==
  LET w(k) == IF k \in {0, 12} THEN 1 ELSE 2 IN
  SumI(13, LAMBDA i : w(i - 1) * Mul(vals[i - 1][c], Cos(m * (i - 1)))) \div (IF m \in {0, 12} THEN 24 ELSE 12)
Series(S, vals) == \A m \in S.nf..12 : \A c \in 1..S.cols : AbsI(Coef(vals, m, c)) <= 40
(* e.points: [last, u] at every queried point; e.err the reported error                        *)
ErrOk(e) == /\ \A i \in DOMAIN e.points : LET p == e.points[i] IN p.sure => AbsI(p.last) <= Mul(e.err, AbsI(p.u)) + 200
            /\ \/ \E i \in DOMAIN e.points : LET p == e.points[i] IN AbsI(AbsI(p.last) - Mul(e.err, AbsI(p.u))) <= 200 + AbsI(p.last) \div 500000
               \/ e.err = 0 /\ ~\E i \in DOMAIN e.points : e.points[i].sure
Reject(S, c) == PrintT("REJECT " \o ToJson([sid |-> sid, id |-> S.id, n |-> n, clause |-> c]))
JInit == sid \in DOMAIN Scen /\ n = 1 /\ b = Scen[sid].ev[1].b /\ v = Scen[sid].ev[1].v /\ log = <<>> /\ seen = <<>>
NoVal == <<>>
JStep == LET S == Scen[sid]  e == S.ev[n] IN
  /\ n <= Len(S.ev) /\ n' = n + 1 /\ UNCHANGED <<sid, log>>
  /\ IF e.k = "err" THEN UNCHANGED <<b, v, seen>> /\ (IF ErrOk(e) THEN TRUE ELSE Reject(S, "C18.error"))
     ELSE IF e.k = "series" THEN UNCHANGED <<b, v, seen>> /\ (IF e.v <= 60 THEN TRUE ELSE Reject(S, "C18.series"))
     ELSE LET c == Fold(e.v - e.b)
              first == ~(\E i \in DOMAIN seen : seen[i][1] = c)
              ref == IF first THEN e.u ELSE seen[CHOOSE i \in DOMAIN seen : seen[i][1] = c][2] IN
          /\ b' = e.b /\ v' = e.v
          /\ seen' = IF first THEN Append(seen, <<c, e.u>>) ELSE seen
          /\ IF Finite(e.u) /\ NearSeq(ref, e.u, Tol) THEN TRUE ELSE Reject(S, "C18.symmetry")
          /\ IF S.uniform => NearSeq(S.ev[1].u, e.u, Tol) THEN TRUE ELSE Reject(S, "C18.uniform")
JSeries == LET S == Scen[sid] IN
  /\ n = Len(S.ev) + 1 /\ n' = n + 1 /\ UNCHANGED <<b, v, seen, sid, log>>
  /\ LET classes == {seen[i][1] : i \in DOMAIN seen}
         vals == [c \in classes |-> seen[CHOOSE i \in DOMAIN seen : seen[i][1] = c][2]] IN
     IF ~S.modal \/ S.nf > 12 \/ classes # 0..12 \/ Series(S, vals) THEN TRUE ELSE Reject(S, "C18.series")
JDone == n > Len(Scen[sid].ev) + 1 /\ UNCHANGED vars
JSpec == JInit /\ [][JStep \/ JSeries \/ JDone]_vars
=============================================================================
