------------------------------- MODULE Mirror --------------------------------
(* The same radiation posed in different ways.  A pose says which end of the column is
   presented first and whether the radiation entering in one stream is given as a beam
   along that quadrature direction or as part of the boundary condition.

     Flip    presents the column upside down: layers, sources and conditions change
             places, upward becomes downward.  A beam enters from above only and a
             surface lies below, so neither may be present.
     Recast  exchanges the beam and the stream; a stream from below cannot be a beam.

   ESpec explores all poses of all kinds of columns: every pose that can be written down
   is reached, and all of them name the same physical radiation (Home maps what is seen
   in a pose back to the first one).  GSpec emits random walks over poses.  JSpec judges
   recordings: in every pose of a walk the total radiation (the beam counted in its
   stream) is the same; and responses between streams are reciprocal.                *)
EXTENDS Fix, Json, IOUtils, FiniteSets

CONSTANT Steps
VARIABLES kind, up, form, log, seen, sid, n
vars == <<kind, up, form, log, seen, sid, n>>

(* kinds of columns: with a surface; with a stream that may be recast                      *)
Kinds == [surface : BOOLEAN, stream : BOOLEAN]
Writable(k, u, f) == /\ (k.surface => u) /\ (f = "beam" => u /\ k.stream)
Poses(k) == {p \in BOOLEAN \X {"beam", "stream"} : Writable(k, p[1], p[2])}

Flip   == up' = ~up /\ UNCHANGED <<form, kind>> /\ Writable(kind, ~up, form)
Recast == /\ form' = IF form = "beam" THEN "stream" ELSE "beam"
          /\ UNCHANGED <<up, kind>> /\ Writable(kind, up, form')

(* ---- exploration ----------------------------------------------------------------------- *)
EInit == kind \in Kinds /\ up = TRUE /\ form \in {f \in {"beam", "stream"} : Writable(kind, TRUE, f)}
         /\ log = {<<up, form>>} /\ seen = <<>> /\ sid = 0 /\ n = 0
Visit == log' = log \cup {<<up', form'>>} /\ UNCHANGED <<seen, sid, n>>
FlipV   == Flip /\ Visit
RecastV == Recast /\ Visit
ESpec == EInit /\ [][FlipV \/ RecastV]_vars /\ SF_vars(FlipV) /\ SF_vars(RecastV)
OnlyWritable == Writable(kind, up, form) /\ log \subseteq Poses(kind)
Reached == <>(log = Poses(kind))

(* ---- generation ------------------------------------------------------------------------ *)
GInit == /\ kind \in {k \in Kinds : k.stream \/ ~k.surface}
         /\ up = TRUE /\ form = (IF kind.stream THEN "beam" ELSE "stream")
         /\ log = << >> /\ seen = <<>> /\ sid = 0 /\ n = 0
GStep == IF Len(log) < Steps /\ n = 0
         THEN /\ log' = Append(log, [up |-> up, form |-> form]) /\ UNCHANGED <<seen, sid>>
              /\ \E r \in {RandomElement(1..2)} :
                   CASE r = 1 /\ Writable(kind, ~up, form) -> Flip /\ n' = 0
                     [] r = 2 /\ up /\ kind.stream -> Recast /\ n' = 0
                     [] OTHER -> (IF Writable(kind, ~up, form) THEN Flip /\ n' = 0
                                  ELSE IF up /\ kind.stream THEN Recast /\ n' = 0
                                  ELSE UNCHANGED <<kind, up, form>> /\ n' = 1)
         ELSE /\ n < 2 /\ n' = 2 /\ PrintT("POSES " \o ToJson([kind |-> kind, walk |-> log])) /\ UNCHANGED <<kind, up, form, log, seen, sid>>
GSpec == GInit /\ [][GStep]_vars

(* ---- judging ---------------------------------------------------------------------------- *)
Scen == ndJsonDeserialize(IOEnv.TRACE)
Tol == 60
Reject(S, c) == PrintT("REJECT " \o ToJson([sid |-> sid, id |-> S.id, n |-> n, clause |-> c]))

(* e.u[m][i][d]: mode m, direction i (upward first), d-th depth as presented.
   S.str: the stream (1..N), S.amp[m]: its strength I0 (2 - delta_m0) / (2 pi w) in mode m,
   S.att[d]: attenuation of the beam down to the d-th depth of the upright column            *)
Share(S, e, m, i, d) == IF e.form = "beam" /\ i = S.N + S.str THEN Mul(S.amp[m], S.att[d]) ELSE 0
Seen(S, e, m, i, d) ==
  LET nd == Len(S.att)
      d1 == IF e.up THEN d ELSE nd + 1 - d
      i1 == IF e.up THEN i ELSE IF i <= S.N THEN i + S.N ELSE i - S.N
  IN  e.u[m][i1][d1]
Home(S, e) == [m \in 1..Len(e.u) |-> [i \in 1..(2 * S.N) |-> [d \in 1..Len(S.att) |->
                 LET x == Seen(S, e, m, i, d) IN IF IsBad(x) THEN Bad ELSE x + Share(S, e, m, i, d)]]]
HomeFlux(S, e) ==
  LET nd == Len(S.att) IN
  [d \in 1..nd |-> IF e.up THEN <<e.fp[d], e.fm[d]>> ELSE <<e.fm[nd + 1 - d], e.fp[nd + 1 - d]>>]
Same(S, a, b) == \A m \in DOMAIN a : \A i \in DOMAIN a[m] : NearSeq(a[m][i], b[m][i], Tol)

(* responses between streams: e.r[i][j] is the radiation leaving in stream i per unit in stream j;
   e.q the reverse response (the same matrix for reflection)                                 *)
Recip(S, e) == \A i \in 1..S.N : \A j \in 1..S.N :
  /\ ~IsBad(e.r[i][j]) /\ ~IsBad(e.q[j][i])
  /\ AbsI(Mul(Mul(e.r[i][j], S.w[i]), S.mu[i]) - Mul(Mul(e.q[j][i], S.w[j]), S.mu[j])) <= 20

JInit == sid \in DOMAIN Scen /\ n = 1 /\ kind = <<>> /\ up = TRUE /\ form = "" /\ log = <<>> /\ seen = <<>>
JStep == LET S == Scen[sid]  e == S.ev[n] IN
  /\ n <= Len(S.ev) /\ n' = n + 1 /\ UNCHANGED <<sid, log, kind>>
  /\ IF e.k = "recip"
     THEN UNCHANGED <<up, form, seen>> /\ (IF Recip(S, e) THEN TRUE ELSE Reject(S, "C21.reciprocity"))
     ELSE /\ up' = e.up /\ form' = e.form
          /\ LET h == Home(S, e)  f == HomeFlux(S, e) IN
             IF seen = <<>>
             THEN /\ seen' = <<h, f>>
                  /\ (IF \A m \in DOMAIN h : \A i \in DOMAIN h[m] : Finite(h[m][i]) THEN TRUE ELSE Reject(S, "C21.finite"))
             ELSE /\ UNCHANGED seen
                  /\ LET c == IF e.form # S.ev[1].form THEN "C21.stream" ELSE "C21.reversal" IN
                     IF Same(S, seen[1], h) /\ \A d \in DOMAIN f : NearSeq(seen[2][d], f[d], Tol) THEN TRUE ELSE Reject(S, c)
JDone == n > Len(Scen[sid].ev) /\ UNCHANGED vars
JSpec == JInit /\ [][JStep \/ JDone]_vars
=============================================================================
