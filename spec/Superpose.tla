------------------------------ MODULE Superpose ------------------------------
(* Linearity in the sources.  The optical properties are fixed; a session solves
   the problem for combinations of the four sources, each with an amplitude
   a * 10^e (a a small integer, 0 = switched off; only the beam is never negative).  The state is the field each
   source alone produces; every later solve is determined by it.

   GSpec chooses sessions (exhaustively over on/off patterns or at random over
   amplitudes); JSpec judges recorded sessions.                                   *)
EXTENDS Fix, Json, IOUtils, FiniteSets

CONSTANTS Mode, Steps

Sources == <<"beam", "iso", "top", "bottom">>
VARIABLES log, done, sid, n, basis
vars == <<log, done, sid, n, basis>>

(* ---- choosing sessions --------------------------------------------------------- *)
Off == [a |-> 0, e |-> 0]
Only(k) == [j \in 1..4 |-> IF j = k THEN [a |-> 1, e |-> 0] ELSE Off]
Minus == [a |-> -1, e |-> 0]
Patterns == [1..4 -> {Off, [a |-> 1, e |-> 0]}]
            \cup {x \in [1..4 -> {Off, Minus}] : x[1] = Off /\ x[2] = Off}     \* perturbations of the boundary values alone
Amps == {0, 1, 2, 5}
SignedAmps == {0, 1, 2, 5, -1, -3}     \* a source may be a sink, a boundary value a perturbation
RandomCombo(kind, e0) ==
  [j \in 1..4 |-> [a |-> RandomElement(IF j = 1 THEN Amps ELSE SignedAmps),
                   e |-> IF kind = 1 THEN 0 ELSE IF kind < 4 THEN e0 ELSE IF kind = 4 THEN RandomElement({-10, -5, 0, 4, 8})
                         ELSE RandomElement({-200, -60, 0, 60, 200})]]
Pats == TLCEval(SetToSeq(Patterns))

GInit == log = [k \in 1..4 |-> Only(k)] /\ done = FALSE /\ sid = 0 /\ n = 0 /\ basis = <<>>
Extend == /\ ~done /\ Len(log) < 4 + Steps
          /\ IF Mode = "patterns" THEN log' = Append(log, Pats[Len(log) - 3])
             ELSE \E kind \in {RandomElement(1..5)}, e0 \in {RandomElement({-12, -7, -3, 0, 3, 7, 12})} :
                \E x \in {RandomCombo(kind, e0)} : log' = Append(log, x)
          /\ UNCHANGED <<done, sid, n, basis>>
Emit == /\ ~done /\ Len(log) = 4 + Steps /\ done' = TRUE
        /\ PrintT("SESSION " \o ToJson(log)) /\ UNCHANGED <<log, sid, n, basis>>
GSpec == GInit /\ [][Extend \/ Emit]_vars

(* ---- judging ---------------------------------------------------------------------- *)
Scen == ndJsonDeserialize(IOEnv.TRACE)
Pow10(d) == CASE d = 0 -> One [] d = -1 -> 10000000 [] d = -2 -> 1000000 [] d = -3 -> 100000 [] d = -4 -> 10000
              [] d = -5 -> 1000 [] d = -6 -> 100 [] d = -7 -> 10 [] d = -8 -> 1 [] OTHER -> 0
On(x, off) == {k \in 1..4 : x[k].a # 0 /\ ~off[k]}
Top(x, off) == IF On(x, off) = {} THEN 0 ELSE CHOOSE e \in {x[k].e : k \in On(x, off)} : \A k \in On(x, off) : x[k].e <= e
(* field of a combination in units of the largest amplitude, from the single-source fields *)
Predict(S, x, i) ==
  SumI(4, LAMBDA k : IF k \in On(x, S.off) THEN x[k].a * Mul(Pow10(x[k].e - Top(x, S.off)), basis[k][i]) ELSE 0)
Tol(S, x) == 60 + 20 * Cardinality(On(x, S.off))

(* sources the problem does not have at all stay off                                   *)
Judge(S, e) ==
  IF On(e.x, S.off) = {} THEN \A i \in DOMAIN e.v : e.v[i] = 0
  ELSE Finite(e.v) /\ e.e = Top(e.x, S.off) /\ \A i \in DOMAIN e.v : Near(e.v[i], Predict(S, e.x, i), Tol(S, e.x))

JInit == sid \in DOMAIN Scen /\ n = 1 /\ basis = <<>> /\ log = <<>> /\ done = FALSE
Learn == LET S == Scen[sid] IN
  /\ n <= 4 /\ S.ev[n].x = Only(n)
  /\ IF Finite(S.ev[n].v) /\ (S.off[n] => \A i \in DOMAIN S.ev[n].v : S.ev[n].v[i] = 0) THEN TRUE
     ELSE PrintT("REJECT " \o ToJson([sid |-> sid, id |-> S.id, n |-> n, clause |-> "C10.single"]))
  /\ basis' = Append(basis, S.ev[n].v)
  /\ n' = n + 1 /\ UNCHANGED <<sid, log, done>>
Combine == LET S == Scen[sid] IN
  /\ n > 4 /\ n <= Len(S.ev)
  /\ IF Judge(S, S.ev[n]) THEN TRUE
     ELSE PrintT("REJECT " \o ToJson([sid |-> sid, id |-> S.id, n |-> n,
                 clause |-> IF On(S.ev[n].x, S.off) = {} THEN "C10.zero" ELSE "C10.linear"]))
  /\ n' = n + 1 /\ UNCHANGED <<sid, log, done, basis>>
JDone == n > Len(Scen[sid].ev) /\ UNCHANGED vars
JSpec == JInit /\ [][Learn \/ Combine \/ JDone]_vars
=============================================================================
