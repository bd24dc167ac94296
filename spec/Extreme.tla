------------------------------- MODULE Extreme -------------------------------
(* Columns built by appending layers of extreme optical thickness.  A column is a
   sequence of layers <<e, a>>: thickness of order 10^e, albedo class a.  TLC
   enumerates all short columns and walks at random to long ones; every column is
   concretised and solved.  Recorded solutions are judged by JSpec.              *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS MaxLayers,          \* length of the columns
          Long                \* TRUE: only print columns of full length (random walks)

VARIABLES col, phase
gvars == <<col, phase>>

Exps == {-6, -4, -2, 0, 1, 2, 3, 4}
Albedos == {"zero", "std", "near1"}

(* everything below such a layer is invisible from above it                      *)
OpaqueLayer(x) == (x[1] >= 3 /\ x[2] # "near1") \/ x[1] >= 4
Opaque(c) == \E i \in DOMAIN c : OpaqueLayer(c[i])
Vanishing(c) == \A i \in DOMAIN c : c[i][1] = -6

Init == col = <<>> /\ phase = "grow"
Append1 == /\ phase = "grow" /\ Len(col) < MaxLayers
           /\ \E e \in Exps, a \in Albedos : col' = Append(col, <<e, a>>)
           /\ UNCHANGED phase
Emit == /\ phase = "grow" /\ col # <<>> /\ (Long => Len(col) = MaxLayers)
        /\ phase' = "done" /\ UNCHANGED col
        /\ PrintT("COL " \o ToJson([col |-> col, opaque |-> Opaque(col), vanishing |-> Vanishing(col)]))

TypeOK == \A i \in DOMAIN col : col[i][1] \in Exps /\ col[i][2] \in Albedos
(* appending matter never makes an opaque column transparent                      *)
OpaqueStays == [][Opaque(col) => Opaque(col')]_gvars
NotBoth == col # <<>> => ~(Opaque(col) /\ Vanishing(col))

(* ---- judging recordings --------------------------------------------------------- *)
Scen == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, n
Tol(c) == CASE c = "top" -> 5000 [] c = "bottom" -> 5000 [] c = "cross" -> 5000 [] c = "energy" -> 10000
            [] c = "below" -> 2000          \* units of 10^-9
            [] c = "vanish" -> 20           \* multiple of thickness over grazing cosine
Judge(S, e) ==
  CASE e.k = "finite" -> \A i \in DOMAIN e.ok : e.ok[i]
    [] e.k = "res" -> /\ (e.c = "below" => Opaque(S.col))
                      /\ (e.c = "vanish" => Vanishing(S.col))
                      /\ e.v >= 0 /\ e.v <= Tol(e.c)
Clause(e) == IF e.k = "finite" THEN "C20.finite" ELSE "C20." \o e.c
JInit == sid \in DOMAIN Scen /\ n = 1 /\ col = <<>> /\ phase = "judge"
JStep == LET S == Scen[sid] IN
  /\ n <= Len(S.ev)
  /\ IF Judge(S, S.ev[n]) THEN TRUE
     ELSE PrintT("REJECT " \o ToJson([sid |-> sid, id |-> S.id, n |-> n, clause |-> Clause(S.ev[n])]))
  /\ n' = n + 1 /\ UNCHANGED <<sid, gvars>>
JDone == n > Len(Scen[sid].ev) /\ UNCHANGED <<sid, n, gvars>>
JSpec == JInit /\ [][JStep \/ JDone]_<<sid, n, gvars>>
GSpec == Init /\ sid = 0 /\ n = 0 /\ [][(Append1 \/ Emit) /\ UNCHANGED <<sid, n>>]_<<sid, n, gvars>>
=============================================================================
