------------------------------- MODULE Options -------------------------------
(* Alt of representation and algorithm.  The state is the current way one and
   the same physical problem is put to pydisort (opt); a step changes one choice
   and asks again.  What the solver answers is a function of the physical problem
   and of the number of Fourier modes only: the abstract answer is

       flux part       : fixed,
       intensity part  : the first nf cosine modes of a fixed sequence,
                         absent in only-flux mode.

   GSpec produces walks over the choices; JSpec judges recorded walks against the
   first answer.                                                                    *)
EXTENDS Fix, Json, IOUtils, FiniteSets

CONSTANT Steps
VARIABLES opt, log, sid, n
vars == <<opt, log, sid, n>>

Alt == [ solver   |-> <<"native", "dense", "banded", "exact", "above">>,
             autograd |-> <<"no", "yes">>,
             surface  |-> <<"native", "function", "cached", "cached_mu0", "twice", "padded", "numpy">>,
             top      |-> <<"native", "vector", "matrix">>,
             bottom   |-> <<"native", "vector", "matrix">>,
             container |-> <<"array", "list", "tuple", "fortran", "strided", "readonly", "scalar", "int", "numpy">>,
             defaults |-> <<"explicit", "omitted">>,
             poly     |-> <<"native", "pad1", "pad2", "pad4", "pad70", "zeros">>,
             peak     |-> <<"native", "absent">>,
             idle     |-> <<"native", "beam", "phase", "fraction", "tail", "cut", "nt", "modes">>,   \* arguments that cannot matter
             passing  |-> <<"names", "positions">>,
             asked    |-> <<"array", "list", "int64", "int32", "int8", "uint8", "uint64">>,   \* type of the depths and azimuths asked
             fluxonly |-> <<"no", "yes">>,
             azimuth  |-> <<"full", "fewer", "one">> ]
Names == DOMAIN Alt
Plain == [k \in Names |-> Alt[k][1]]

GInit == opt = Plain /\ log = <<Plain>> /\ sid = 0 /\ n = 0
Flip == /\ Len(log) <= Steps
        /\ \E k \in {RandomElement(Names)} : \E j \in {RandomElement(2..Len(Alt[k]))} :
             opt' = [opt EXCEPT ![k] = IF @ = Alt[k][j] THEN Alt[k][1] ELSE Alt[k][j]]
        /\ log' = Append(log, opt')
        /\ UNCHANGED <<sid, n>>
Emit == /\ Len(log) = Steps + 1
        /\ log' = Append(log, Plain) /\ PrintT("WALK " \o ToJson(log))
        /\ UNCHANGED <<opt, sid, n>>
GSpec == GInit /\ [][Flip \/ Emit]_vars

(* every single choice on top of the base, in turn (exhaustive)                        *)
AllFlips == {<<k, j>> : k \in Names, j \in 1..9}
SInit == /\ \E f \in {x \in AllFlips : x[2] \in 2..Len(Alt[x[1]])} : opt = [Plain EXCEPT ![f[1]] = Alt[f[1]][f[2]]]
         /\ log = <<>> /\ sid = 0 /\ n = 0
SEmit == /\ log = <<>> /\ log' = <<Plain, opt>> /\ PrintT("WALK " \o ToJson(log')) /\ UNCHANGED <<opt, sid, n>>
SSpec == SInit /\ [][SEmit]_vars

TypeOK == /\ DOMAIN opt = Names
          /\ \A k \in Names : \E j \in DOMAIN Alt[k] : opt[k] = Alt[k][j]

(* ---- judging ------------------------------------------------------------------------- *)
Scen == ndJsonDeserialize(IOEnv.TRACE)
TolOpt == 60
(* e.flux, e.modes (a sequence over modes, empty in only-flux mode), e.full (intensities)   *)
SameFlux(r, e) == NearSeq(r.flux, e.flux, TolOpt)
Prefix(r, e) == /\ Len(e.modes) <= Len(r.modes)
                /\ \A m \in DOMAIN e.modes : NearSeq(r.modes[m], e.modes[m], TolOpt)
Judge(S, e) ==
  LET r == S.ev[1] IN
  /\ ~e.raised
  /\ SameFlux(r, e)
  /\ (e.o.fluxonly = "no" <=> e.intensity)
  /\ Prefix(r, e)
  /\ (e.intensity => Len(e.modes) = (IF S.modal THEN e.nf ELSE 1))
(* two options may matter: name the one that was changed last                            *)
Changed(S, i) == IF i = 1 THEN "base"
                 ELSE LET d == {k \in Names : S.ev[i].o[k] # S.ev[i - 1].o[k]} IN
                      IF d = {} THEN "base" ELSE CHOOSE k \in d : TRUE
JInit == sid \in DOMAIN Scen /\ n = 1 /\ opt = Scen[sid].ev[1].o /\ log = <<>>
JStep == LET S == Scen[sid]  e == S.ev[n] IN
  /\ n <= Len(S.ev)
  /\ (n = 1 => e.o = Plain)
  /\ Cardinality({k \in Names : e.o[k] # opt[k]}) <= 1       \* one choice at a time
  /\ IF Judge(S, e) THEN TRUE
     ELSE PrintT("REJECT " \o ToJson([sid |-> sid, id |-> S.id, n |-> n, clause |-> "C11." \o Changed(S, n)]))
  /\ opt' = e.o /\ n' = n + 1 /\ UNCHANGED <<sid, log>>
JDone == n > Len(Scen[sid].ev) /\ UNCHANGED vars
JSpec == JInit /\ [][JStep \/ JDone]_vars
=============================================================================
