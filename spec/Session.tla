------------------------------- MODULE Session -------------------------------
(* A caller's session.  The heap holds the arrays the caller owns (for two
   problems); a solve captures their contents in a new handle; queries on a handle
   answer from what was captured, whatever happened since.  Nothing but the
   caller's own steps changes the heap.

   Versions of an array: 0 original, 1 changed to another valid content, 2 filled
   with not-a-number.  "requery" asks g and h at other depths and directions, changes the
   very same argument arrays in place and asks h; "helpers" calls the stateless helper
   routines and then overwrites every array they returned.  "preempt" suspends one call
   between two of its steps, runs another call to the end, and resumes it; it is replayed
   for several points of suspension.  GSpec produces sessions (at random, or exhaustively with
   WSpec up to Steps disturbances between a solve and a query of everything);
   JSpec judges recorded sessions: RefOf gives the answer an undisturbed solve of
   the captured content gave in a process that did nothing else.                    *)
EXTENDS Fix, Json, IOUtils, FiniteSets

CONSTANTS Steps, MaxHandles
VARIABLES heap, handles, log, sid, n
vars == <<heap, handles, log, sid, n>>

Arrays == <<"tau", "omega", "leg", "f", "s", "bpos", "bneg", "surf">>
NA == Len(Arrays)
Probs == {1, 2}
Other(t) == 3 - t
Opts == <<"plain", "autograd", "cached", "fluxonly", "nested", "shared", "list">>
Queries == <<"fp", "fm", "u0", "u", "fpA", "fmA", "u0A", "uA", "actp", "actm", "actpA", "actmA", "iu", "iu0", "iuA", "err", "tau", "all">>
Bads == <<"omega", "tau", "phase", "streams", "shape", "depth", "angle">>

Clean == [t \in Probs |-> [a \in 1..NA |-> 0]]
Solvable(hp, t) == \A a \in 1..NA : hp[t][a] < 2
Handle(hp, t, o) == [t |-> t, ver |-> hp[t], opt |-> o]

(* ---- the caller's steps: effect on <<heap, handles>> ----------------------------------- *)
Enabled1(o, hp, hs) ==
  CASE o.op = "solve"    -> Solvable(hp, o.t) /\ (o.opt = "nested" => Solvable(hp, Other(o.t)))
    [] o.op = "query"    -> o.h \in DOMAIN hs
    [] o.op = "requery"  -> o.h \in DOMAIN hs /\ o.g \in DOMAIN hs
    [] o.op = "mutate"   -> hp[o.t][o.a] < 2
    [] o.op = "poison"   -> hp[o.t][o.a] < 2
    [] o.op = "restore"  -> hp[o.t][o.a] # 0
    [] o.op = "parallel" -> Len(hs) > 0 /\ Solvable(hp, 1) /\ Solvable(hp, 2)
    [] o.op = "broken"   -> Solvable(hp, o.t)
    [] o.op = "preempt"  -> /\ o.outer = "solve" => Solvable(hp, o.t)
                            /\ o.inner = "solve" => Solvable(hp, IF o.outer = "solve" THEN Other(o.t) ELSE o.t)
                            /\ (o.outer = "query" \/ o.inner = "query") => (o.h \in DOMAIN hs /\ o.g \in DOMAIN hs)
    [] OTHER -> TRUE
HeapAfter(o, hp) ==
  CASE o.op = "mutate"  -> [hp EXCEPT ![o.t][o.a] = 1 - @]
    [] o.op = "poison"  -> [hp EXCEPT ![o.t][o.a] = 2]
    [] o.op = "restore" -> [hp EXCEPT ![o.t][o.a] = 0]
    [] OTHER -> hp
HandlesAfter(o, hp, hs) ==
  CASE o.op = "solve" /\ o.opt = "nested" -> hs \o <<Handle(hp, Other(o.t), "plain"), Handle(hp, o.t, "nested")>>
    [] o.op = "solve" /\ o.opt # "nested" -> Append(hs, Handle(hp, o.t, o.opt))
    [] o.op = "parallel" -> hs \o <<Handle(hp, 1, "plain"), Handle(hp, 2, "plain")>>
    [] o.op = "preempt"  -> hs \o (IF o.inner # "solve" THEN <<>> ELSE <<Handle(hp, IF o.outer = "solve" THEN Other(o.t) ELSE o.t, "plain")>>)
                              \o (IF o.outer # "solve" THEN <<>> ELSE <<Handle(hp, o.t, "plain")>>)
    [] OTHER -> hs

Disturb(nh) ==
       {[op |-> "solve", t |-> t, opt |-> Opts[k]] : t \in Probs, k \in DOMAIN Opts}
  \cup {[op |-> "query", h |-> h, q |-> Queries[k]] : h \in 1..nh, k \in DOMAIN Queries}
  \cup {[op |-> m, t |-> t, a |-> a] : m \in {"mutate", "poison", "restore"}, t \in Probs, a \in 1..NA}
  \cup {[op |-> "requery", h |-> h, g |-> g, q |-> Queries[k]] : h \in 1..nh, g \in 1..nh, k \in DOMAIN Queries}
  \cup {[op |-> "scribble"], [op |-> "parallel"], [op |-> "helpers"]}
  \cup {[op |-> "broken", t |-> t] : t \in Probs}
  \cup {[op |-> "preempt", outer |-> "solve", inner |-> "solve", t |-> t] : t \in Probs}
  \cup {[op |-> "preempt", outer |-> x[1], inner |-> x[2], t |-> t, h |-> h, g |-> g, q |-> Queries[k]] :
          x \in {<<"solve", "query">>, <<"query", "solve">>, <<"query", "query">>}, t \in Probs, h \in 1..nh, g \in 1..nh, k \in DOMAIN Queries}
  \cup {[op |-> "refused", t |-> t, why |-> Bads[k]] : t \in Probs, k \in DOMAIN Bads}
Kinds == {"solve", "query", "mutate", "poison", "restore", "requery", "scribble", "helpers", "parallel", "preempt", "broken", "refused"}

Do(o) == /\ Enabled1(o, heap, handles)
         /\ heap' = HeapAfter(o, heap) /\ handles' = HandlesAfter(o, heap, handles)
         /\ log' = Append(log, o) /\ UNCHANGED <<sid, n>>

(* ---- random sessions ---------------------------------------------------------------- *)
GInit == /\ heap = Clean /\ handles = <<>> /\ log = <<>> /\ sid = 0 /\ n = 0
Choice(nh) == LET k == RandomElement(Kinds) IN {o \in Disturb(nh) : o.op = k}
GStep == /\ Len(log) < Steps
         /\ \E K \in {Choice(Len(handles))} : K # {} /\ \E o \in {RandomElement(K)} :
              IF Enabled1(o, heap, handles) /\ Len(handles) + 2 <= MaxHandles THEN Do(o)
              ELSE \* ask everything of some handle instead
                   \E h \in {RandomElement(1..MaxI(1, Len(handles)))} :
                     IF handles = <<>> THEN Do([op |-> "solve", t |-> 1, opt |-> "plain"])
                     ELSE Do([op |-> "query", h |-> h, q |-> "all"])
GEmit == /\ Len(log) = Steps /\ n = 0
         /\ n' = 1 /\ PrintT("SESSION " \o ToJson([ops |-> log, handles |-> handles]))
         /\ UNCHANGED <<heap, handles, log, sid>>
GSpec == GInit /\ [][GStep \/ GEmit]_vars

(* ---- exhaustive: solve, up to Steps disturbances, ask everything of the first solve ---- *)
WInit == GInit
WFirst == /\ log = <<>> /\ \E k \in DOMAIN Opts : Do([op |-> "solve", t |-> 1, opt |-> Opts[k]])
WStep == /\ Len(log) \in 1..Steps
         /\ \E o \in {x \in Disturb(Len(handles)) : (x.op = "query" => x.h = 1 /\ x.q \in {"all", "iu", "tau"}) /\ (x.op = "requery" => x.h = 1 /\ x.g = Len(handles) /\ x.q \in {"all", "actp", "iuA"})
                                        /\ (x.op = "preempt" /\ "query" \in {x.outer, x.inner} => x.h = 1 /\ x.g = Len(handles) /\ x.t = 1 /\ x.q \in {"all", "iu", "u"})} : Do(o)
WEmit == /\ Len(log) = Steps + 1 /\ n = 0
         /\ n' = 1 /\ PrintT("SESSION " \o ToJson([ops |-> log, handles |-> handles]))
         /\ UNCHANGED <<heap, handles, log, sid>>
WSpec == WInit /\ [][WFirst \/ WStep \/ WEmit]_vars

(* what the model guarantees: a handle, once made, never changes, and only the caller's own
   steps on the heap change the heap                                                          *)
HandlesFixed == [][ /\ Len(handles') >= Len(handles)
                    /\ \A h \in DOMAIN handles : handles'[h] = handles[h] ]_vars
HeapOwned == [][ heap' # heap => log'[Len(log')].op \in {"mutate", "poison", "restore"} ]_vars
TypeOK == /\ \A t \in Probs : \A a \in 1..NA : heap[t][a] \in 0..2
          /\ \A h \in DOMAIN handles : \A a \in 1..NA : handles[h].ver[a] \in 0..1

(* ---- judging ------------------------------------------------------------------------- *)
Scen == ndJsonDeserialize(IOEnv.TRACE)
Tol == 3
RefOf(S, h) == S.refs[CHOOSE k \in DOMAIN S.refs : S.refs[k].t = h.t /\ S.refs[k].ver = h.ver /\ S.refs[k].opt = h.opt].vals
SameAnswer(S, h, x) == NearSeq(RefOf(S, h)[x.q], x.v, Tol)
Answers(S, hs, e) == \A j \in DOMAIN e.vals : e.vals[j].h \in DOMAIN hs /\ SameAnswer(S, hs[e.vals[j].h], e.vals[j])
(* settings of the process (error handling of numpy and scipy, print options, environment,
   directory, limits; last: warning filters) are the caller's: no step of the library changes
   them.  The filters may be saved and restored by two threads at once.                       *)
World(S, k) == IF k = 0 THEN [j \in DOMAIN S.ev[1].world |-> 0] ELSE S.ev[k].world
WorldKept(S, k) == \A j \in DOMAIN S.ev[k].world :
                     \/ S.ev[k].world[j] = World(S, k - 1)[j]
                     \/ j = Len(S.ev[k].world) /\ S.ev[k].o.op \in {"parallel", "preempt"}
HeapSeen(hp, e) == \A t \in Probs : \A a \in 1..NA : e.heap[t][a] = hp[t][a]
Reject(S, c) == PrintT("REJECT " \o ToJson([sid |-> sid, id |-> S.id, n |-> n, clause |-> c]))

JInit == sid \in DOMAIN Scen /\ n = 1 /\ heap = Clean /\ handles = <<>> /\ log = <<>>
JStep == LET S == Scen[sid]  e == S.ev[n] IN
  /\ n <= Len(S.ev)
  /\ Enabled1(e.o, heap, handles)
  /\ heap' = HeapAfter(e.o, heap) /\ handles' = HandlesAfter(e.o, heap, handles)
  /\ IF e.raised THEN Reject(S, "C13.raised") ELSE TRUE
  /\ IF HeapSeen(heap', e) THEN TRUE ELSE Reject(S, "C13.inputs")
  /\ IF WorldKept(S, n) THEN TRUE ELSE Reject(S, "C13.world")
  /\ IF e.raised \/ e.o.op # "helpers" \/ NearSeq(S.helpers, e.hv, Tol) THEN TRUE ELSE Reject(S, "C13.helpers")
  /\ IF e.raised \/ Answers(S, handles', e) THEN TRUE ELSE Reject(S, "C13.answers")
  /\ n' = n + 1 /\ UNCHANGED <<sid, log>>
JDone == n > Len(Scen[sid].ev) /\ UNCHANGED vars
JSpec == JInit /\ [][JStep \/ JDone]_vars
=============================================================================
