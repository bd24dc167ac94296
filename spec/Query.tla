------------------------------- MODULE Query --------------------------------
(* Asking a solved problem for values at depths.

   A solution is, for every output function, one function of depth.  A client
   asks for any sequence of depths in any order and with repetitions, any number
   of times.  Depths are abstract points of a column of L layers:
     0             the top boundary
     10 l + 1..3   points inside layer l (1-based), 4 and 5 very close to its ends
     10 l + 9      exactly on the lower boundary of layer l (the bottom when l = L)
     10 l          just below the lower boundary of layer l - 1 (l >= 2)
     -1, 999       above the top, below the bottom
   The machine has the client's view: what was asked and, per function and point,
   the value that was first seen.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxL, MaxLen, MaxQueries

VARIABLES L, log
vars == <<L, log>>

Fns == {"Fp", "Fm", "Fd", "u0", "u", "act"}

Points(n) == {0} \cup UNION {{10 * l + r : r \in {1, 2, 3, 4, 5, 9}} : l \in 1..n} \cup {10 * l : l \in 2..n}
Outside == {-1, 999}

LayerOf(p) == IF p = 0 THEN 1 ELSE p \div 10
IsInterface(n, p) == p % 10 = 9 /\ p \div 10 < n
BelowInterface(p) == p + 1     \* the point just below interface 10 l + 9 is 10 (l + 1)

(* documented outcome of a query *)
Refused(q) == \E i \in DOMAIN q : q[i] \in Outside

(* scalar, array; bulk: the points of q, each many times over and in any order,
   thousands in one call; fan: with many azimuths in the same call            *)
Forms(q) == (IF Len(q) = 1 THEN {"scalar"} ELSE {}) \cup {"array", "bulk", "fan"}

Init == L \in 1..MaxL /\ log = << >>
Ask(fn, anti, q, form) ==
  /\ Len(log) < MaxQueries
  /\ log' = Append(log, [fn |-> fn, anti |-> anti, q |-> q, form |-> form])
  /\ UNCHANGED L
(* the random choices of a client; in simulation TLC resolves them             *)
PickPoint(bias) == IF bias = 1 THEN RandomElement(Outside \cup Points(L))
                   ELSE RandomElement(Points(L))
RandomAsk ==
  \E k \in {RandomElement(1..MaxLen)}, b \in {RandomElement(1..6)} :
  \E q \in {TLCEval([i \in 1..k |-> PickPoint(b)])} :
  \E fn \in {RandomElement(Fns)}, r \in {RandomElement(1..3)}, 
     r2 \in {RandomElement(1..2)} :
  \E form \in {IF r2 = 1 THEN RandomElement(Forms(q)) ELSE RandomElement(Forms(q) \ {"bulk", "fan"})} :
     Ask(fn, r = 1, q, form)
Emit == Len(log) = MaxQueries /\ PrintT("BEH " \o ToJson([L |-> L, log |-> log]))
                 /\ log' = Append(log, [fn |-> "end", anti |-> FALSE, q |-> << >>, form |-> "end"]) /\ UNCHANGED L
SimNext == RandomAsk \/ Emit
SimSpec == Init /\ [][SimNext]_vars

(* exhaustive exploration on small constants *)
Seqs(k) == UNION {[1..j -> Points(L) \cup Outside] : j \in 1..k}
AskNext == Len(log) < MaxQueries /\ \E q \in Seqs(MaxLen) : \E f \in Forms(q) : Ask("u", FALSE, q, f)
AskSpec == Init /\ [][AskNext]_vars

(* ---- design properties of the depth lookup --------------------------------- *)
TypeOK == \A p \in Points(L) : LayerOf(p) \in 1..L
(* refusal is decided by the points alone, never by their order or number       *)
RefusalPointwise ==
  \A i \in 1..Len(log) : log[i].fn = "end" \/
    (Refused(log[i].q) <=> \E j \in DOMAIN log[i].q : Refused(<<log[i].q[j]>>))
(* every interface separates two different layers                                *)
InterfaceSeparates ==
  \A p \in Points(L) : IsInterface(L, p) => BelowInterface(p) \in Points(L) /\ LayerOf(BelowInterface(p)) = LayerOf(p) + 1
=============================================================================
