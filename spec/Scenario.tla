------------------------------ MODULE Scenario ------------------------------
(* The space of problems a user can pose, as a machine that fixes one feature
   of the problem after the other.  Every complete behaviour is one scenario;
   the guards are the documented compatibility conditions, so every complete
   scenario is a valid problem.  TLC walks the machine at random (simulation)
   to produce the scenarios that are concretised and replayed into pydisort;
   exhaustive model checking of the same machine on reduced domains shows the
   guards never block and always end in a well-formed scenario.               *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANT Profile

VARIABLES i, c
vars == <<i, c>>

Features == << "nq", "L", "beam", "om", "delta", "extra", "nleg", "nf", "phase", "thick",
               "iso", "isopat", "bpos", "bneg", "bdrf", "cache", "solver", "mag", "nt" >>

(* ---- every value a feature may take ----------------------------------- *)
Full(n) ==
  CASE n = "nq"     -> {"2", "4", "6", "8", "12", "16"}
    [] n = "L"      -> {"1", "2", "3", "4", "6", "11"}
    [] n = "beam"   -> {"none", "std", "steep", "graze"}
    [] n = "om"     -> {"std", "near1", "zerolayer", "allzero", "tiny"}
    [] n = "delta"  -> {"none", "uniform", "mixed", "varied", "peak", "strong"}
    [] n = "extra"  -> {"none", "some", "many"}
    [] n = "nleg"   -> {"full", "less", "one", "few"}
    [] n = "nf"     -> {"full", "less", "one"}
    [] n = "phase"  -> {"hg", "iso", "back", "mix", "short", "vary", "sharp", "gap"}
    [] n = "thick"  -> {"std", "thin", "mixed", "thick"}
    [] n = "iso"    -> {"0", "1", "2", "3", "5", "8", "11", "24"}
    [] n = "isopat" -> {"all", "interior", "onelayer", "cancel", "lone"}
    [] n = "bpos"   -> {"zero", "scalar", "vector", "matrix"}
    [] n = "bneg"   -> {"zero", "scalar", "vector", "matrix"}
    [] n = "bdrf"   -> {"none", "scalar", "scalar2", "func", "multi", "mixed", "many"}
    [] n = "cache"  -> {"no", "plain", "mu0"}
    [] n = "solver" -> {"dense", "banded", "default"}
    [] n = "mag"    -> {"unit", "big", "small"}
    [] n = "nt"     -> {"no", "yes"}

(* ---- restrictions made by the purpose of a scenario -------------------- *)
(* "arith": small enough for the transport equations to be evaluated by TLC  *)
Arith(n) ==
  CASE n = "nq"    -> {"2", "4", "6"}
    [] n = "L"     -> {"1", "2", "3"}
    [] n = "beam"  -> {"none", "std", "steep"}
    [] n = "om"    -> {"std", "zerolayer", "near1", "allzero"}
    [] n = "thick" -> {"std", "thin", "mixed"}
    [] n = "iso"   -> {"0", "1", "2", "3"}
    [] n = "mag"   -> {"unit"}
    [] n = "nt"    -> {"no"}
    [] OTHER       -> Full(n)
(* "nt": problems on which the NT corrections are (mostly) active            *)
Nt(n) ==
  CASE n = "beam"  -> {"std", "steep"}
    [] n = "om"    -> {"std", "near1", "zerolayer"}
    [] n = "delta" -> {"uniform", "mixed", "varied", "peak", "strong"}
    [] n = "extra" -> {"some", "many"}
    [] n = "nt"    -> {"yes"}
    [] n = "thick" -> {"std", "thin", "mixed"}
    [] n = "nleg"  -> {"full", "less"}
    [] OTHER       -> Full(n)
(* "quiet": well-scaled problems for relations between whole solutions       *)
Quiet(n) ==
  CASE n = "om"    -> {"std", "near1", "zerolayer", "allzero"}
    [] OTHER       -> Full(n)
(* "deep": many layers and streams                                           *)
Deep(n) ==
  CASE n = "nq"    -> {"8", "16", "24", "32", "48", "64"}
    [] n = "L"     -> {"3", "6", "11", "24", "40"}
    [] n = "om"    -> {"std", "zerolayer", "near1"}
    [] n = "iso"   -> {"0", "1", "2"}
    [] OTHER       -> Full(n)
(* "tiny": reduced domains, for exhaustive exploration of the machine        *)
Tiny(n) ==
  CASE n = "nq"    -> {"2"}
    [] n = "L"     -> {"1", "3"}
    [] n = "beam"  -> {"none", "std"}
    [] n = "om"    -> {"std", "near1", "allzero"}
    [] n = "delta" -> {"none", "peak"}
    [] n = "extra" -> {"none", "some"}
    [] n = "nleg"  -> {"full"}
    [] n = "nf"    -> {"full"}
    [] n = "phase" -> {"hg"}
    [] n = "thick" -> {"std"}
    [] n = "iso"   -> {"0", "2", "5"}
    [] n = "bpos"  -> {"zero", "matrix"}
    [] n = "bneg"  -> {"zero"}
    [] n = "bdrf"  -> {"none", "multi"}
    [] n = "solver" -> {"dense", "banded"}
    [] n = "mag"   -> {"unit"}
    [] OTHER       -> Full(n)

Dom(n) ==
  CASE Profile = "full"  -> Full(n)
    [] Profile = "arith" -> Arith(n)
    [] Profile = "nt"    -> Nt(n)
    [] Profile = "quiet" -> Quiet(n)
    [] Profile = "deep"  -> Deep(n)
    [] Profile = "tiny"  -> Tiny(n)

(* ---- compatibility: what may be chosen given what has been chosen ------- *)
Allowed(n, v, done) ==
  CASE n = "iso"    -> (done["om"] = "near1" => v \in {"0", "1", "2"})
    [] n = "isopat" -> (done["iso"] = "0" => v = "all") /\ (done["L"] = "1" => v \notin {"interior", "onelayer"})
    [] n = "cache"  -> (done["bdrf"] = "none" => v = "no") /\ (done["beam"] = "none" => v # "mu0")
    [] n = "solver" -> (done["L"] \in {"1", "2"} => v = "dense")
    [] n = "extra"  -> (done["delta"] = "peak" => v # "none")
    [] n = "delta"  -> (done["L"] = "1" => v \notin {"mixed", "varied"})
    [] n = "om"     -> (done["L"] = "1" => v # "zerolayer")
    [] n = "nf"     -> (done["nleg"] = "one" => v = "full")
    [] OTHER        -> TRUE

Init == i = 0 /\ c = << >>
Pick == /\ i < Len(Features)
        /\ i' = i + 1
        /\ \E v \in {w \in Dom(Features[i + 1]) : Allowed(Features[i + 1], w, c)} :
             c' = [n \in DOMAIN c \cup {Features[i + 1]} |-> IF n = Features[i + 1] THEN v ELSE c[n]]
Emit == /\ i = Len(Features)
        /\ i' = i + 1
        /\ c' = c
        /\ PrintT("SCN " \o ToJson(c))
Next == Pick \/ Emit
Spec == Init /\ [][Next]_vars

(* ---- design properties of the machine ---------------------------------- *)
TypeOK == /\ i \in 0..Len(Features) + 1
          /\ \A n \in DOMAIN c : c[n] \in Dom(n)
NeverBlocked == i < Len(Features) => \E v \in Dom(Features[i + 1]) : Allowed(Features[i + 1], v, c)
WellFormed ==
  i >= Len(Features) =>
    /\ c["cache"] = "mu0" => c["beam"] # "none" /\ c["bdrf"] # "none"
    /\ c["delta"] = "peak" => c["extra"] # "none"
    /\ c["iso"] \in {"5", "8", "11", "24"} => c["om"] # "near1"
=============================================================================
