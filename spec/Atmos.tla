------------------------------- MODULE Atmos --------------------------------
(* A column of homogeneous layers and the edits that do not change it.

   A layer is [mat, u]: a material (albedo, phase function, peak fraction, source)
   and a number of unit cells.  Split cuts a layer at a cell boundary, Merge joins
   two adjacent layers of the same material.  Neither changes which material is at
   which depth, so neither may change any flux or intensity.                     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Mats,        \* materials, a set of positive integers
          Cells,       \* number of unit cells of the column
          MaxLayers,
          MaxEdits

VARIABLES col, edits, first
vars == <<col, edits, first>>

(* ---- a column ---------------------------------------------------------------- *)
Size(c) == FoldLeft(LAMBDA acc, x : acc + x.u, 0, c)
TopCell(c, l) == FoldLeft(LAMBDA acc, j : acc + c[j].u, 0, [j \in 1..(l - 1) |-> j])  \* cells above layer l
LayerAt(c, cell) == CHOOSE l \in DOMAIN c : TopCell(c, l) < cell /\ cell <= TopCell(c, l) + c[l].u
MatAt(c, cell) == c[LayerAt(c, cell)].mat

(* delta-M: the thickness of a cell of material m is multiplied by Scale(m) / 10  *)
Scale(m) == CASE m = 1 -> 10 [] m = 2 -> 7 [] OTHER -> 4
ScaledTop(c, l) == FoldLeft(LAMBDA acc, j : acc + c[j].u * Scale(c[j].mat), 0, [j \in 1..(l - 1) |-> j])
ScaledDepth(c, cell) == LET l == LayerAt(c, cell) IN ScaledTop(c, l) + (cell - TopCell(c, l)) * Scale(c[l].mat)

(* averages over the column, weighted by thickness (used by the IMS correction)    *)
MeanScale(c) == FoldLeft(LAMBDA acc, x : acc + x.u * Scale(x.mat), 0, c)

(* ---- edits ---------------------------------------------------------------------- *)
SplitOf(c, l, k) == SubSeq(c, 1, l - 1) \o <<[mat |-> c[l].mat, u |-> k], [mat |-> c[l].mat, u |-> c[l].u - k]>>
                    \o SubSeq(c, l + 1, Len(c))
MergeOf(c, l) == SubSeq(c, 1, l - 1) \o <<[mat |-> c[l].mat, u |-> c[l].u + c[l + 1].u]>> \o SubSeq(c, l + 2, Len(c))

CanSplit(c, l, k) == l \in DOMAIN c /\ k \in 1..(c[l].u - 1) /\ Len(c) < MaxLayers
CanMerge(c, l) == l \in 1..(Len(c) - 1) /\ c[l].mat = c[l + 1].mat

Split(l, k) == /\ Len(edits) < MaxEdits /\ CanSplit(col, l, k)
               /\ col' = SplitOf(col, l, k)
               /\ edits' = Append(edits, [op |-> "split", l |-> l, k |-> k])
               /\ UNCHANGED first
Merge(l) == /\ Len(edits) < MaxEdits /\ CanMerge(col, l)
            /\ col' = MergeOf(col, l)
            /\ edits' = Append(edits, [op |-> "merge", l |-> l, k |-> 0])
            /\ UNCHANGED first

(* columns of at most MaxLayers layers with Cells cells *)
Columns == {c \in UNION {[1..n -> [mat : Mats, u : 1..Cells]] : n \in 1..MaxLayers} : Size(c) = Cells}
Init == col \in Columns /\ edits = << >> /\ first = col
Next == (\E l \in 1..MaxLayers, k \in 1..Cells : Split(l, k)) \/ (\E l \in 1..MaxLayers : Merge(l))
Spec == Init /\ [][Next]_vars

(* random behaviours for replay: a random start, then edits chosen by TLC            *)
RandomStart == TLCEval([j \in 1..RandomElement(1..3) |-> [mat |-> RandomElement(Mats), u |-> RandomElement(1..4)]])
SimInit == \E c \in {RandomStart} : col = c /\ first = c /\ edits = << >>
Emit == /\ IF Len(edits) = MaxEdits THEN TRUE ELSE ~ENABLED Next
        /\ IF edits = << >> THEN TRUE ELSE edits[Len(edits)].op # "end"
        /\ PrintT("BEH " \o ToJson([first |-> first, edits |-> edits, last |-> col]))
        /\ edits' = Append(edits, [op |-> "end", l |-> 0, k |-> 0])
        /\ UNCHANGED <<col, first>>
SimNext == Next \/ (Len(edits) <= MaxEdits /\ Emit)
SimSpec == SimInit /\ [][SimNext]_vars

(* ---- design properties -------------------------------------------------------------- *)
SameMatter == Size(col) = Size(first) /\ \A cell \in 1..Size(first) : MatAt(col, cell) = MatAt(first, cell)
SameScaledDepth == \A cell \in 1..Size(first) : ScaledDepth(col, cell) = ScaledDepth(first, cell)
SameAverages == MeanScale(col) = MeanScale(first)
LookupTotal == \A cell \in 1..Size(col) : Cardinality({l \in DOMAIN col : TopCell(col, l) < cell /\ cell <= TopCell(col, l) + col[l].u}) = 1
=============================================================================
