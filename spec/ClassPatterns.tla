---------------------------- MODULE ClassPatterns -----------------------------
(* Writes every sharing pattern over Ranks with exactly N unknowns (as multisets *)
(* of member sets) to a file: the inputs that are replayed into the real code.   *)
EXTENDS Classes, Json, IOUtils, SequencesExt
CONSTANTS Ranks, N
VARIABLE x
SetsSeq == SetToSortSeq((SUBSET Ranks) \ {{}}, LAMBDA A, B : LexLess(SortSet(A), SortSet(B)))
NonDecr == {f \in [1..N -> 1..Len(SetsSeq)] : \A i \in 1..(N-1) : f[i] <= f[i+1]}
Pats == {[i \in 1..N |-> SortSet(SetsSeq[f[i]])] : f \in NonDecr}
Init == x = 0 /\ JsonSerialize(IOEnv.OUT, SetToSeq(Pats))
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
