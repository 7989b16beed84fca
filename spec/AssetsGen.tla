------------------------------ MODULE AssetsGen -----------------------------
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
CONSTANTS OutFile, MaxLen, Segs
Paths == UNION {[1..k -> Segs] : k \in 1..MaxLen}
ASSUME JsonSerialize(OutFile, SetToSeq(Paths))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
