---------------------------- MODULE CompressGen -----------------------------
(* everything an adapted handler may do with the writer in up to MaxLen steps *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
CONSTANTS OutFile, MaxLen
Alphabet == {[o |-> "wh", n |-> s] : s \in {200, 204, 304, 103, 206, 404}}
       \cup {[o |-> "w", n |-> s] : s \in {0, 1, 9000}}
       \cup {[o |-> "ws", n |-> 3], [o |-> "rf", n |-> 700]}
       \cup {[o |-> x, n |-> 0] : x \in {"fl", "ce", "cr", "ct", "cl"}}
Seqs(k) == [1..k -> Alphabet]
ASSUME JsonSerialize(OutFile, SetToSeq(UNION {Seqs(k) : k \in 0..MaxLen}))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
