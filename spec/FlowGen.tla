------------------------------ MODULE FlowGen -------------------------------
(* every stack of at most MaxLen layers that lets requests through *)
EXTENDS Flow, Json, SequencesExt
CONSTANTS MaxLen, OutFile
VARIABLE x
Stacks == {s \in UNION {[1..n -> Names] : n \in 0..MaxLen} : Possible(s)}
ASSUME JsonSerialize(OutFile, [stacks |-> SetToSeq(Stacks)])
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
