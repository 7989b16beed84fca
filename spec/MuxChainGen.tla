---------------------------- MODULE MuxChainGen -----------------------------
(* every chain of at most MaxLen prefixes with every route path *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen, Prefixes, Paths, OutFile
VARIABLE x
Chains == UNION {[1..n -> Prefixes] : n \in 0..MaxLen}
ASSUME JsonSerialize(OutFile, [chains |-> Chains, paths |-> Paths])
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
