------------------------------ MODULE StackGen ------------------------------
(* every stack of at most MaxLen layers with every handler outcome; the driver *)
(* chooses the concrete errors and panic values                             *)
EXTENDS Stack, Json
CONSTANTS MaxLen, MaxFaults, OutFile
VARIABLE x
Names == {"err", "json", "panic", "pass", "before", "after", "pbefore", "pafter"}
IsFault(n) == n \in {"before", "after", "pbefore", "pafter"}
Stacks == {s \in UNION {[1..n -> Names] : n \in 0..MaxLen} : Cardinality({i \in DOMAIN s : IsFault(s[i])}) <= MaxFaults}
ASSUME JsonSerialize(OutFile, [stacks |-> Stacks])
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
