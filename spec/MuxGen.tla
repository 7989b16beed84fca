------------------------------- MODULE MuxGen -------------------------------
(* tree: every sequence of N operations on a tree of at most MaxMuxes muxes; *)
(* chains of prefixes are generated by MuxChainGen                           *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, MaxMuxes
VARIABLES k, hist
St(o, i, c) == [o |-> o, i |-> i, c |-> c]
Init == k = 1 /\ hist = <<>>
Next == /\ Len(hist) < N
        /\ \E i \in 1..k :
             \/ \E c \in {1, 3} : hist' = Append(hist, St("common", i, c)) /\ k' = k
             \/ hist' = Append(hist, St("handle", i, 0)) /\ k' = k
             \/ k < MaxMuxes /\ k' = k + 1 /\ \E o \in {"clone", "prefix"} : hist' = Append(hist, St(o, i, 0))
Emit == Len(hist) = N => PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
