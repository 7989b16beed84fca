------------------------------ MODULE CacheGen ------------------------------
(* every sequence of N operations of the abstract cache *)
EXTENDS Cache, Json
CONSTANTS Keys, Lives, N
VARIABLES c, now, hist
Steps == {[o |-> "add", k |-> k, d |-> d] : k \in Keys, d \in Lives} \cup {[o |-> "remove", k |-> k, d |-> 0] : k \in Keys}
         \cup {[o |-> "tick", k |-> "", d |-> 1]}
Init == c = Empty /\ now = 0 /\ hist = <<>>
Next == /\ Len(hist) < N
        /\ \E s \in Steps : /\ hist' = Append(hist, s)
                            /\ c' = After(c, s, now)
                            /\ now' = IF s.o = "tick" THEN now + s.d ELSE now
Emit == Len(hist) = N => PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
