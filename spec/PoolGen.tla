------------------------------ MODULE PoolGen -------------------------------
(* every history of N steps in the lives of responses (slots 1..R)         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, R
VARIABLES live, hist
St(o, r, n) == [o |-> o, r |-> r, n |-> n]
\* a slot is first used in order
Fresh(r) == r \notin DOMAIN live /\ (r = 1 \/ (r - 1) \in DOMAIN live)
Init == live = <<>> /\ hist = <<>>
Do(s, f) == hist' = Append(hist, s) /\ live' = f
With(r, x) == [i \in DOMAIN live \cup {r} |-> IF i = r THEN x ELSE live[i]]
Next == /\ Len(hist) < N
        /\ \/ \E r \in 1..R, how \in 0..2 : (Fresh(r) \/ (r \in DOMAIN live /\ ~live[r])) /\ Do(St("new", r, how), With(r, TRUE))
           \/ \E r \in {i \in DOMAIN live : live[i]} :
                \/ \E o \in {"set", "cookie"} : Do(St(o, r, 0), live)
                \/ Do(St("write", r, 0), live)
                \/ \E k \in 0..3 : Do(St("fail", r, k), live)
                \/ Do(St("drop", r, 0), With(r, FALSE))
           \/ Do(St("borrow", 0, 0), live)
\* histories that never write show nothing
Shows == \E i \in 1..Len(hist) : hist[i].o = "write"
Emit == (Len(hist) = N /\ Shows) => PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
