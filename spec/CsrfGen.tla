------------------------------ MODULE CsrfGen -------------------------------
(* every sequence of N steps; nonces are named by the order of their issue, *)
(* so a step only names nonces issued before it on that path                *)
EXTENDS Csrf, Json
CONSTANTS N, Ttl
VARIABLES live, issued, now, hist
St(o, h, f) == [o |-> o, h |-> h, f |-> f]
Refs == 0..issued   \* 0: none
Steps == {St("get", 0, 0), St("tick", 0, 0), St("post", 99, 0)} \cup {St("post", h, 0) : h \in Refs}
         \cup {St("post", 0, f) : f \in 1..issued} \cup {St("posterr", h, 0) : h \in 1..issued}
         \cup {St("post", h, f) : h \in (1..issued) \cup {99}, f \in IF issued = 0 THEN {} ELSE {issued}}
Name(i) == IF i = 0 THEN "" ELSE ToString(i)
Init == live = <<>> /\ issued = 0 /\ now = 0 /\ hist = <<>>
Next == /\ Len(hist) < N
        /\ \E s \in Steps :
             /\ hist' = Append(hist, s)
             /\ IF s.o = "tick" THEN now' = now + 1 /\ UNCHANGED <<live, issued>>
                ELSE LET m == IF s.o = "get" THEN "GET" ELSE "POST"
                         ok == Admits(live, m, Name(s.h), Name(s.f), now)
                     IN /\ UNCHANGED now
                        /\ IF ok THEN /\ live' = Issue(Use(live, m, Name(s.h), Name(s.f)), ToString(issued + 1), now + Ttl)
                                      /\ issued' = issued + 1
                           ELSE UNCHANGED <<live, issued>>
Emit == Len(hist) = N => PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
