------------------------------ MODULE OAuthGen ------------------------------
(* every sequence of N steps on one site: initiations, passage of time and   *)
(* callbacks that deviate from a proper one in at most one way; states are   *)
(* named by the order of their issue (0: none, 99: forged)                   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Small
VARIABLES issued, hist
St(o, p, s, e, c) == [o |-> o, p |-> p, s |-> s, e |-> e, c |-> c]
Refs == {0, 99} \cup 1..issued
Steps == {St("init", p, 0, 0, "") : p \in IF Small THEN {"first", "none"} ELSE {"first", "second", "none", "unknown"}}
         \cup {St("tick", "", 0, 0, "")}
         \cup {St("cb", "first", s, 0, "good") : s \in Refs}
         \cup {St("cb", p, s, 0, "good") : p \in IF Small THEN {"second"} ELSE {"second", "unknown", "othercase"}, s \in 1..issued}
         \cup {St("cb", "first", s, 1, "good") : s \in 1..issued}
         \cup {St("cb", "first", s, 0, c) : c \in IF Small THEN {"notoken"} ELSE {"notoken", "nouser"}, s \in Refs}
Init == issued = 0 /\ hist = <<>>
Next == /\ Len(hist) < N
        /\ \E s \in Steps : /\ hist' = Append(hist, s)
                            /\ issued' = IF s.o = "init" /\ s.p = "first" THEN issued + 1 ELSE issued
Emit == Len(hist) = N => PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
