------------------------------- MODULE SseGen -------------------------------
(* every schedule of N steps; a step ending with "+" is followed by the next *)
(* one at once, without letting the response move in between                 *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N
VARIABLES ended, cancelled, stalled, hist
Init == ended = FALSE /\ cancelled = FALSE /\ stalled = FALSE /\ hist = <<>>
Do(o) == hist' = Append(hist, o)
Next == /\ Len(hist) < N
        /\ \/ \E o \in {"emit", "emit+"} : ~ended /\ Do(o) /\ UNCHANGED <<ended, cancelled, stalled>>
           \/ \E o \in {"end", "end+"} : ~ended /\ Do(o) /\ ended' = TRUE /\ UNCHANGED <<cancelled, stalled>>
           \/ \E o \in {"cancel", "cancel+"} : ~cancelled /\ Do(o) /\ cancelled' = TRUE /\ UNCHANGED <<ended, stalled>>
           \/ ~stalled /\ Do("stall") /\ stalled' = TRUE /\ UNCHANGED <<ended, cancelled>>
           \/ stalled /\ Do("resume") /\ stalled' = FALSE /\ UNCHANGED <<ended, cancelled>>
Emit == Len(hist) = N => PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
