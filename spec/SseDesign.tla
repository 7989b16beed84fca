----------------------------- MODULE SseDesign ------------------------------
(***************************************************************************)
(* The event loop: a generator offers events over a channel of Cap places, *)
(* the loop takes them and sends them, the request may be cancelled at any *)
(* moment, the generator may stop producing for ever.                      *)
(* WATCH = FALSE: the loop waits for events only. RECHECK = FALSE: having  *)
(* received an event it does not look at the request again.                *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Max, Cap, WATCH, RECHECK
VARIABLES chan, closed, n, cancelled, cut, pc, held, client
vars == <<chan, closed, n, cancelled, cut, pc, held, client>>
Init == chan = <<>> /\ closed = FALSE /\ n = 0 /\ cancelled = FALSE /\ cut = 0 /\ pc = "wait" /\ held = 0 /\ client = <<>>
Produce == /\ ~closed /\ n < Max /\ Len(chan) < Cap /\ n' = n + 1 /\ chan' = Append(chan, n + 1)
           /\ UNCHANGED <<closed, cancelled, cut, pc, held, client>>
End == ~closed /\ closed' = TRUE /\ UNCHANGED <<chan, n, cancelled, cut, pc, held, client>>
Cancel == ~cancelled /\ cancelled' = TRUE /\ cut' = n /\ UNCHANGED <<chan, closed, n, pc, held, client>>
Stop == pc = "wait" /\ WATCH /\ cancelled /\ pc' = "done" /\ UNCHANGED <<chan, closed, n, cancelled, cut, held, client>>
Over == pc = "wait" /\ chan = <<>> /\ closed /\ pc' = "done" /\ UNCHANGED <<chan, closed, n, cancelled, cut, held, client>>
Receive == /\ pc = "wait" /\ chan # <<>> /\ held' = chan[1] /\ chan' = Tail(chan)
           /\ pc' = IF RECHECK /\ cancelled THEN "done" ELSE "send"
           /\ UNCHANGED <<closed, n, cancelled, cut, client>>
Send == pc = "send" /\ client' = Append(client, held) /\ pc' = "wait" /\ UNCHANGED <<chan, closed, n, cancelled, cut, held>>
Loop == Stop \/ Over \/ Receive \/ Send
Next == Produce \/ End \/ Cancel \/ Loop
Spec == Init /\ [][Next]_vars /\ WF_vars(Loop)
InOrder == client = [i \in 1..Len(client) |-> i]
\* an event produced after the cancellation never reaches the client
NothingLate == cancelled => \A i \in 1..Len(client) : client[i] <= cut
AllDelivered == (pc = "done" /\ ~cancelled) => client = [i \in 1..n |-> i]
\* delivered without waiting for another event; over when the request is
Prompt == (chan # <<>>) ~> (chan = <<>> \/ pc = "done")
EndsWithRequest == cancelled ~> (pc = "done")
EndsWithGenerator == closed ~> (pc = "done")
=============================================================================
