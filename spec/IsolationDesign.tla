-------------------------- MODULE IsolationDesign ---------------------------
(***************************************************************************)
(* Requests served at the same time, by their own goroutines or from       *)
(* within the handler or the response writer of another one. Each borrows  *)
(* a buffer for the segments of its path; the variables of the path are    *)
(* looked up in the buffer until the response is written.                  *)
(* RELEASE says when a buffer is given back: "end" (after the response is  *)
(* written, whatever happens), "return" (when the handler returns),        *)
(* "twice" (when the handler panics, and again at the end)                 *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Requests, Buffers, RELEASE
Symmetric == Permutations(Buffers)
VARIABLES phase, parent, buf, content, pool, seen, copy
vars == <<phase, parent, buf, content, pool, seen, copy>>
Live(r) == phase[r] \in {"handling", "writing"}
Busy(r) == \E c \in Requests : parent[c] = r /\ phase[c] \notin {"idle", "done"}
May(r) == Live(r) /\ ~Busy(r)
Init == /\ phase = [r \in Requests |-> "idle"] /\ parent = [r \in Requests |-> 0] /\ buf = [r \in Requests |-> 0]
        /\ content = [b \in Buffers |-> 0] /\ pool = [b \in Buffers |-> 1] /\ seen = <<>> /\ copy = [r \in Requests |-> 0]
Arrive(r, p) ==
  /\ phase[r] = "idle" /\ (IF p = 0 THEN TRUE ELSE p # r /\ May(p))
  /\ \E b \in Buffers : pool[b] > 0 /\ pool' = [pool EXCEPT ![b] = @ - 1] /\ buf' = [buf EXCEPT ![r] = b] /\ content' = [content EXCEPT ![b] = r]
  /\ phase' = [phase EXCEPT ![r] = "handling"] /\ parent' = [parent EXCEPT ![r] = p] /\ UNCHANGED <<seen, copy>>
\* any part of the program that was given the request may look at any time
Look(r) == Live(r) /\ seen' = <<r, content[buf[r]]>> /\ UNCHANGED <<phase, parent, buf, content, pool, copy>>
Clone(r) == May(r) /\ copy[r] = 0 /\ copy' = [copy EXCEPT ![r] = content[buf[r]]] /\ UNCHANGED <<phase, parent, buf, content, pool, seen>>
Back(r) == pool' = [pool EXCEPT ![buf[r]] = @ + 1] /\ content' = [content EXCEPT ![buf[r]] = 0]
Respond(r) ==
  /\ May(r) /\ phase[r] = "handling" /\ phase' = [phase EXCEPT ![r] = "writing"]
  /\ IF RELEASE = "return" THEN Back(r) ELSE UNCHANGED <<pool, content>>
  /\ UNCHANGED <<parent, buf, seen, copy>>
\* written, or a panic of the handler or of the writer
Finish(r) ==
  /\ May(r) /\ phase' = [phase EXCEPT ![r] = "done"]
  /\ IF RELEASE = "return" /\ phase[r] = "writing" THEN UNCHANGED <<pool, content>>
     ELSE IF RELEASE = "twice" /\ phase[r] = "handling" THEN pool' = [pool EXCEPT ![buf[r]] = @ + 2] /\ content' = [content EXCEPT ![buf[r]] = 0]
     ELSE Back(r)
  /\ UNCHANGED <<parent, buf, seen, copy>>
Next == \E r \in Requests : Look(r) \/ Clone(r) \/ Respond(r) \/ Finish(r) \/ \E p \in Requests \cup {0} : Arrive(r, p)
Spec == Init /\ [][Next]_vars
OwnOnly == seen # <<>> => seen[1] = seen[2]
CopyOwn == \A r \in Requests : copy[r] \in {0, r}
Exclusive == \A r, q \in Requests : r # q /\ Live(r) /\ Live(q) => buf[r] # buf[q]
Lent == \A b \in Buffers : pool[b] + Cardinality({r \in Requests : Live(r) /\ buf[r] = b}) <= 1
Clean == \A b \in Buffers : pool[b] > 0 => content[b] = 0
=============================================================================
