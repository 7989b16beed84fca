---------------------------- MODULE IsolationGen ----------------------------
(* every history of N steps of requests that overlap and nest              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, R
VARIABLES phase, parent, hist
St(o, r, p) == [o |-> o, r |-> r, p |-> p]
Live(r) == phase[r] \in {"handling", "writing"}
Busy(r) == \E c \in 1..R : parent[c] = r /\ Live(c)
May(r) == Live(r) /\ ~Busy(r)
Init == phase = [r \in 1..R |-> "idle"] /\ parent = [r \in 1..R |-> 0] /\ hist = <<>>
Do(s) == hist' = Append(hist, s)
To(r, x) == phase' = [phase EXCEPT ![r] = x]
Next ==
  /\ Len(hist) < N
  /\ \/ \E r \in 1..R, p \in 0..R :
          /\ phase[r] = "idle" /\ (IF r = 1 THEN TRUE ELSE phase[r - 1] # "idle") /\ (IF p = 0 THEN TRUE ELSE May(p))
          /\ Do(St("arrive", r, p)) /\ To(r, "handling") /\ parent' = [parent EXCEPT ![r] = p]
     \/ \E r \in {i \in 1..R : May(i)} :
          /\ \/ phase[r] = "handling" /\ Do(St("respond", r, 0)) /\ To(r, "writing")
             \/ phase[r] = "writing" /\ Do(St("finish", r, 0)) /\ To(r, "done")
             \/ Do(St("panic", r, 0)) /\ To(r, "done")
             \/ phase[r] = "handling" /\ Do(St("fail", r, 0)) /\ To(r, "done")
          /\ UNCHANGED parent
     \* a request nobody handles, from outside or from within
     \/ \E p \in {0} \cup {i \in 1..R : May(i)} :
          (hist # <<>> => hist[Len(hist)].o # "miss") /\ Do(St("miss", 0, p)) /\ UNCHANGED <<phase, parent>>
\* with fewer than two requests there is nothing to mix up
Overlaps == Cardinality({i \in 1..N : hist[i].o = "arrive"}) >= 2
Emit == (Len(hist) = N /\ Overlaps) => PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
