----------------------------- MODULE DumpDesign -----------------------------
(***************************************************************************)
(* A tap around a handler: what it notes of the request when it arrives,   *)
(* what of the response when the handler has finished. Several requests    *)
(* share the log. SNAPSHOT = FALSE: it keeps the request's own headers,    *)
(* which the handler may change, and reads them when it writes the note.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Requests, SNAPSHOT
VARIABLES req, pc, seen, resp, log, sent
vars == <<req, pc, seen, resp, log, sent>>
Init == /\ req = [r \in Requests |-> "asked"] /\ pc = [r \in Requests |-> "new"] /\ seen = [r \in Requests |-> ""]
        /\ resp = [r \in Requests |-> ""] /\ log = {} /\ sent = [r \in Requests |-> ""]
Arrive(r) == pc[r] = "new" /\ pc' = [pc EXCEPT ![r] = "handling"] /\ seen' = [seen EXCEPT ![r] = req[r]] /\ UNCHANGED <<req, resp, log, sent>>
Change(r) == pc[r] = "handling" /\ req' = [req EXCEPT ![r] = "changed"] /\ UNCHANGED <<pc, seen, resp, log, sent>>
Handle(r) == /\ pc[r] = "handling" /\ \E x \in {"answer", "error"} : resp' = [resp EXCEPT ![r] = x]
             /\ pc' = [pc EXCEPT ![r] = "noting"] /\ UNCHANGED <<req, seen, log, sent>>
Note(r) == /\ pc[r] = "noting" /\ pc' = [pc EXCEPT ![r] = "done"]
           /\ log' = IF resp[r] = "error" THEN log ELSE log \cup {<<r, IF SNAPSHOT THEN seen[r] ELSE req[r], resp[r]>>}
           /\ sent' = [sent EXCEPT ![r] = resp[r]] /\ UNCHANGED <<req, seen, resp>>
Next == \E r \in Requests : Arrive(r) \/ Change(r) \/ Handle(r) \/ Note(r)
Spec == Init /\ [][Next]_vars
Transparent == \A r \in Requests : pc[r] = "done" => sent[r] = resp[r]
Noted == /\ \A r \in Requests : pc[r] = "done" => Cardinality({x \in log : x[1] = r}) = (IF resp[r] = "error" THEN 0 ELSE 1)
         /\ \A x \in log : x[2] = "asked" /\ x[3] = resp[x[1]]
=============================================================================
