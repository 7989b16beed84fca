----------------------------- MODULE CorsTrace ------------------------------
(***************************************************************************)
(* Recorded answers behind the CORS middleware.                            *)
(* event: [q, ran, err, vary (the handler's own Vary), fails (the handler  *)
(*   returns an error), h (the access-control headers of the response,     *)
(*   [k, v] pairs), gotvary, status, others]                               *)
(***************************************************************************)
EXTENDS Cors, Json
CONSTANTS PROP, TraceFile
Sessions == ndJsonDeserialize(TraceFile)
VARIABLES sid, l, bad
vars == <<sid, l, bad>>
C == Sessions[sid].c
Ev == Sessions[sid].ev
Pairs(e) == {<<e.h[i].k, e.h[i].v>> : i \in 1..Len(e.h)}
Wanted(m) == {<<k, m[k]>> : k \in DOMAIN m}
Ok(e) ==
  LET q == e.q IN
  IF e.err = "panic" THEN FALSE
  ELSE IF ~CrossOrigin(q)
  THEN e.ran = 1 /\ (IF e.fails = 1 THEN e.err = "own" ELSE e.err = "" /\ e.status = 200 /\ e.others = 1
                       \* headers may be added, but no others than for another origin
                       /\ Pairs(e) \subseteq Wanted(Added(C, q)) /\ Len(e.h) = Cardinality(Pairs(e))
                       /\ Tokens(e.vary) \subseteq Tokens(e.gotvary) \cup (IF "*" \in Tokens(e.gotvary) THEN Tokens(e.vary) ELSE {}))
  ELSE IF ~Served(C, q)
  THEN e.ran = 0 /\ e.err = "denied" /\ e.h = <<>> /\ e.status = 403
  ELSE IF e.fails = 1 THEN e.ran = 1 /\ e.err = "own"
  ELSE /\ e.ran = 1 /\ e.err = "" /\ e.status = 200
       /\ Pairs(e) = Wanted(Added(C, q)) /\ Len(e.h) = Cardinality(Pairs(e))
       /\ LET w == VaryTokens(C, q, e.vary) IN
            IF "*" \in w THEN "*" \in Tokens(e.gotvary) ELSE Tokens(e.gotvary) = w
       /\ e.others = 1
Init == sid \in 1..Len(Sessions) /\ l = 1 /\ bad = <<>>
Next == /\ bad = <<>> /\ l <= Len(Ev)
        /\ l' = l + 1 /\ UNCHANGED sid
        /\ bad' = IF Ok(Ev[l]) THEN <<>> ELSE <<sid, l>>
Spec == Init /\ [][Next]_vars
Accepted == bad = <<>> \/ Print(ToJson([sid |-> bad[1], line |-> bad[2], config |-> C, event |-> Ev[bad[2]]]), FALSE)
=============================================================================
