------------------------------ MODULE SecTrace ------------------------------
(***************************************************************************)
(* Responses received behind the security headers middleware with the      *)
(* configuration of the session.                                           *)
(*   one    d method secure g logged panics     a request and its response *)
(*   err    same (the very error of the handler came up) resp nil, ran     *)
(***************************************************************************)
EXTENDS SecHeaders, Json
CONSTANTS PROP, TraceFile
Sessions == ndJsonDeserialize(TraceFile)
VARIABLES sid, l, bad
vars == <<sid, l, bad>>
Ev == Sessions[sid].ev
C == Sessions[sid].c
Ok(e) ==
  IF e.e = "err" THEN e.same = 1 /\ e.noresp = 1 /\ e.ran = 1
  ELSE /\ e.panics = 0 /\ Faithful(Secured(e.d, C, e.secure), e.method, e.g)
Init == sid \in 1..Len(Sessions) /\ l = 1 /\ bad = <<>>
Next == /\ bad = <<>> /\ l <= Len(Ev)
        /\ l' = l + 1 /\ UNCHANGED sid
        /\ bad' = IF Ok(Ev[l]) THEN <<>> ELSE <<sid, l>>
Spec == Init /\ [][Next]_vars
Accepted == bad = <<>> \/ LET e == Sessions[bad[1]].ev[bad[2]] IN
  Print(ToJson([sid |-> bad[1], line |-> bad[2], config |-> Sessions[bad[1]].c, event |-> e,
                headers |-> IF e.e = "err" THEN <<>> ELSE Described(Secured(e.d, Sessions[bad[1]].c, e.secure))]), FALSE)
=============================================================================
