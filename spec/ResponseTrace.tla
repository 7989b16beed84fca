--------------------------- MODULE ResponseTrace ----------------------------
(***************************************************************************)
(* Responses received over real connections.                               *)
(*   one   d method g logged panics       a response as described          *)
(***************************************************************************)
EXTENDS Response, Json
CONSTANTS PROP, TraceFile
Sessions == ndJsonDeserialize(TraceFile)
VARIABLES sid, l, bad
vars == <<sid, l, bad>>
Ev == Sessions[sid].ev
Ok(e) ==
  IF ~Sendable(e.d)
  THEN e.panics = 0 /\ e.g.res = "ok" /\ e.g.status # e.d.status /\ e.logged >= 1
  ELSE /\ e.panics = 0 /\ Faithful(e.d, e.method, e.g)
       /\ HasBody(e.d, e.method) => e.logged = 0
Init == sid \in 1..Len(Sessions) /\ l = 1 /\ bad = <<>>
Next == /\ bad = <<>> /\ l <= Len(Ev)
        /\ l' = l + 1 /\ UNCHANGED sid
        /\ bad' = IF Ok(Ev[l]) THEN <<>> ELSE <<sid, l>>
Spec == Init /\ [][Next]_vars
Accepted == bad = <<>> \/ Print(ToJson([sid |-> bad[1], line |-> bad[2], event |-> Ev[bad[2]],
               status |-> Status(Ev[bad[2]].d), headers |-> Described(Ev[bad[2]].d), cookies |-> Cookies(Ev[bad[2]].d)]), FALSE)
=============================================================================
