----------------------------- MODULE StackTrace -----------------------------
(***************************************************************************)
(* Recorded requests through real stacks.  ev:                             *)
(*   [e |-> "down", i]         layer i (Len+1: the handler) is entered     *)
(*   [e |-> "up", i, t, c, x, by, s]   what comes back out of it           *)
(*   [e |-> "client", t, s, by, x, logs, logok]  what the client got       *)
(***************************************************************************)
EXTENDS Stack, Json
CONSTANTS PROP, TraceFile
Sessions == ndJsonDeserialize(TraceFile)
VARIABLES sid, l, d, o, bad
vars == <<sid, l, d, o, bad>>
S == Sessions[sid]
Ev == S.ev
K == S.stack
None == [t |-> "none", c |-> "", x |-> "", by |-> "", s |-> 0]
Init == sid \in 1..Len(Sessions) /\ l = 1 /\ d = 0 /\ o = None /\ bad = <<>>
E == Ev[l]
Obs(e) == [t |-> e.t, c |-> e.c, x |-> e.x, by |-> e.by, s |-> e.s]
\* b is what was observed, a what is specified
Fits(a, b) == IF a.x = Unspecified THEN a.t = b.t /\ a.c = b.c /\ b.x # "" ELSE a = b
MayGoDown == o = None /\ E.i = d + 1 /\ (d > 0 => ~FailsBefore(K[d]))
Expected == IF o # None THEN Through(K[d], o)
            ELSE IF d = Len(K) + 1 THEN HandlerOutcome(S.h) ELSE Raised(K[d])
MayGoUp == /\ d = E.i
           /\ (o = None => d = Len(K) + 1 \/ FailsBefore(K[d]))
           /\ Fits(Expected, Obs(E))
ClientOK ==
  LET c == Client(o) IN
  /\ d = 0 /\ o # None
  /\ E.t = c.t
  /\ c.t = "answered" => /\ E.s = c.s /\ E.once = 1 /\ E.by = c.by
                         /\ (c.by \in {"err", "json"} => E.x = c.x)
                         /\ (c.logged = 1 => E.logs = 1 /\ E.logok = 1)
StepOK == CASE E.e = "down" -> MayGoDown [] E.e = "up" -> MayGoUp [] OTHER -> ClientOK
Next == /\ bad = <<>> /\ l <= Len(Ev)
        /\ l' = l + 1 /\ UNCHANGED sid
        /\ bad' = IF StepOK THEN <<>> ELSE <<sid, l>>
        /\ d' = IF E.e = "down" THEN E.i ELSE IF E.e = "up" THEN E.i - 1 ELSE d
        /\ o' = IF E.e = "up" THEN Obs(E) ELSE o
Spec == Init /\ [][Next]_vars
\* a request ends with the client's view
Whole == Ev[Len(Ev)].e = "client"
Accepted == (bad = <<>> /\ Whole) \/ Print(ToJson([sid |-> sid, at |-> bad, session |-> S]), FALSE)
=============================================================================
