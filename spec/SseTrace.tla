------------------------------ MODULE SseTrace ------------------------------
(***************************************************************************)
(* Event streams: steps of the generator, the request and the connection,  *)
(* and what the client has received once everything has come to rest.      *)
(*   start  sent last      Last-Event-Id of the client and of the generator*)
(*   emit   evt sent       the generator produced it (sent = 1: accepted)  *)
(*   end | cancel | stall | resume | wait                                  *)
(*   see    text done res gone status ct cc   received so far, whether the *)
(*          response has ended (and how), whether the generator was told   *)
(*   refused  status text logged              not an HTTP/2 request        *)
(***************************************************************************)
EXTENDS Sse, Json
CONSTANTS PROP, TraceFile
Sessions == ndJsonDeserialize(TraceFile)
VARIABLES sid, l, bad, s
vars == <<sid, l, bad, s>>
Ev == Sessions[sid].ev
Start == [produced |-> <<>>, cancelled |-> FALSE, ended |-> FALSE, stalled |-> FALSE, settled |-> 0]
See(e) ==
  LET got == Parse(e.text)
      want == Expected(s.produced) IN
  /\ IF s.cancelled
     THEN /\ IsPrefix(got, want) /\ Len(got) >= s.settled
          /\ e.gone = 1
          /\ ~s.stalled => (e.done = 1 /\ e.res = "ok")
     ELSE IF s.stalled
     THEN IsPrefix(got, want) /\ Len(got) >= s.settled /\ (e.done = 1 => s.ended)
     ELSE /\ got = want /\ Whole(e.text)
          /\ (e.done = 1) <=> s.ended
          /\ e.done = 1 => e.res = "ok"
  /\ (e.text # "" \/ (e.done = 1 /\ ~s.cancelled)) => e.status = 200 /\ e.ct = "text/event-stream" /\ e.cc = "no-cache"
Ok(e) ==
  CASE e.e = "start" -> e.sent = e.last
    [] e.e = "see" -> See(e)
    [] e.e = "refused" -> e.status >= 400 /\ Parse(e.text) = <<>> /\ e.logged = 1
    [] OTHER -> TRUE
Init == sid \in 1..Len(Sessions) /\ l = 1 /\ bad = <<>> /\ s = Start
Next ==
  /\ bad = <<>> /\ l <= Len(Ev)
  /\ l' = l + 1 /\ UNCHANGED sid
  /\ LET e == Ev[l] IN
     /\ bad' = IF Ok(e) THEN <<>> ELSE <<sid, l>>
     /\ s' = CASE e.e = "emit" -> IF e.sent = 1 /\ ~s.cancelled THEN [s EXCEPT !.produced = Append(@, e.evt)] ELSE s
               [] e.e = "end" -> [s EXCEPT !.ended = TRUE]
               [] e.e = "cancel" -> [s EXCEPT !.cancelled = TRUE]
               [] e.e = "stall" -> [s EXCEPT !.stalled = TRUE]
               [] e.e = "resume" -> [s EXCEPT !.stalled = FALSE]
               [] e.e = "see" -> [s EXCEPT !.settled = Len(Parse(e.text))]
               [] OTHER -> s
Spec == Init /\ [][Next]_vars
Accepted == bad = <<>> \/ LET e == Sessions[bad[1]].ev[bad[2]] IN
  Print(ToJson([sid |-> bad[1], line |-> bad[2], event |-> e, state |-> s, parsed |-> IF e.e = "see" THEN Parse(e.text) ELSE <<>>]), FALSE)
=============================================================================
