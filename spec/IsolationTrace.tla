--------------------------- MODULE IsolationTrace ---------------------------
(***************************************************************************)
(* What requests served together saw of themselves. A session: ci, names,  *)
(* reqs (what each was: id, pattern, segs of its path, allow, origin,      *)
(* user, body, nonce) and events                                           *)
(*   look r at id v user   its own id, the variables in the order of names *)
(*   reply r status ids cookies body origin user                           *)
(*   miss status ran       a request of no route: handlers that ran        *)
(*   nonce v               a CSRF nonce given out                          *)
(***************************************************************************)
EXTENDS Routing, Json
CONSTANTS PROP, TraceFile
Sessions == ndJsonDeserialize(TraceFile)
VARIABLES sid, l, bad, given, live, done
vars == <<sid, l, bad, given, live, done>>
S == Sessions[sid]
Ev == S.ev
VarsOK(s, q, v) ==
  LET p == ParsePattern(q.pattern, s.ci) IN
  \E al \in Alignments(p, RequestPath(q.segs, s.ci)) : \A k \in 1..Len(s.names) : v[k] = ValueUnder(p, Normalise(q.segs), al, s.names[k])
Ok(s, e) ==
  CASE e.e = "look" -> LET q == s.reqs[e.r] IN
         e.id = q.id /\ q.allow = 1 /\ e.r \notin done /\ VarsOK(s, q, e.v) /\ e.user = q.user
    \* what was cloned outlives the request
    [] e.e = "clone" -> e.id = s.reqs[e.r].id /\ VarsOK(s, s.reqs[e.r], e.v)
    [] e.e = "reply" -> LET q == s.reqs[e.r] IN
         IF q.allow = 1
         THEN e.r \in live /\ e.status = q.status /\ e.ids = <<q.id>> /\ e.cookies = <<q.id>> /\ e.body = q.body /\ e.origin = q.origin
         ELSE e.r \notin live /\ e.status = q.status /\ e.ids = <<>> /\ e.cookies = <<>>
    [] e.e \in {"panic", "fail"} -> e.status = 500 /\ e.ids = <<>> /\ e.cookies = <<>>
    [] e.e = "miss" -> e.status = 404 /\ e.ran = 0 /\ e.ids = <<>> /\ e.cookies = <<>>
    [] e.e = "nonce" -> e.v \notin given
    [] e.e = "end" -> e.v = Len(s.reqs) /\ done = 1..Len(s.reqs)
    [] OTHER -> FALSE
Init == sid \in 1..Len(Sessions) /\ l = 1 /\ bad = <<>> /\ given = {} /\ live = {} /\ done = {}
Next == /\ bad = <<>> /\ l <= Len(Ev)
        /\ l' = l + 1 /\ UNCHANGED sid
        /\ bad' = IF Ok(S, Ev[l]) THEN <<>> ELSE <<sid, l>>
        /\ given' = IF Ev[l].e = "nonce" THEN given \cup {Ev[l].v} ELSE given
        /\ live' = IF Ev[l].e = "look" THEN live \cup {Ev[l].r} ELSE live
        /\ done' = IF Ev[l].e \in {"reply", "panic", "fail"} THEN done \cup {Ev[l].r} ELSE done
Spec == Init /\ [][Next]_vars
Accepted == bad = <<>> \/ LET x == Sessions[bad[1]] e == x.ev[bad[2]] IN
  Print(ToJson([sid |-> bad[1], line |-> bad[2], event |-> e, req |-> IF e.e \in {"look", "clone", "reply", "panic", "fail"} THEN x.reqs[e.r] ELSE <<>>]), FALSE)
=============================================================================
