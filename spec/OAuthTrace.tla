----------------------------- MODULE OAuthTrace -----------------------------
(***************************************************************************)
(* Recorded login histories.                                               *)
(*   tick d                                                                *)
(*   init i param res p state redir user lost   an initiation on site i;   *)
(*        lost: the cache refuses to take its state                        *)
(*   inits i p states fine     initiations by the dozen, all with provider *)
(*        p; fine: 1 where the redirect is as it should be                 *)
(*   cbs i p states rans       callbacks for which the provider delivers   *)
(*   cb i p err state token user code ran tok uid res gave id gcode gredir *)
(*        a callback; token/user: whether the provider would deliver them, *)
(*        gave/id: the token and user it delivers, tok/uid: what the       *)
(*        handler saw, gcode/gredir: what the provider was asked with      *)
(*   unique ns                                                             *)
(***************************************************************************)
EXTENDS OAuth, Json
CONSTANTS PROP, TraceFile
Sessions == ndJsonDeserialize(TraceFile)
VARIABLES sid, l, live, ever, now, bad
vars == <<sid, l, live, ever, now, bad>>
S == Sessions[sid]
Ev == S.ev
E == Ev[l]
Site == S.sites[E.i]
Init == sid \in 1..Len(Sessions) /\ l = 1 /\ live = <<<<>>, <<>>>> /\ ever = {} /\ now = 0 /\ bad = <<>>
InitOK == LET p == Chosen(Site, E.param) IN
  IF p = "" \/ (E.lost = 1 /\ Site.cache # 0) THEN E.res = "err"
  ELSE /\ E.res = "redirect" /\ E.p = p
       /\ E.redir = CallbackUrl(Site, p) /\ E.user = Site.user
       /\ E.state # "" /\ E.state \notin ever
CallbackOK ==
  IF LogsIn(Site, live, E.p, E.err, E.state, E.token, E.user, now)
  THEN /\ E.res = "ok" /\ E.ran = 1
       /\ E.tok = E.gave
       /\ Site.user = 1 => E.uid = E.id
       /\ E.gcode = E.code /\ E.gredir = CallbackUrl(Site, E.p)
  ELSE E.res = "err" /\ E.ran = 0
InitsOK == LET n == Len(E.states) IN
  /\ E.p = Chosen(Site, E.p) /\ \A i \in 1..n : E.fine[i] = 1
  /\ SeqSet(E.states) \cap ever = {} /\ Cardinality(SeqSet(E.states)) = n
CallbacksOK == \A i \in 1..Len(E.states) :
  E.rans[i] = IF LogsIn(Site, live, E.p, "", E.states[i], 1, 1, now) THEN 1 ELSE 0
StepOK == CASE E.e = "init" -> InitOK
            [] E.e = "cb" -> CallbackOK
            [] E.e = "inits" -> InitsOK
            [] E.e = "cbs" -> CallbacksOK
            [] E.e = "unique" -> Cardinality({E.ns[i] : i \in 1..Len(E.ns)}) = Len(E.ns)
            [] OTHER -> TRUE
Next == /\ bad = <<>> /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED sid
        /\ bad' = IF StepOK THEN <<>> ELSE <<sid, l>>
        /\ now' = IF E.e = "tick" THEN now + E.d ELSE now
        /\ IF E.e = "init" /\ E.res = "redirect"
           THEN live' = Issued(Site, live, E.state, now + S.ttl) /\ ever' = ever \cup {E.state}
           ELSE IF E.e = "inits"
           THEN /\ ever' = ever \cup SeqSet(E.states)
                /\ live' = IF Site.cache = 0 THEN live
                           ELSE LET K == SeqSet(E.states) IN [live EXCEPT ![Site.cache] = [x \in DOMAIN @ \cup K |-> IF x \in K THEN now + S.ttl ELSE @[x]]]
           ELSE UNCHANGED <<live, ever>>
Spec == Init /\ [][Next]_vars
Accepted == bad = <<>> \/ Print(ToJson([sid |-> sid, line |-> bad[2], sites |-> S.sites, ttl |-> S.ttl,
              history |-> [k \in 1..bad[2] |-> IF Ev[k].e \in {"unique", "inits", "cbs"} THEN [e |-> Ev[k].e] ELSE Ev[k]]]), FALSE)
=============================================================================
