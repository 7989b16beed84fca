---------------------------- MODULE OAuthDesign -----------------------------
(***************************************************************************)
(* Two sites with their own state caches and one without, an honest user   *)
(* who initiates, and an attacker who calls back with anything it likes.   *)
(***************************************************************************)
EXTENDS OAuth
CONSTANTS N, Ttl, CheckState
VARIABLES live, issuedBy, now, logins, k
vars == <<live, issuedBy, now, logins, k>>
Site(i) == [providers |-> IF i = 1 THEN <<"p1", "p2">> ELSE <<"p1">>, cache |-> IF i = 3 THEN 0 ELSE i, user |-> IF i = 1 THEN 1 ELSE 0,
            website |-> "https://w", base |-> "/s"]
Sites == 1..3
\* issuedBy: state number -> [site, at]
Init == live = <<<<>>, <<>>>> /\ issuedBy = <<>> /\ now = 0 /\ logins = {} /\ k = 0
Initiate(i, param) ==
  /\ Chosen(Site(i), param) # ""
  /\ issuedBy' = Append(issuedBy, [site |-> i, at |-> now])
  /\ live' = Issued(Site(i), live, Len(issuedBy) + 1, now + Ttl)
  /\ UNCHANGED <<now, logins>>
Callback(i, p, err, state, token, user) ==
  /\ IF CheckState THEN LogsIn(Site(i), live, p, err, state, token, user, now)
     ELSE LogsIn([Site(i) EXCEPT !.cache = 0], live, p, err, state, token, user, now)
  /\ logins' = logins \cup {[site |-> i, p |-> p, state |-> state, at |-> now, err |-> err, token |-> token, user |-> user]}
  /\ UNCHANGED <<live, issuedBy, now>>
Tick == now' = now + 1 /\ UNCHANGED <<live, issuedBy, logins>>
Next == /\ k < N /\ k' = k + 1
        /\ \/ \E i \in Sites, p \in {"", "p1", "p2", "p3"} : Initiate(i, p)
           \/ \E i \in Sites, p \in {"p1", "p2", "p3"}, e \in {"", "denied"}, s \in 0..(Len(issuedBy) + 1), t \in 0..1, u \in 0..1 : Callback(i, p, e, s, t, u)
           \/ Tick
Spec == Init /\ [][Next]_vars
OnlyIssuedStates ==
  \A g \in logins : Site(g.site).cache # 0 =>
     /\ g.state \in 1..Len(issuedBy)
     /\ issuedBy[g.state].site = g.site
     /\ issuedBy[g.state].at <= g.at /\ g.at < issuedBy[g.state].at + Ttl
OnlyConfigured == \A g \in logins : g.p \in Names(Site(g.site)) /\ g.err = "" /\ g.token = 1 /\ (Site(g.site).user = 1 => g.user = 1)
=============================================================================
