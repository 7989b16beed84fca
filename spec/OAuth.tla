------------------------------- MODULE OAuth --------------------------------
(***************************************************************************)
(* The OAuth2 flow of one or more login sites.                             *)
(* A site: [providers, cache, user, website, base]                         *)
(*   providers  sequence of provider names                                 *)
(*   cache      number of the state cache, 0: none                         *)
(*   user       1 when the user details are requested                      *)
(*   website, base   texts the callback URLs are made of                   *)
(* live[c] maps every state issued through cache c to when it expires.     *)
(***************************************************************************)
EXTENDS Text
Names(site) == {site.providers[i] : i \in 1..Len(site.providers)}
CallbackUrl(site, p) == site.website \o site.base \o "/" \o p

\* the provider an initiation request is redirected to, "" when it is refused
Chosen(site, param) ==
  IF Len(site.providers) = 1 THEN site.providers[1]
  ELSE IF param \in Names(site) THEN param ELSE ""

StateOK(site, live, state, now) ==
  IF site.cache = 0 THEN TRUE ELSE state \in DOMAIN live[site.cache] /\ now < live[site.cache][state]
\* what the provider answers: gives a token, gives a user
LogsIn(site, live, p, err, state, token, user, now) ==
  /\ p \in Names(site) /\ err = ""
  /\ StateOK(site, live, state, now)
  /\ token = 1 /\ (site.user = 1 => user = 1)
Issued(site, live, state, expires) ==
  IF site.cache = 0 THEN live
  ELSE [live EXCEPT ![site.cache] = [s \in DOMAIN @ \cup {state} |-> IF s = state THEN expires ELSE @[s]]]
=============================================================================
