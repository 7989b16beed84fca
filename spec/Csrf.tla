-------------------------------- MODULE Csrf --------------------------------
(***************************************************************************)
(* CSRF nonces.  live maps every issued, unused nonce to the moment it     *)
(* expires (per nonce cache); issued holds every nonce ever handed out.    *)
(***************************************************************************)
EXTENDS Text
SafeMethods == {"GET", "HEAD", "TRACE", "OPTIONS"}
Presented(hdr, form) == IF hdr # "" THEN hdr ELSE form
Valid(live, n, now) == n \in DOMAIN live /\ now < live[n]
Admits(live, method, hdr, form, now) ==
  method \in SafeMethods \/ (Presented(hdr, form) # "" /\ Valid(live, Presented(hdr, form), now))
Use(live, method, hdr, form) ==
  IF method \in SafeMethods THEN live ELSE [n \in DOMAIN live \ {Presented(hdr, form)} |-> live[n]]
Issue(live, n, expires) == [x \in DOMAIN live \cup {n} |-> IF x = n THEN expires ELSE live[x]]
=============================================================================
