----------------------------- MODULE CorsDesign -----------------------------
(***************************************************************************)
(* What the decision is worth: a script of origin o, running in a browser  *)
(* that follows the protocol, sends one request to a guarded resource.     *)
(* Non-simple requests are preceded by a preflight.  Checked: a script of  *)
(* an origin that is not allowed causes no effect and reads nothing; one   *)
(* of an allowed origin with allowed method and headers always succeeds.   *)
(* Early = FALSE is a middleware that runs the handler first.              *)
(***************************************************************************)
EXTENDS Cors
CONSTANTS Early, Origins, Methods
ConfigMethods == {<<>>, <<"GET">>, <<"put", "POST">>, <<"GET", "OPTIONS">>}
Configs == [any : {0, 1}, origins : {<<>>, <<"http://a">>, <<"http://a", "null">>}, methods : ConfigMethods,
            headers : {<<>>, <<"X-A">>}, exposed : {<<>>}, maxage : {0}, creds : {0}]
Reqs == [method : Methods, scheme : {""}, host : {""}, origin : {<<o>> : o \in Origins}, acrm : {<<>>}, acrh : {<<>>}, ct : {<<>>, <<"text/plain">>, <<"application/json">>}]
VARIABLES c, q, custom, phase, effects, read
vars == <<c, q, custom, phase, effects, read>>
Init == c \in Configs /\ q \in Reqs /\ custom \in {"", "X-A", "X-B"} /\ phase = "start" /\ effects = 0 /\ read = FALSE
Simple == q.method \in {"GET", "HEAD", "POST"} /\ custom = "" /\ (q.method = "POST" => MediaType(ValOf(q.ct)) \in {"text/plain"})
Flight == [q EXCEPT !.method = "OPTIONS", !.acrm = <<q.method>>, !.acrh = IF custom = "" THEN <<>> ELSE <<custom>>, !.ct = <<>>]
\* what a response must say for the browser to hand it to the script
Shares(r) == LET h == Added(c, r) IN h["access-control-allow-origin"] \in {"*", ValOf(q.origin)}
Preflight == /\ phase = "start" /\ ~Simple
             /\ phase' = IF Served(c, Flight) /\ Shares(Flight) THEN "checked" ELSE "done"
             /\ UNCHANGED <<c, q, custom, effects, read>>
Send == /\ phase = "checked" \/ (phase = "start" /\ Simple)
        /\ phase' = "done"
        /\ effects' = IF Served(c, q) \/ ~Early THEN effects + 1 ELSE effects
        /\ read' = (Served(c, q) /\ Shares(q))
        /\ UNCHANGED <<c, q, custom>>
Next == Preflight \/ Send
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Allowed == OriginAllowed(c, ValOf(q.origin))
Guarded == ~Allowed => effects = 0 /\ ~read
Once == effects <= 1
Usable == []((phase = "done" /\ Allowed /\ Among(q.method, c.methods) /\ (custom = "" \/ Among(custom, c.headers))
             /\ (q.method = "POST" => q.ct # <<>>)) => read)
Ends == <>(phase = "done")
=============================================================================
