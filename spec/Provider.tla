------------------------------ MODULE Provider ------------------------------
(***************************************************************************)
(* What the bundled OAuth2 providers may conclude from a reply.            *)
(* A reply: [code, body, f]                                                *)
(*   code   HTTP status, 0 when there is no (complete) HTTP reply          *)
(*   body   "object", "object+" (followed by something else) or what else  *)
(*          was sent instead of a JSON object                              *)
(*   f      the fields of the object, each [k, v]: k is absent, null, text,*)
(*          num, bool, arr or obj, v its text or number                    *)
(***************************************************************************)
EXTENDS Text
TextOf(x) == IF x.k = "text" THEN x.v ELSE ""
Success(r) == r.code \in 200..299 /\ r.body \in {"object", "object+"}
Proper(r, x) == r.f[x].k \in {"absent", "text"}

\* access tokens
TokenIn(r) == IF Success(r) THEN TextOf(r.f.access_token) ELSE ""
MustDeliverToken(r) ==
  /\ TokenIn(r) # "" /\ r.body = "object"
  /\ r.f.error.k = "absent" /\ r.f.token_type.k = "text"
  /\ Proper(r, "scope") /\ Proper(r, "refresh_token") /\ r.f.expires_in.k \in {"absent", "num"}

\* users: the e-mail address, when there is none the provider's own name of the user
OwnName(p) == IF p = "github" THEN "login" ELSE "id"
UserIn(p, r) ==
  IF ~Success(r) THEN ""
  ELSE IF TextOf(r.f.email) # "" THEN TextOf(r.f.email) ELSE TextOf(r.f[OwnName(p)])
MustDeliverUser(p, r) ==
  /\ UserIn(p, r) # "" /\ r.body = "object"
  /\ r.f.email.k \in {"absent", "null", "text"}
  /\ r.f.name.k \in {"absent", "null", "text"}

\* what a token endpoint is asked: with the client's own credentials, the code
\* and callback as given (the latter is optional for GitHub)
AsksFor(p, a, sent) ==
  /\ a.client = sent.client /\ a.secret = sent.secret /\ a.code = sent.code
  /\ IF p = "github" THEN a.redir \in {"", sent.redir} ELSE a.redir = sent.redir

ScopeSeparator(p) == IF p = "github" THEN "," ELSE " "
Profile(p) == IF p = "github" THEN {"user"}
              ELSE {"openid", "https://www.googleapis.com/auth/userinfo.email", "https://www.googleapis.com/auth/userinfo.profile"}
Requested(p, configured, user) == configured \cup (IF user = 1 THEN Profile(p) ELSE {})

\* the parameters of the initiation URL besides the scope
\*   o: [login, signup, offline, granted, prompts], the options that were configured
Bool(b) == IF b = 1 THEN "true" ELSE "false"
If(c, S) == IF c THEN S ELSE {}
Pair(k, v) == [k |-> k, v |-> v]
Parameters(p, client, redir, state, o) ==
  {Pair("client_id", client), Pair("redirect_uri", redir), Pair("state", state)} \cup
  IF p = "github" THEN {Pair("allow_signup", Bool(o.signup))} \cup If(o.login # "", {Pair("login", o.login)})
  ELSE {Pair("response_type", "code"), Pair("include_granted_scopes", Bool(o.granted))}
       \cup If(o.offline = 1, {Pair("access_type", "offline")}) \cup If(o.login # "", {Pair("login_hint", o.login)})
       \cup If(o.prompts # <<>>, {Pair("prompt", Join(o.prompts, " "))})
\* a parameter may also spell out its documented default
Optional(p) == IF p = "github" THEN {Pair("response_type", "code")} ELSE {Pair("access_type", "online")}
Endpoints == <<"https://github.com/login/oauth/access_token", "https://api.github.com/user",
               "https://oauth2.googleapis.com/token", "https://www.googleapis.com/oauth2/v1/userinfo">>
=============================================================================
