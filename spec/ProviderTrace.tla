--------------------------- MODULE ProviderTrace ----------------------------
(***************************************************************************)
(* Recorded exchanges of the bundled providers with scripted endpoints.    *)
(*   token p r res tok type scopes refresh exp sent asked                  *)
(*   user  p r res id name plat sent asked                                 *)
(*         sent: what the provider was given (client, secret, code, redir; *)
(*         the token), asked: what the endpoint was asked for              *)
(*   login p rt ru user res ran tok id    a whole callback                 *)
(*   url   p conf user scopes sent got before after opt params             *)
(*   endpoints at     where tokens and users are asked for by default      *)
(*   hangs            a provider that never answers was waited for too long*)
(***************************************************************************)
EXTENDS Provider, Json
CONSTANTS PROP, TraceFile
Sessions == ndJsonDeserialize(TraceFile)
VARIABLES sid, l, bad
vars == <<sid, l, bad>>
Ev == Sessions[sid].ev
TokenOK(e) ==
  LET r == e.r IN
  /\ \A i \in 1..Len(e.asked) : AsksFor(e.p, e.asked[i], e.sent)
  /\ e.res = "ok" => e.asked # <<>>
  /\ e.res \in {"ok", "err"}
  /\ MustDeliverToken(r) => e.res = "ok"
  /\ e.res = "ok" =>
       /\ TokenIn(r) # "" /\ e.tok = TokenIn(r)
       /\ r.f.token_type.k = "text" => e.type = r.f.token_type.v
       /\ r.f.scope.k = "text" =>
            LET s == SeqSet(Split(r.f.scope.v, ScopeSeparator(e.p))) IN "" \in s \/ SeqSet(e.scopes) = s
       /\ e.p = "google" /\ r.f.refresh_token.k = "text" => e.refresh = r.f.refresh_token.v
       /\ e.p = "google" /\ r.f.expires_in.k = "num" => e.exp = r.f.expires_in.v
UserOK(e) ==
  LET r == e.r IN
  /\ \A i \in 1..Len(e.asked) : e.asked[i] = e.sent
  /\ e.res = "ok" => e.asked # <<>>
  /\ e.res \in {"ok", "err"}
  /\ MustDeliverUser(e.p, r) => e.res = "ok"
  /\ e.res = "ok" =>
       /\ UserIn(e.p, r) # "" /\ e.id = UserIn(e.p, r)
       /\ r.f.name.k = "text" => e.name = r.f.name.v
       /\ r.f.name.k # "text" => e.name = ""
       /\ e.plat = e.p
LoginOK(e) ==
  /\ e.res \in {"ok", "err"} /\ e.ran = (IF e.res = "ok" THEN 1 ELSE 0)
  /\ MustDeliverToken(e.rt) /\ (e.user = 1 => MustDeliverUser(e.p, e.ru)) => e.res = "ok"
  /\ e.res = "ok" => /\ TokenIn(e.rt) # "" /\ e.tok = TokenIn(e.rt)
                     /\ e.user = 1 => UserIn(e.p, e.ru) # "" /\ e.id = UserIn(e.p, e.ru)
                     /\ e.user = 0 => e.id = ""
UrlOK(e) ==
  /\ SeqSet(e.scopes) = Requested(e.p, SeqSet(e.conf), e.user)
  /\ e.got = e.sent
  /\ LET want == Parameters(e.p, e.sent.client, e.sent.redir, e.sent.state, e.opt) got == SeqSet(e.params) IN
       want \subseteq got /\ got \ want \subseteq Optional(e.p) /\ Cardinality({x.k : x \in got}) = Len(e.params)
  /\ e.after = e.before
Ok(e) == CASE e.e = "token" -> TokenOK(e) [] e.e = "user" -> UserOK(e) [] e.e = "login" -> LoginOK(e) [] e.e = "url" -> UrlOK(e) [] e.e = "endpoints" -> e.at = Endpoints [] OTHER -> FALSE
Init == sid \in 1..Len(Sessions) /\ l = 1 /\ bad = <<>>
Next == /\ bad = <<>> /\ l <= Len(Ev)
        /\ l' = l + 1 /\ UNCHANGED sid
        /\ bad' = IF Ok(Ev[l]) THEN <<>> ELSE <<sid, l>>
Spec == Init /\ [][Next]_vars
Accepted == bad = <<>> \/ Print(ToJson([sid |-> bad[1], line |-> bad[2], event |-> Ev[bad[2]]]), FALSE)
=============================================================================
