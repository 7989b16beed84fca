--------------------------- MODULE ProviderDesign ---------------------------
(***************************************************************************)
(* A login as an exchange with a provider that may answer anything: the    *)
(* client asks for a token, then for the user.  Checked: whatever the      *)
(* replies, a session exists only for what a successful reply named.       *)
(* Strict = FALSE is a client that takes the fields of every reply.        *)
(***************************************************************************)
EXTENDS Provider
CONSTANTS P, Strict
Vals == {[k |-> "absent", v |-> ""], [k |-> "null", v |-> ""], [k |-> "num", v |-> "7"], [k |-> "text", v |-> ""], [k |-> "text", v |-> "x"], [k |-> "text", v |-> "y"]}
NoF == [k |-> "absent", v |-> ""]
TokenReplies == [code : {0, 200, 401, 500}, body : {"object", "object+", "null", "html"},
                 f : {[access_token |-> a, error |-> NoF, token_type |-> t, scope |-> NoF, refresh_token |-> NoF, expires_in |-> NoF] : a \in Vals, t \in Vals}]
UserReplies == [code : {0, 200, 401, 500}, body : {"object", "object+", "null", "html"},
                f : {[email |-> a, login |-> b, id |-> b, name |-> NoF] : a \in Vals, b \in Vals}]
VARIABLES phase, reply, token, user, heard
vars == <<phase, reply, token, user, heard>>
Init == phase = "start" /\ reply = {} /\ token = "" /\ user = "" /\ heard = [t |-> {}, u |-> {}]
Field(x) == x.v
TakeToken(r) == IF Strict THEN TokenIn(r) ELSE TextOf(r.f.access_token)
TakeUser(r) == IF Strict THEN UserIn(P, r) ELSE IF r.f.email.k # "absent" THEN r.f.email.v ELSE r.f.login.v
TokenReply == /\ phase = "start"
              /\ \E r \in TokenReplies :
                   /\ heard' = [heard EXCEPT !.t = IF r.code = 200 /\ r.body \in {"object", "object+"} /\ r.f.access_token.k = "text" THEN {r.f.access_token.v} ELSE {}]
                   /\ reply' = {} /\ UNCHANGED user
                   /\ IF TakeToken(r) = "" THEN phase' = "failed" /\ token' = "" ELSE phase' = "token" /\ token' = TakeToken(r)
UserReply == /\ phase = "token"
             /\ \E r \in UserReplies :
                   /\ heard' = [heard EXCEPT !.u = IF r.code = 200 /\ r.body \in {"object", "object+"}
                                                   THEN {x.v : x \in {y \in {r.f.email, r.f.login} : y.k = "text"}} ELSE {}]
                   /\ reply' = {} /\ UNCHANGED token
                   /\ IF TakeUser(r) = "" THEN phase' = "failed" /\ user' = "" ELSE phase' = "in" /\ user' = TakeUser(r)
Next == TokenReply \/ UserReply
Spec == Init /\ [][Next]_vars
NotForged == phase = "in" => /\ token # "" /\ token \in heard.t
                             /\ user # "" /\ user \in heard.u
=============================================================================
