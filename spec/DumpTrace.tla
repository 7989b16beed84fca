----------------------------- MODULE DumpTrace ------------------------------
(***************************************************************************)
(* Requests behind the request dumper.                                     *)
(*   one  d method g  (as in Response.tla; enc: added content coding)      *)
(*        q      the request as it arrived: [url, host, proto, uri,        *)
(*               remote, len, te, secure, ck, form, h: <<k, v>> pairs]     *)
(*        read   1: the handler read exactly the body that was sent        *)
(*        docs   the documents logged for it: [ok, method, status, rh, rc, *)
(*               timely, and what q has]; timely: from the arrival of the  *)
(*               request to the end of its handling, the handler in between*)
(*   err  same noresp ran docs                                             *)
(* Every session ends with                                                 *)
(*   end  total    number of documents logged, whatever they are about     *)
(***************************************************************************)
EXTENDS Response, Json
CONSTANTS PROP, TraceFile
Sessions == ndJsonDeserialize(TraceFile)
VARIABLES sid, l, bad, n
vars == <<sid, l, bad, n>>
Ev == Sessions[sid].ev
Pairs(s) == {<<s[i].k, s[i].v>> : i \in 1..Len(s)}
DocOK(e, x) ==
  LET f == Headers(e.d)
      own == {<<k, f[k]>> : k \in DOMAIN f} IN
  /\ x.ok = 1
  /\ x.method = e.method /\ x.url = e.q.url /\ x.host = e.q.host
  /\ \A y \in {"proto", "uri", "remote", "len", "secure", "te", "ck", "form"} : x[y] = e.q[y]
  /\ x.timely = 1
  /\ Pairs(x.h) = Pairs(e.q.h) /\ Len(x.h) = Len(e.q.h)
  /\ Hijacked(e.d) \/ e.d.kind = "adaptor" \/ x.status = Status(e.d)
  \* everything that was put into the response, and nothing that is not so
  /\ ~Hijacked(e.d) => /\ own \subseteq Pairs(x.rh)
                       /\ (Sendable(e.d) => Pairs(x.rh) \subseteq own \cup Pairs(e.g.h))
                       /\ SeqSet(x.rc) = Cookies(e.d) /\ Len(x.rc) = Cardinality(Cookies(e.d))
  /\ Hijacked(e.d) => x.rh = <<>> /\ x.rc = <<>>
Ok(e) ==
  CASE e.e = "err" -> e.same = 1 /\ e.noresp = 1 /\ e.ran = 1 /\ e.docs = 0
    [] e.e = "end" -> e.total = n
    [] OTHER ->
       /\ e.panics = 0 /\ e.read = 1
       /\ IF Sendable(e.d) THEN Faithful(e.d, e.method, e.g) ELSE e.g.res = "ok" /\ e.g.status # e.d.status
       /\ Len(e.docs) = 1 /\ DocOK(e, e.docs[1])
Init == sid \in 1..Len(Sessions) /\ l = 1 /\ bad = <<>> /\ n = 0
Next == /\ bad = <<>> /\ l <= Len(Ev)
        /\ l' = l + 1 /\ UNCHANGED sid
        /\ n' = IF Ev[l].e = "one" THEN n + 1 ELSE n
        /\ bad' = IF Ok(Ev[l]) THEN <<>> ELSE <<sid, l>>
Spec == Init /\ [][Next]_vars
Accepted == bad = <<>> \/ Print(ToJson([sid |-> bad[1], line |-> bad[2], counted |-> n, event |-> Sessions[bad[1]].ev[bad[2]]]), FALSE)
=============================================================================
