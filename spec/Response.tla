------------------------------ MODULE Response ------------------------------
(***************************************************************************)
(* What reaches the client.                                                *)
(* A description d: [kind, status, ct, h, c, mh, mc, body, loc]            *)
(*   ct      the content type of the kind ("": none)                       *)
(*   h, c    headers [k, v] (lower case names) and cookies [k, v] of the   *)
(*           handler, mh and mc those added by middlewares, in order       *)
(* What was received g: [status, h, c, body]                               *)
(***************************************************************************)
EXTENDS Text
\* the last one put wins
RECURSIVE Put(_, _)
Put(f, s) == IF s = <<>> THEN f
             ELSE Put([x \in DOMAIN f \cup {s[1].k} |-> IF x = s[1].k THEN s[1].v ELSE f[x]], Tail(s))
\* a hijacked connection is the handler's alone
Hijacked(d) == d.kind \in {"hijack", "nohijack"}
Headers(d) == IF Hijacked(d) THEN Put(<<>>, d.h) ELSE Put(Put(<<>>, d.h), d.mh)
Cookies(d) == IF Hijacked(d) THEN Range(Put(<<>>, d.c)) ELSE Range(Put(Put(<<>>, d.c), d.mc))

Status(d) == IF d.status = 0 THEN 200 ELSE d.status
Sendable(d) == d.status = 0 \/ d.status \in 100..999
HasBody(d, method) == method # "HEAD" /\ Status(d) \notin {204, 304}
Own(d) == d.kind \notin {"redirect", "adaptor", "hijack", "nohijack"}

Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
With(f, k, v) == IF k \in DOMAIN f /\ f[k] # "" THEN f ELSE [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
\* an adapted handler has the last word
CtOf(d) == LET f == Headers(d) IN
  IF d.kind = "adaptor" /\ d.ct # "" THEN d.ct
  ELSE IF "content-type" \in DOMAIN f /\ f["content-type"] # "" THEN f["content-type"] ELSE d.ct
Described(d) ==
  LET f == Headers(d)
      a == IF Own(d) THEN With(f, "x-content-type-options", "nosniff") ELSE f
      b == IF d.kind = "redirect" THEN [x \in DOMAIN a \cup {"location"} |-> IF x = "location" THEN d.loc ELSE a[x]] ELSE a
      \* event streams are not cached unless the handler says otherwise
      s == IF d.kind = "sse" /\ "cache-control" \notin DOMAIN b THEN With(b, "cache-control", "no-cache") ELSE b
  IN Without(s, {"content-type", "content-length"})

\* headers the server adds on its own account
Auto == {"date", "content-length", "connection", "content-type"}
Sent(g, k) == {g.h[i].v : i \in {j \in 1..Len(g.h) : g.h[j].k = k}}
CtOK(d, method, g) ==
  LET want == CtOf(d)
      got == Sent(g, "content-type") IN
  IF want = "" THEN Cardinality(got) <= 1           \* sniffed by the server
  ELSE IF Status(d) = 304 THEN got \subseteq {want}
  ELSE got = {want}
HeadersOK(d, method, g) ==
  LET keep == {i \in 1..Len(g.h) : g.h[i].k \notin Auto}
      f == Described(d) IN
  /\ {<<g.h[i].k, g.h[i].v>> : i \in keep} = {<<k, f[k]>> : k \in DOMAIN f}
  /\ Cardinality(keep) = Cardinality(DOMAIN f)
  /\ CtOK(d, method, g)
CookiesOK(d, g) == SeqSet(g.c) = Cookies(d) /\ Len(g.c) = Cardinality(Cookies(d))
BodyOK(d, method, g) ==
  IF ~HasBody(d, method) THEN g.body = ""
  ELSE d.kind = "redirect" \/ g.body = d.body
Faithful(d, method, g) ==
  /\ g.res = "ok" /\ g.status = Status(d)
  /\ HeadersOK(d, method, g) /\ CookiesOK(d, g) /\ BodyOK(d, method, g)
=============================================================================
