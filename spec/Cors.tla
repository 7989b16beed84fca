-------------------------------- MODULE Cors --------------------------------
(***************************************************************************)
(* The decision of the CORS middleware.                                    *)
(* Configuration c: [any, origins, methods, headers, exposed (sequences),  *)
(*   maxage, creds]                                                        *)
(* Request q: [method, scheme, host  (of the request URL, "" when the      *)
(*   request line has only a path), and optional headers as sequences of   *)
(*   length 0 or 1: origin, acrm, ct; acrh: its lines]                                *)
(***************************************************************************)
EXTENDS Text
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # "" /\ CharAt(s, 1) \in {" ", "\t"} THEN TrimL(From(s, 2)) ELSE s
TrimR(s) == IF s # "" /\ CharAt(s, Len(s)) \in {" ", "\t"} THEN TrimR(Upto(s, Len(s) - 1)) ELSE s
Trim(s) == TrimR(TrimL(s))
Same(a, b) == LowerText(a) = LowerText(b)
Among(x, S) == \E i \in 1..Len(S) : Same(S[i], x)
Has(h) == Len(h) = 1
ValOf(h) == IF Has(h) THEN h[1] ELSE ""

SchemeChars == Letter \cup Digit \cup {"+", "-", "."}
HostChars == Letter \cup Digit \cup {"-", ".", "[", "]", ":"}
Scheme(o) == Upto(o, FirstPos(o, ":") - 1)
AfterScheme(o) == From(o, FirstPos(o, ":") + 1)
PortOf(h) == LET p == LastPos(h, ":") IN IF p = 0 \/ EndsWith(h, "]") THEN "" ELSE From(h, p + 1)
WellFormed(o) ==
  /\ o # "" /\ ~Contains(o, "%")
  /\ \/ o = "null" \/ StartsWith(o, "file://")
     \/ /\ FirstPos(o, ":") > 1
        /\ CharAt(o, 1) \in Letter /\ AllIn(Scheme(o), SchemeChars)
        /\ StartsWith(AfterScheme(o), "//")
        /\ LET h == From(AfterScheme(o), 3) IN
             AllIn(h, HostChars) /\ AllIn(PortOf(h), Digit)
             /\ (StartsWith(h, "[") => Contains(h, "]"))

DefaultPort(s) == IF Same(s, "https") \/ Same(s, "wss") THEN "443" ELSE "80"
SameOrigin(q) ==
  /\ q.scheme # "" /\ q.host # ""
  /\ LET own == LowerText(q.scheme) \o "://" \o q.host IN
       IF PortOf(q.host) = "" THEN ValOf(q.origin) \in {own, own \o ":" \o DefaultPort(q.scheme)}
       ELSE ValOf(q.origin) = own \/ (PortOf(q.host) = DefaultPort(q.scheme) /\ ValOf(q.origin) \o ":" \o DefaultPort(q.scheme) = own)

CrossOrigin(q) == Has(q.origin) /\ ~SameOrigin(q)
PreFlight(q) == q.method = "OPTIONS" /\ Has(q.acrm)
MediaType(ct) == LET p == FirstPos(ct, ";") IN Trim(IF p = 0 THEN ct ELSE Upto(ct, p - 1))
OriginAllowed(c, o) == WellFormed(o) /\ (c.any = 1 \/ \E i \in 1..Len(c.origins) : c.origins[i] = o)
\* the header may be given on several lines
RequestedHeaders(q) == UNION {{Trim(x) : x \in SeqSet(Split(q.acrh[i], ","))} : i \in 1..Len(q.acrh)} \ {""}

\* the handler runs and the access control headers are added
Served(c, q) ==
  /\ OriginAllowed(c, ValOf(q.origin))
  /\ IF PreFlight(q)
     THEN /\ Trim(ValOf(q.acrm)) # "" /\ Among(Trim(ValOf(q.acrm)), c.methods)
          /\ \A h \in RequestedHeaders(q) : Among(h, c.headers)
     ELSE /\ Among(q.method, c.methods)
          /\ q.method = "POST" => MediaType(ValOf(q.ct)) # ""

Entry(k, on, v) == IF on THEN (k :> v) ELSE <<>>
Added(c, q) ==
  ("access-control-allow-origin" :> (IF c.any = 1 THEN "*" ELSE ValOf(q.origin)))
  @@ Entry("access-control-allow-credentials", c.creds = 1, "true")
  @@ Entry("access-control-expose-headers", c.exposed # <<>>, Join(c.exposed, ","))
  @@ Entry("access-control-max-age", q.method = "OPTIONS" /\ c.maxage > 0, ToString(c.maxage))
  @@ Entry("access-control-allow-methods", q.method = "OPTIONS" /\ c.methods # <<>>, Join(c.methods, ","))
  @@ Entry("access-control-allow-headers", q.method = "OPTIONS" /\ c.headers # <<>>, Join(c.headers, ","))

Tokens(v) == {LowerText(Trim(x)) : x \in SeqSet(Split(v, ","))} \ {""}
VaryTokens(c, q, own) ==
  Tokens(own) \cup (IF c.any = 1 THEN {} ELSE {"origin"})
    \cup (IF q.method = "OPTIONS" THEN {"access-control-request-method", "access-control-request-headers"} ELSE {})
=============================================================================
