----------------------------- MODULE SecHeaders -----------------------------
(***************************************************************************)
(* Security response headers.                                              *)
(* A configuration c: [sts, age, sub, preload, cj, from, value, uri,       *)
(*   sniff, xss] (0/1 flags, age a number, from: X-Frame-Options is of the *)
(*   allow-from kind, value and uri texts).                                *)
(***************************************************************************)
EXTENDS Response
StsValue(c) == "max-age=" \o ToString(c.age)
                 \o (IF c.sub = 1 THEN ";includeSubDomains" ELSE "")
                 \o (IF c.preload = 1 THEN ";preload" ELSE "")
FrameValue(c) == c.value \o (IF c.from = 1 THEN " " \o c.uri ELSE "")
\* the headers the middleware puts into every response, in any order (the names differ)
Added(c, secure) ==
     (IF c.sts = 1 /\ secure = 1 THEN <<[k |-> "strict-transport-security", v |-> StsValue(c)]>> ELSE <<>>)
  \o (IF c.cj = 1 THEN <<[k |-> "x-frame-options", v |-> FrameValue(c)]>> ELSE <<>>)
  \o (IF c.sniff = 1 THEN <<[k |-> "x-content-type-options", v |-> "nosniff"]>> ELSE <<>>)
  \o (IF c.xss = 1 THEN <<[k |-> "x-xss-protection", v |-> "1; mode=block"]>> ELSE <<>>)
Secured(d, c, secure) == [d EXCEPT !.mh = @ \o Added(c, secure)]
=============================================================================
