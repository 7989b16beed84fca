----------------------------- MODULE CsrfTrace ------------------------------
(***************************************************************************)
(* Recorded requests through the CSRF middleware.                          *)
(*   tick d                                                                *)
(*   req  k method hdr form ran err new lost   (k: which nonce cache;      *)
(*        lost: that cache refuses to take a new nonce)                    *)
(*   unique ns     all nonces issued in a long session                     *)
(*   batch k method hs rans news   requests one after the other, presenting *)
(*                 pairwise different nonces (or all of them none: "")      *)
(*   conc rs       requests served at the same time, in no known order     *)
(***************************************************************************)
EXTENDS Csrf, Json
CONSTANTS PROP, TraceFile
Trace == ndJsonDeserialize(TraceFile)
Ttl == Trace[1].ttl
Sessions == SubSeq(Trace, 2, Len(Trace))
VARIABLES sid, l, now, states, bad
vars == <<sid, l, now, states, bad>>
Ev == Sessions[sid].ev
\* a state: [live |-> <<cache 1, cache 2>>, issued |-> set]
Start == {[live |-> <<<<>>, <<>>>>, issued |-> {}]}
Explain(s, e) ==
  LET ok == Admits(s.live[e.k], e.method, e.hdr, e.form, now) IN
  IF ok /\ e.lost = 1
  THEN IF e.ran = 0 /\ e.err = "other" THEN {s, [s EXCEPT !.live[e.k] = Use(s.live[e.k], e.method, e.hdr, e.form)]} ELSE {}
  ELSE IF ok
  THEN IF e.ran = 1 /\ e.new # "" /\ e.new \notin s.issued
       THEN {[live |-> [s.live EXCEPT ![e.k] = Issue(Use(s.live[e.k], e.method, e.hdr, e.form), e.new, now + Ttl)],
              issued |-> s.issued \cup {e.new}]}
       ELSE {}
  ELSE IF e.ran = 0 /\ e.err = "denied" THEN {s} ELSE {}
RECURSIVE ExplainAll(_, _, _)
\* some order of the requests in I explains what each of them observed
ExplainAll(s, rs, I) ==
  IF I = {} THEN {s}
  ELSE UNION {UNION {ExplainAll(s2, rs, I \ {i}) : s2 \in Explain(s, rs[i])} : i \in I}
Init == sid \in 1..Len(Sessions) /\ l = 1 /\ now = 0 /\ states = Start /\ bad = <<>>
Tick == Ev[l].e = "tick" /\ now' = now + Ev[l].d /\ UNCHANGED states
Req == Ev[l].e = "req" /\ states' = UNION {Explain(s, Ev[l]) : s \in states} /\ UNCHANGED now
Conc == Ev[l].e = "conc" /\ states' = UNION {ExplainAll(s, Ev[l].rs, 1..Len(Ev[l].rs)) : s \in states} /\ UNCHANGED now
BatchStep(s, e) ==
  LET n == Len(e.hs)
      adm == {i \in 1..n : Admits(s.live[e.k], e.method, e.hs[i], "", now)}
      new == {e.news[i] : i \in adm}
      used == {e.hs[i] : i \in adm}
      old == IF e.method \in SafeMethods THEN s.live[e.k] ELSE [x \in DOMAIN s.live[e.k] \ used |-> s.live[e.k][x]] IN
  IF /\ \A i \in 1..n : IF i \in adm THEN e.rans[i] = 1 /\ e.news[i] # "" ELSE e.rans[i] = 0
     /\ Cardinality(new) = Cardinality(adm) /\ new \cap s.issued = {}
  THEN {[live |-> [s.live EXCEPT ![e.k] = [x \in DOMAIN old \cup new |-> IF x \in new THEN now + Ttl ELSE old[x]]], issued |-> s.issued \cup new]}
  ELSE {}
Batch == Ev[l].e = "batch" /\ states' = UNION {BatchStep(s, Ev[l]) : s \in states} /\ UNCHANGED now
Unique == Ev[l].e = "unique" /\ UNCHANGED now /\ states' = IF Cardinality({Ev[l].ns[i] : i \in 1..Len(Ev[l].ns)}) = Len(Ev[l].ns) THEN states ELSE {}
Next == /\ bad = <<>> /\ l <= Len(Ev) /\ (Tick \/ Req \/ Conc \/ Batch \/ Unique)
        /\ l' = l + 1 /\ UNCHANGED sid
        /\ bad' = IF states' = {} THEN <<sid, l>> ELSE <<>>
Spec == Init /\ [][Next]_vars
Accepted == bad = <<>> \/ Print(ToJson([sid |-> bad[1], line |-> bad[2], event |-> Ev[bad[2]], history |-> IF Ev[bad[2]].e \in {"unique", "batch"} THEN <<>> ELSE Ev]), FALSE)
=============================================================================
