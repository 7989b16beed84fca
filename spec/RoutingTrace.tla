---------------------------- MODULE RoutingTrace ----------------------------
(***************************************************************************)
(* Validates what the real router did.  A session is a sequence of events: *)
(*   mux            a new, empty route table                               *)
(*   reg m p ok     a registration of pattern text number p, and whether   *)
(*                  it was accepted                                        *)
(*   serve names rs requests; every r of rs is [m, u, c, hs, v, pn]:       *)
(*                  method, path number, status, registrations whose       *)
(*                  handlers ran, values of the names in the handler,      *)
(*                  panicked                                               *)
(* The state is the table; each event must be a step of the specification  *)
(* as far as the property PROP is concerned, otherwise bad records it.     *)
(***************************************************************************)
EXTENDS Routing, Json
CONSTANTS PROP, TraceFile
Trace == ndJsonDeserialize(TraceFile)
Header == Trace[1]
CI == Header.ci
Pats == Header.pats
RawPaths == Header.paths
Sessions == SubSeq(Trace, 2, Len(Trace))

OKPat == [i \in 1..Len(Pats) |-> WellFormed(Pats[i])]
P == [i \in 1..Len(Pats) |-> IF OKPat[i] THEN ParsePattern(Pats[i], CI) ELSE <<>>]
Norm == [j \in 1..Len(RawPaths) |-> Normalise(RawPaths[j])]
U == [j \in 1..Len(RawPaths) |-> IF Len(Norm[j]) > MaxSegments THEN <<>> ELSE RequestPath(RawPaths[j], CI)]
Long == [j \in 1..Len(RawPaths) |-> Len(Norm[j]) > MaxSegments]
\* the match relation, evaluated once
Al == [i \in 1..Len(Pats) |-> [j \in 1..Len(RawPaths) |->
        IF OKPat[i] /\ ~Long[j] THEN Alignments(P[i], U[j]) ELSE {}]]
M(i, j) == Al[i][j] # {}

VARIABLES sid, l, table, seen, twins, bad
vars == <<sid, l, table, seen, twins, bad>>
\* table: set of <<method, pattern number, registration number>>
Cand(m, j) == {r \in table : r[1] = m /\ M(r[2], j)}

(* ---------------------------- one request r ---------------------------- *)
NoHandler(r) == r.hs = <<>>
Who(r) == CHOOSE x \in table : x[3] = r.hs[1]
Known(r) == Len(r.hs) = 1 /\ \E x \in table : x[3] = r.hs[1]
ServedRight(r) ==
  LET C == Cand(r.m, r.u) IN
  /\ ~r.pn
  /\ IF C = {} THEN NoHandler(r) /\ r.c = 404
     ELSE Known(r) /\ Who(r) \in C /\ r.c = 200
MostSpecific(r) ==
  (Known(r) /\ Who(r) \in Cand(r.m, r.u)) =>
     \A q \in Cand(r.m, r.u) : ~Better(P[q[2]], P[Who(r)[2]])
VarsRight(names, r) ==
  (Known(r) /\ Who(r) \in Cand(r.m, r.u)) =>
     LET w == Who(r) IN
     \E al \in Al[w[2]][r.u] : \A k \in 1..Len(names) :
        r.v[k] = ValueUnder(P[w[2]], Norm[r.u], al, names[k])
\* what an observer can tell about a served request, whatever the table
Seen(r) == [pn |-> r.pn, c |-> r.c, p |-> IF Known(r) THEN <<Who(r)[1], Pats[Who(r)[2]]>> ELSE <<"", "">>, n |-> Len(r.hs), v |-> r.v]

Routes == {<<r[1], Pats[r[2]]>> : r \in table}
DiffersFromSeen(r, k) == /\ seen # <<>> /\ seen.routes = Routes
                      /\ k <= Len(seen.rs) /\ seen.rs[k].m = r.m /\ seen.rs[k].u = r.u /\ seen.res[k] # Seen(r)

BadRequests(e) ==
  LET rs == e.rs IN
  CASE PROP = "R01" -> {k \in 1..Len(rs) : ~ServedRight(rs[k])}
    [] PROP = "R02" -> {k \in 1..Len(rs) : ~MostSpecific(rs[k])}
    [] PROP = "R03" -> {k \in 1..Len(rs) : DiffersFromSeen(rs[k], k)}
    [] PROP = "R04" -> {k \in 1..Len(rs) : ~VarsRight(e.names, rs[k])}
    [] PROP = "R05" -> {k \in 1..Len(rs) : ~ServedRight(rs[k])}
    [] PROP = "R06" -> {k \in 1..Len(rs) : DiffersFromSeen(rs[k], k)}
    [] PROP = "R07" -> {k \in 1..Len(rs) : \/ rs[k].pn
                                           \/ Long[rs[k].u] /\ (rs[k].hs # <<>> \/ rs[k].c # 404)
                                           \/ ~Long[rs[k].u] /\ <<rs[k].m, Norm[rs[k].u]>> \in DOMAIN twins
                                              /\ twins[<<rs[k].m, Norm[rs[k].u]>>] # Seen(rs[k])}

(* ---------------------------- registrations ---------------------------- *)
Dup(m, i) == \E r \in table : r[1] = m /\ SameShape(P[r[2]], P[i])
MayRegister(m, i) == OKPat[i] /\ ~Dup(m, i)
BadRegistration(e) == PROP = "R06" /\ e.ok # MayRegister(e.m, e.p)

Ev == Sessions[sid].ev
Init == /\ sid \in 1..Len(Sessions)
        /\ l = 1 /\ table = {} /\ seen = <<>> /\ twins = <<>> /\ bad = <<>>
NewMux == Ev[l].e = "mux" /\ table' = {} /\ UNCHANGED <<seen, twins, bad>>
Registered ==
  /\ Ev[l].e = "reg"
  /\ table' = IF Ev[l].ok THEN table \cup {<<Ev[l].m, Ev[l].p, Ev[l].id>>} ELSE table
  /\ bad' = IF BadRegistration(Ev[l]) THEN <<sid, l, 0>> ELSE bad
  /\ UNCHANGED <<seen, twins>>
Served ==
  /\ Ev[l].e = "serve"
  /\ LET e == Ev[l]
         B == BadRequests(e)
         tw == {<<e.rs[k].m, Norm[e.rs[k].u]>> : k \in {k \in 1..Len(e.rs) : ~Long[e.rs[k].u]}}
     IN /\ bad' = IF B = {} THEN bad ELSE <<sid, l, MinOf(B)>>
        /\ seen' = IF PROP \in {"R03", "R06"} /\ seen = <<>>
                   THEN [routes |-> Routes,
                         rs |-> e.rs, res |-> [k \in 1..Len(e.rs) |-> Seen(e.rs[k])]]
                   ELSE seen
        \* twins: the first event of the session serves the canonical paths
        /\ twins' = IF PROP = "R07" /\ twins = <<>>
                    THEN [x \in tw |-> Seen(e.rs[CHOOSE k \in 1..Len(e.rs) : ~Long[e.rs[k].u] /\ <<e.rs[k].m, Norm[e.rs[k].u]>> = x])]
                    ELSE twins
  /\ UNCHANGED table
Step == /\ bad = <<>> /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED sid
        /\ (NewMux \/ Registered \/ Served)
Next == Step
Spec == Init /\ [][Next]_vars
Accepted == bad = <<>> \/ Print(ToJson([sid |-> bad[1], line |-> bad[2], req |-> bad[3],
                              pats |-> [k \in 1..Len(Ev) |-> IF Ev[k].e = "reg" THEN <<Ev[k].m, Pats[Ev[k].p], ToString(Ev[k].ok), ToString(Ev[k].id)>> ELSE <<Ev[k].e>>],
                              event |-> IF bad[3] = 0 THEN Ev[bad[2]] ELSE Ev[bad[2]].rs[bad[3]],
                              path |-> IF bad[3] = 0 THEN <<>> ELSE RawPaths[Ev[bad[2]].rs[bad[3]].u],
                              names |-> IF bad[3] = 0 THEN <<>> ELSE Ev[bad[2]].names]), FALSE)
\* every event of every session is consumed unless it is rejected
Consumed == (l <= Len(Ev) /\ bad = <<>>) => ENABLED Step
=============================================================================
