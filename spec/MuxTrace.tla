------------------------------ MODULE MuxTrace ------------------------------
(***************************************************************************)
(* Recorded histories over a tree of muxes.                                *)
(*   clone i | prefix i p | common i ms | handle i m path own id ok        *)
(*   debug i           EnableDebugEndpoints on mux i                       *)
(*   serve rs          requests: [m, u, c, id, seq]: method, path texts,   *)
(*                     status, registration that ran (0: none), what was   *)
(*                     entered (n), handled (0) and left (-n)              *)
(*   settings same     whether all muxes show the root's settings          *)
(***************************************************************************)
EXTENDS MuxTree, Json
CONSTANTS PROP, TraceFile
Trace == ndJsonDeserialize(TraceFile)
CI == Trace[1].ci
Sessions == SubSeq(Trace, 2, Len(Trace))
VARIABLES sid, l, st, bad
vars == <<sid, l, st, bad>>
Ev == Sessions[sid].ev
E == Ev[l]
DebugPaths == <<"/debug/pprof/", "/debug/pprof/allocs", "/debug/pprof/block", "/debug/pprof/goroutine", "/debug/pprof/heap",
  "/debug/pprof/mutex", "/debug/pprof/threadcreate", "/debug/pprof/cmdline", "/debug/pprof/profile", "/debug/pprof/symbol",
  "/debug/pprof/trace", "/debug/vars">>
WithDebug(s, i) == [s EXCEPT !.routes = @ \cup {[m |-> "GET", id |-> -k, p |-> ParsePattern(Full(s, i, DebugPaths[k]), CI), chain |-> <<>>] : k \in 1..Len(DebugPaths)}]
MayDebug(s, i) == \A k \in 1..Len(DebugPaths) : MayHandle(s, i, "GET", DebugPaths[k], CI)
Init == sid \in 1..Len(Sessions) /\ l = 1 /\ st = Root /\ bad = <<>>
Route(id) == CHOOSE r \in st.routes : r.id = id
\* M01: whoever handled the request, its own middlewares were around it
ChainOK(r) == r.id > 0 => /\ \E x \in st.routes : x.id = r.id
                          /\ r.seq = Around(Route(r.id))
\* M02: the request is answered where the concatenated prefixes say
PlaceOK(r) == LET W == Winners(st.routes, r.m, RequestPath(r.u, CI)) IN
  IF W = {} THEN r.id = 0 /\ r.c = 404
  ELSE \E w \in W : IF w.id > 0 THEN r.id = w.id ELSE r.id = 0 /\ r.c = 200
BadReq == {k \in 1..Len(E.rs) : IF PROP = "M01" THEN ~ChainOK(E.rs[k]) ELSE ~PlaceOK(E.rs[k])}
Ok == CASE E.e = "serve" -> BadReq = {}
        [] E.e = "handle" -> PROP = "M02" => E.ok = MayHandle(st, E.i, E.m, E.path, CI)
        [] E.e = "debug" -> PROP = "M02" => E.ok = MayDebug(st, E.i)
        [] E.e = "settings" -> E.same = 1
        [] OTHER -> TRUE
After == CASE E.e = "clone" -> Clone(st, E.i)
           [] E.e = "prefix" -> Prefix(st, E.i, E.p)
           [] E.e = "common" -> Common(st, E.i, E.ms)
           [] E.e = "handle" -> IF E.ok THEN Handle(st, E.i, E.m, E.path, E.own, E.id, CI) ELSE st
           [] E.e = "debug" -> IF E.ok THEN WithDebug(st, E.i) ELSE st
           [] OTHER -> st
Next == /\ bad = <<>> /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED sid
        /\ bad' = IF Ok THEN <<>> ELSE <<sid, l>>
        /\ st' = After
Spec == Init /\ [][Next]_vars
Accepted == bad = <<>> \/ Print(ToJson([sid |-> sid, line |-> bad[2], event |-> IF Ev[bad[2]].e = "serve" THEN <<"request", Ev[bad[2]].rs[1]>> ELSE <<Ev[bad[2]]>>,
              routes |-> st.routes, muxes |-> st.muxes, history |-> [k \in 1..(bad[2] - 1) |-> IF Ev[k].e = "serve" THEN [e |-> "serve"] ELSE Ev[k]]]), FALSE)
=============================================================================
