------------------------------ MODULE MuxTree -------------------------------
(***************************************************************************)
(* A tree of muxes sharing one route table.                                *)
(*   muxes   sequence of [prefix |-> text, mids |-> sequence of numbers]   *)
(*   handles sequence of mux numbers: an empty prefix names the same mux   *)
(*   routes  set of [m |-> method, id, p |-> parsed pattern, chain |->     *)
(*           the middlewares that wrap the handler, outermost first]       *)
(* A middleware is a number, 0 is a nil one.                               *)
(***************************************************************************)
EXTENDS Routing
JoinPaths(a, b) ==
  IF a = "" THEN b ELSE IF b = "" THEN a
  ELSE (IF EndsWith(a, "/") THEN Upto(a, Len(a) - 1) ELSE a) \o "/" \o (IF StartsWith(b, "/") THEN From(b, 2) ELSE b)
NonNil(ms) == SelectSeq(ms, LAMBDA x : x # 0)
Root == [muxes |-> <<[prefix |-> "", mids |-> <<>>]>>, handles |-> <<1>>, routes |-> {}]
Mux(s, i) == s.muxes[s.handles[i]]
Derive(s, mux) == [s EXCEPT !.muxes = Append(@, mux), !.handles = Append(@, Len(s.muxes) + 1)]
Clone(s, i) == Derive(s, Mux(s, i))
Prefix(s, i, p) == IF p = "" THEN [s EXCEPT !.handles = Append(@, s.handles[i])]
                   ELSE Derive(s, [Mux(s, i) EXCEPT !.prefix = JoinPaths(@, p)])
Common(s, i, ms) == [s EXCEPT !.muxes[s.handles[i]].mids = @ \o ms]
Full(s, i, path) == JoinPaths(Mux(s, i).prefix, path)
MayHandle(s, i, me, path, ci) ==
  LET f == Full(s, i, path) IN WellFormed(f) /\ Registrable(s.routes, me, ParsePattern(f, ci))
Handle(s, i, me, path, own, id, ci) ==
  [s EXCEPT !.routes = @ \cup {[m |-> me, id |-> id, p |-> ParsePattern(Full(s, i, path), ci),
                                chain |-> NonNil(Mux(s, i).mids \o own)]}]
\* what a request through the handler of route r looks like: middlewares enter in order, leave in reverse
Around(r) == LET c == r.chain n == Len(r.chain) IN
  [k \in 1..(2 * n + 1) |-> IF k <= n THEN c[k] ELSE IF k = n + 1 THEN 0 ELSE -c[2 * n + 2 - k]]
=============================================================================
