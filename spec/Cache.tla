------------------------------- MODULE Cache --------------------------------
(***************************************************************************)
(* The in-memory cache as an abstract object: key -> moment at which it    *)
(* expires.  Time is a number; an addition at time t with lifetime d is    *)
(* contained at every moment before t + d.                                 *)
(***************************************************************************)
EXTENDS Text
Empty == <<>>
Holds(c, k, now) == k \in DOMAIN c /\ now < c[k]
After(c, op, now) ==
  CASE op.o = "add" -> [x \in DOMAIN c \cup {op.k} |-> IF x = op.k THEN now + op.d ELSE c[x]]
    [] op.o = "remove" -> [x \in DOMAIN c \ {op.k} |-> c[x]]
    [] OTHER -> c
Result(c, op, now) == IF op.o = "contains" THEN (IF Holds(c, op.k, now) THEN 1 ELSE 0) ELSE 0

(* Concurrent histories.  A configuration is a possible abstract cache      *)
(* together with the calls that have not returned yet: those that already   *)
(* took effect (with the result they will return) and those that have not.  *)
Effect(cfg, p, now) == [c |-> After(cfg.c, p.op, now),
                        todo |-> cfg.todo \ {p},
                        done |-> cfg.done \cup {[t |-> p.t, r |-> Result(cfg.c, p.op, now)]}]
RECURSIVE Close(_, _)
Close(cfgs, now) ==
  LET more == cfgs \cup UNION {{Effect(g, p, now) : p \in g.todo} : g \in cfgs}
  IN IF more = cfgs THEN cfgs ELSE Close(more, now)
Called(cfgs, t, op) == {[g EXCEPT !.todo = @ \cup {[t |-> t, op |-> op]}] : g \in cfgs}
Returned(cfgs, t, r, now) ==
  {[g EXCEPT !.done = {d \in @ : d.t # t}] : g \in {g \in Close(cfgs, now) : [t |-> t, r |-> r] \in g.done}}
Start == {[c |-> Empty, todo |-> {}, done |-> {}]}
=============================================================================
