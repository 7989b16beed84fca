----------------------------- MODULE PoolTrace ------------------------------
(***************************************************************************)
(* Histories of responses that share the recycling pools.                  *)
(*   new r kind put        a response with what its creator supplied       *)
(*   put r h c             put into it: a header, a cookie                 *)
(*   write r h c           written: what came out, of headers and cookies  *)
(*   fail r h c            its write failed: what came out                 *)
(*   see r h c             what its accessors show                         *)
(*   lend h c              a map from the pool: what is in it              *)
(* h and c are sequences of [k, v]; all values ever put are different.     *)
(***************************************************************************)
EXTENDS Text, Json
CONSTANTS PROP, TraceFile
Sessions == ndJsonDeserialize(TraceFile)
VARIABLES sid, l, bad, all, now
vars == <<sid, l, bad, all, now>>
Ev == Sessions[sid].ev
Pairs(s) == {<<s[i].k, s[i].v>> : i \in 1..Len(s)}
RECURSIVE Put(_, _)
Put(f, s) == IF s = <<>> THEN f
             ELSE Put([x \in DOMAIN f \cup {s[1].k} |-> IF x = s[1].k THEN s[1].v ELSE f[x]], Tail(s))
Is(f) == {<<k, f[k]>> : k \in DOMAIN f}
Slot0 == [h |-> <<>>, c |-> <<>>, done |-> FALSE]
\* written before: what was put since, and nothing another response was given
Within(got, want, every, done) == IF done THEN Is(want) \subseteq got /\ got \subseteq every ELSE got = Is(want)
Emitted(e) == LET s == now[e.r] IN
  /\ Within(Pairs(e.h), s.h, all[e.r].h, s.done) /\ Cardinality(Pairs(e.h)) = Len(e.h)
  /\ Within(Pairs(e.c), s.c, all[e.r].c, s.done) /\ Cardinality(Pairs(e.c)) = Len(e.c)
Ok(e) ==
  CASE e.e \in {"new", "put"} -> TRUE
    [] e.e = "lend" -> e.h = <<>> /\ e.c = <<>>
    [] e.e \in {"write", "see"} -> e.res = "ok" /\ Emitted(e)
    [] e.e = "fail" -> e.res # "ok" /\ Pairs(e.h) \subseteq all[e.r].h /\ Pairs(e.c) \subseteq all[e.r].c
    [] OTHER -> FALSE
Upd(f, r, x) == [i \in DOMAIN f \cup {r} |-> IF i = r THEN x ELSE f[i]]
Init == sid \in 1..Len(Sessions) /\ l = 1 /\ bad = <<>> /\ all = <<>> /\ now = <<>>
Next ==
  /\ bad = <<>> /\ l <= Len(Ev)
  /\ l' = l + 1 /\ UNCHANGED sid
  /\ LET e == Ev[l] IN
     /\ bad' = IF Ok(e) THEN <<>> ELSE <<sid, l>>
     /\ CASE e.e = "new" -> now' = Upd(now, e.r, [Slot0 EXCEPT !.h = Put(<<>>, e.h), !.c = Put(<<>>, e.c)]) /\ all' = Upd(all, e.r, [h |-> Pairs(e.h), c |-> Pairs(e.c)])
          [] e.e = "put" -> /\ now' = Upd(now, e.r, [now[e.r] EXCEPT !.h = Put(@, e.h), !.c = Put(@, e.c)])
                            /\ all' = Upd(all, e.r, [h |-> all[e.r].h \cup Pairs(e.h), c |-> all[e.r].c \cup Pairs(e.c)])
          [] e.e \in {"write", "fail"} -> now' = Upd(now, e.r, [h |-> <<>>, c |-> <<>>, done |-> TRUE]) /\ UNCHANGED all
          [] OTHER -> UNCHANGED <<all, now>>
Spec == Init /\ [][Next]_vars
Accepted == bad = <<>> \/ Print(ToJson([sid |-> bad[1], line |-> bad[2], event |-> Sessions[bad[1]].ev[bad[2]], slots |-> now]), FALSE)
=============================================================================
