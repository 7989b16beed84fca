----------------------------- MODULE CacheTrace -----------------------------
(***************************************************************************)
(* Recorded histories: tick d | call t op | ret t r.  The state is the set *)
(* of configurations in which the history so far is explained; a sequential*)
(* history is the special case of a return right after its call.           *)
(*   many ks d     additions of all these keys, one after the other        *)
(*   seen ks       those of the keys ever added that are contained now     *)
(***************************************************************************)
EXTENDS Cache, Json
CONSTANTS PROP, TraceFile
Sessions == ndJsonDeserialize(TraceFile)
VARIABLES sid, l, now, cfgs, bad
vars == <<sid, l, now, cfgs, bad>>
Ev == Sessions[sid].ev
Init == sid \in 1..Len(Sessions) /\ l = 1 /\ now = 0 /\ cfgs = Start /\ bad = <<>>
Tick == Ev[l].e = "tick" /\ now' = now + Ev[l].d /\ cfgs' = Close(Close(cfgs, now), now') 
Call == Ev[l].e = "call" /\ cfgs' = Called(cfgs, Ev[l].t, Ev[l]) /\ UNCHANGED now
Ret == Ev[l].e = "ret" /\ cfgs' = Returned(cfgs, Ev[l].t, Ev[l].r, now) /\ UNCHANGED now
\* (sequential sessions: there is one configuration)
Many == Ev[l].e = "many" /\ UNCHANGED now
        /\ LET K == SeqSet(Ev[l].ks) IN
           cfgs' = {[g EXCEPT !.c = [x \in DOMAIN g.c \cup K |-> IF x \in K THEN now + Ev[l].d ELSE g.c[x]]] : g \in cfgs}
Seen == Ev[l].e = "seen" /\ UNCHANGED now
        /\ LET K == SeqSet(Ev[l].ks) IN cfgs' = {g \in cfgs : {x \in DOMAIN g.c : now < g.c[x]} = K}
Next == /\ bad = <<>> /\ l <= Len(Ev) /\ (Tick \/ Call \/ Ret \/ Many \/ Seen)
        /\ l' = l + 1 /\ UNCHANGED sid
        /\ bad' = IF cfgs' = {} THEN <<sid, l>> ELSE <<>>
Spec == Init /\ [][Next]_vars
Accepted == bad = <<>> \/ Print(ToJson([sid |-> bad[1], line |-> bad[2], event |-> Ev[bad[2]], history |-> Ev]), FALSE)
=============================================================================
