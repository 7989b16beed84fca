----------------------------- MODULE SetupTrace -----------------------------
(***************************************************************************)
(* Recorded set-ups; a session: [c, fs, ev], the events:                   *)
(*   new ok shown        a mux was created (root: handle 1) or refused     *)
(*   clone i | prefix i p  a further handle                                *)
(*   shows i shown tmpl  the settings a mux shows, the template it hands   *)
(*                       out: none, own, nil, files                        *)
(*   render i n data status ct body logged   a response made from it       *)
(*   fail i status logged    a handler that returns an error               *)
(*   debug i             enables the debug endpoints                       *)
(*   diag i k method got status   what the k-th of them serves below the   *)
(*                       prefix of mux i                                   *)
(*   logged: how often the log function (or without one the standard       *)
(*           logger) was told about it, strays: about anything else        *)
(***************************************************************************)
EXTENDS Setup, Json
CONSTANTS PROP, TraceFile
Sessions == ndJsonDeserialize(TraceFile)
VARIABLES sid, l, st, on, bad
vars == <<sid, l, st, on, bad>>
C == Sessions[sid].c
Fs == Sessions[sid].fs
Ev == Sessions[sid].ev
E == Ev[l]
Init == sid \in 1..Len(Sessions) /\ l = 1 /\ st = Root /\ on = {} /\ bad = <<>>
RenderOK == LET w == Rendered(C, Fs, E.n, E.data) IN
  IF w.ok THEN E.status = E.want /\ E.body = w.body /\ E.ct = w.ct /\ E.logged = 0
  ELSE E.logged = 1
DiagOK == LET w == Served(on, Mux(st, E.i).prefix, E.k, E.method) IN
  IF w = "" THEN E.got = "" /\ E.status = 404 ELSE E.got = w /\ E.status = 200
Ok == CASE E.e = "new" -> E.ok = (IF MayStart(C, Fs) THEN 1 ELSE 0)
        [] E.e = "shows" -> E.shown = Shown(C) /\ E.tmpl = TemplateKind(C)
        [] E.e = "render" -> RenderOK /\ E.strays = 0
        [] E.e = "fail" -> E.status = 500 /\ E.logged = 1 /\ E.strays = 0
        [] E.e = "diag" -> DiagOK
        [] OTHER -> TRUE
Next == /\ bad = <<>> /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED sid
        /\ bad' = IF Ok THEN <<>> ELSE <<sid, l>>
        /\ st' = CASE E.e = "clone" -> Clone(st, E.i) [] E.e = "prefix" -> Prefix(st, E.i, E.p) [] OTHER -> st
        /\ on' = IF E.e = "debug" THEN on \cup {Mux(st, E.i).prefix} ELSE on
Spec == Init /\ [][Next]_vars
Accepted == bad = <<>> \/ Print(ToJson([sid |-> sid, line |-> bad[2], event |-> Ev[bad[2]], config |-> C, enabled |-> on,
              history |-> [k \in 1..(bad[2] - 1) |-> IF Ev[k].e \in {"clone", "prefix", "debug"} THEN Ev[k] ELSE [e |-> Ev[k].e]]]), FALSE)
=============================================================================
