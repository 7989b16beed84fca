----------------------------- MODULE FlowTrace ------------------------------
(***************************************************************************)
(* Recorded requests.  A session has names (the layers), m, type and body  *)
(* of what was sent, form (its fields, if it is a form), inh (the nonce is *)
(* in a header), kind (of handler: gofre, or net/http adapted) and ev:     *)
(*   in   req outer dl     as the server around the mux got it             *)
(*   down i view           what layer i was given (Len + 1: the handler)   *)
(*   handler ..            what the handler itself found: view, body,      *)
(*                         form, rout (the value of the server around, in  *)
(*                         the context of the request), c0 c1 (whether the *)
(*                         context was over, before and after the client   *)
(*                         had gone)                                       *)
(*   write view c0 c1      what a response of the handler finds when it is *)
(*                         written: the context of the handler, the        *)
(*                         request, ... (late: the client goes by then)    *)
(*   out  req              the request the server around has at the end    *)
(***************************************************************************)
EXTENDS Flow, Json
CONSTANTS PROP, TraceFile
Sessions == ndJsonDeserialize(TraceFile)
VARIABLES sid, l, i, w, bad
vars == <<sid, l, i, w, bad>>
S == Sessions[sid]
Ev == S.ev
E == Ev[l]
N == Len(S.names)
Req(r) == [r EXCEPT !.hdr = SeqSet(r.hdr)]
View(v) == [v EXCEPT !.req = Req(v.req)]
None == [req |-> <<>>, vals |-> <<>>, who |-> "", nonce |-> 0, var |-> "", dl |-> ""]
Init == sid \in 1..Len(Sessions) /\ l = 1 /\ i = 0 /\ w = None /\ bad = <<>>
First(e) == [req |-> Req(e.req), vals |-> [k \in 1..(N + 1) |-> IF k = 1 THEN e.outer ELSE ""], who |-> "", nonce |-> 0, var |-> S.var, dl |-> e.dl]
InOK == l = 1 /\ E.req.m = S.m
DownOK == l > 1 /\ E.i = i + 1 /\ View(E.view) = w
BodyOK(e) == \/ e.body = S.body
             \/ /\ MayReadForm(S.names, S.m, S.type, S.inh = 1)
                /\ e.body = ""
                \* an adapted handler may have another request than the one whose form was read
                /\ \/ SeqSet(S.form) \subseteq SeqSet(e.form)
                   \/ S.kind # "gofre" /\ \E k \in 1..N : S.names[k] \in {"header", "place"}
Sent == Req(Ev[1].req)
HandlerOK == /\ i = N + 1
             /\ IF S.kind = "gofre" THEN View(E.view) = w
                ELSE Req(E.view.req) \in {Sent, w.req}     \* an adapted handler has no other view than its request
             /\ BodyOK(E)
             /\ MayReadForm(S.names, S.m, S.type, S.inh = 1) \/ Len(E.form) = 0
             /\ E.rout = Ev[1].outer /\ E.c0 = 0 /\ E.c1 = 1 - S.late
\* the response of a handler is written with the context of the handler still there
WriteOK == /\ i = N + 2 /\ S.kind = "gofre"
           /\ \E q \in {Sent, w.req} : View(E.view) = [w EXCEPT !.req = q]
           /\ E.c0 = 1 - S.late /\ E.c1 = 1
Steps == IF S.kind = "gofre" THEN 3 ELSE 2
OutOK == i = N + Steps /\ Req(E.req) = Sent
Ok == CASE E.e = "in" -> InOK [] E.e = "down" -> DownOK [] E.e = "handler" -> HandlerOK [] E.e = "write" -> WriteOK [] E.e = "out" -> OutOK [] OTHER -> FALSE
Next == /\ bad = <<>> /\ l <= Len(Ev)
        /\ l' = l + 1 /\ UNCHANGED sid
        /\ bad' = IF Ok THEN <<>> ELSE <<sid, l>>
        /\ i' = IF E.e = "in" THEN 0 ELSE i + 1
        /\ w' = CASE E.e = "in" -> First(E)
                  [] E.e = "down" /\ Ok /\ E.i <= N -> Below(w, S.names[E.i], E.i)
                  [] OTHER -> w
Spec == Init /\ [][Next]_vars
\* the request gets through and is back at the end
Whole == Ev[Len(Ev)].e = "out" /\ Len(Ev) = N + Steps + 2
Accepted == (bad = <<>> /\ Whole) \/ Print(ToJson([sid |-> sid, at |-> bad, expected |-> w, event |-> IF bad = <<>> THEN <<>> ELSE <<Ev[bad[2]]>>, session |-> S]), FALSE)
=============================================================================
