------------------------------- MODULE Stack --------------------------------
(***************************************************************************)
(* A request travelling down a stack of layers to the handler and back up. *)
(* Layers:                                                                 *)
(*   err, json   error middleware (custom supplier, JSON variant)          *)
(*   panic       panic recovery                                            *)
(*   pass        anything that does not interfere                          *)
(*   fail        raises an error or panics, before or after the next layer *)
(* What comes back up from a layer is an outcome                           *)
(*   [t |-> "resp", by |-> who made it, s |-> status, x |-> error text]    *)
(*   [t |-> "err", c |-> class, x |-> error text]   [t |-> "panic"]        *)
(***************************************************************************)
EXTENDS Text
StatusOf(c) ==
  CASE c = "badreq" -> 400 [] c = "notfound" -> 404 [] c = "unauth" -> 401
    [] c \in {"wrongcred", "denied"} -> 403 [] OTHER -> 500
Resp(by, s, x) == [t |-> "resp", c |-> "", x |-> x, by |-> by, s |-> s]
Err(c, x) == [t |-> "err", c |-> c, x |-> x, by |-> "", s |-> 0]
Panic == [t |-> "panic", c |-> "", x |-> "", by |-> "", s |-> 0]
Raised(f) == IF f.p = 1 THEN Panic ELSE Err(f.c, f.x)
FailsBefore(layer) == layer.l = "fail" /\ layer.at = "before"
\* the text of the error a recovered panic becomes is not specified
Unspecified == "*"
\* what layer i makes of the outcome o of what it encloses
Through(layer, o) ==
  CASE layer.l \in {"err", "json"} -> IF o.t = "err" THEN Resp(layer.l, StatusOf(o.c), o.x) ELSE o
    [] layer.l = "panic" -> IF o.t = "panic" THEN Err("other", Unspecified) ELSE o
    [] layer.l = "fail" -> IF layer.at = "after" /\ o.t # "panic" THEN Raised(layer) ELSE o
    [] OTHER -> o
HandlerOutcome(h) == IF h.t = "resp" THEN Resp("handler", h.s, "") ELSE IF h.t = "err" THEN Err(h.c, h.x) ELSE Panic
\* what the client sees: [s |-> status, by |-> whose response, x |-> error text, log |-> errors logged], or the panic escapes
Client(o) ==
  CASE o.t = "resp" -> [t |-> "answered", s |-> o.s, by |-> o.by, x |-> o.x, logged |-> 0]
    [] o.t = "err" -> [t |-> "answered", s |-> 500, by |-> "router", x |-> o.x, logged |-> 1]
    [] OTHER -> [t |-> "escaped", s |-> 0, by |-> "", x |-> "", logged |-> 0]
=============================================================================
