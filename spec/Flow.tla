-------------------------------- MODULE Flow --------------------------------
(***************************************************************************)
(* What the code below a mux gets to see of a request, on its way down a   *)
(* stack of layers to the handler.  A view is                              *)
(*   req    the request: method, path, raw path, query, host, ..., header  *)
(*          entries                                                        *)
(*   vals   values in the context: vals[1] of the server around the mux,   *)
(*          vals[i + 1] of layer i                                         *)
(*   who    the principal, ("": nobody)                                    *)
(*   nonce  1 when the context holds a nonce                               *)
(*   var    the value of the path variable                                 *)
(*   dl     the deadline                                                   *)
(* Layers: the bundled middlewares, which leave the request alone          *)
(* (principal and csrf add to the context), and those of an application:   *)
(*   value    adds a value to the context                                  *)
(*   header   hands down a copy of the request with one header more        *)
(*   place    hands down a copy of the request for another path and query  *)
(***************************************************************************)
EXTENDS Text
Bundled == {"cors", "csrf", "sec", "gz", "dump", "panic", "err", "json", "principal", "authz"}
Custom == {"value", "header", "place"}
Names == Bundled \cup Custom
ValueOf(i) == "v" \o ToString(i)
HeaderOf(i) == "X-Layer-" \o ToString(i) \o "[0]: h" \o ToString(i)
Someone(i) == "user" \o ToString(i)
\* what is below layer i sees, when the layer itself was given view w
Below(w, name, i) ==
  CASE name = "value" -> [w EXCEPT !.vals[i + 1] = ValueOf(i)]
    [] name = "principal" -> [w EXCEPT !.who = Someone(i)]
    [] name = "csrf" -> [w EXCEPT !.nonce = 1]
    [] name = "header" -> [w EXCEPT !.req.hdr = @ \cup {HeaderOf(i)}]
    [] name = "place" -> [w EXCEPT !.req.path = "/other" \o ToString(i), !.req.raw = "", !.req.query = "o=" \o ToString(i)]
    [] OTHER -> w
\* nobody is authorized without a principal; a nonce is used once
Possible(names) == /\ \A i \in 1..Len(names) : names[i] = "authz" => \E j \in 1..(i - 1) : names[j] = "principal"
                   /\ Cardinality({i \in 1..Len(names) : names[i] = "csrf"}) <= 1
\* looking for the nonce among the fields of a form reads the form, which is then available as such
MayReadForm(names, m, type, inHeader) ==
  /\ \E i \in 1..Len(names) : names[i] = "csrf"
  /\ m \notin {"GET", "HEAD", "OPTIONS", "TRACE"}
  /\ type \in {"form", "multi"} /\ ~inHeader
=============================================================================
