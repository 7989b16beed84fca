----------------------------- MODULE FlowDesign -----------------------------
(* A request going down every stack of at most MaxLayers layers.           *)
EXTENDS Flow
CONSTANTS MaxLayers, Careless      \* Careless: a layer changes the request it was given, not a copy
VARIABLES names, i, w, sent, orig
vars == <<names, i, w, sent, orig>>
Req0 == [m |-> "POST", path |-> "/P/x", raw |-> "", query |-> "q=1", hdr |-> {"A[0]: a", "A[1]: b"}]
View0(n) == [req |-> Req0, vals |-> [k \in 1..(n + 1) |-> IF k = 1 THEN "outer" ELSE ""], who |-> "", nonce |-> 0, var |-> "x", dl |-> "later"]
Init == /\ names \in {s \in UNION {[1..n -> Names] : n \in 0..MaxLayers} : Possible(s)}
        /\ i = 0 /\ w = View0(Len(names)) /\ sent = Req0 /\ orig = Req0
Enter == /\ i < Len(names)
         /\ i' = i + 1
         /\ w' = Below(w, names[i + 1], i + 1)
         /\ orig' = IF Careless /\ names[i + 1] \in {"header", "place"} THEN w'.req ELSE orig
         /\ UNCHANGED <<names, sent>>
Done == i = Len(names) /\ UNCHANGED vars
Next == Enter \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Enter)
AtHandler == i = Len(names)
Has(S) == \E k \in 1..Len(names) : names[k] \in S
\* bundled middlewares leave no mark on the request
AsSent == (AtHandler /\ ~Has(Custom)) => w.req = sent
HeadersStay == sent.hdr \subseteq w.req.hdr /\ w.req.m = sent.m
\* whatever a layer put into the context is there below it, and nothing else
ValuesStay == AtHandler => \A k \in 1..Len(names) : w.vals[k + 1] = IF names[k] = "value" THEN ValueOf(k) ELSE ""
OuterStays == w.vals[1] = "outer" /\ w.dl = "later" /\ w.var = "x"
LastPrincipal == AtHandler => w.who = IF Has({"principal"}) THEN Someone(MaxOf({k \in 1..Len(names) : names[k] = "principal"})) ELSE ""
NonceBelow == AtHandler => (w.nonce = 1) = Has({"csrf"})
\* what is around the mux finds its request unchanged
Untouched == orig = sent
Terminates == <>AtHandler
=============================================================================
