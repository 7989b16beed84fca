---------------------------- MODULE StackDesign -----------------------------
(* the stack machine, for every stack of at most MaxLayers layers *)
EXTENDS Stack
CONSTANTS MaxLayers
VARIABLES stack, h, d, o
vars == <<stack, h, d, o>>
None == [t |-> "none", c |-> "", x |-> "", by |-> "", s |-> 0]
Faults == {[c |-> "unauth", x |-> "u", p |-> 0], [c |-> "other", x |-> "o", p |-> 0], [c |-> "", x |-> "", p |-> 1]}
Plain == {[l |-> l, at |-> "", c |-> "", x |-> "", p |-> 0] : l \in {"err", "json", "panic", "pass"}}
Layers == Plain \cup {[l |-> "fail", at |-> a, c |-> f.c, x |-> f.x, p |-> f.p] : a \in {"before", "after"}, f \in Faults}
Handlers == {[t |-> "resp", s |-> 201, c |-> "", x |-> ""], [t |-> "err", s |-> 0, c |-> "badreq", x |-> "b"], [t |-> "panic", s |-> 0, c |-> "", x |-> ""]}
Init == stack \in UNION {[1..n -> Layers] : n \in 0..MaxLayers} /\ h \in Handlers /\ d = 0 /\ o = None
Down == /\ o = None
        /\ IF d = Len(stack) THEN d' = d /\ o' = HandlerOutcome(h)
           ELSE IF FailsBefore(stack[d + 1]) THEN d' = d /\ o' = Raised(stack[d + 1])
           ELSE d' = d + 1 /\ o' = o
        /\ UNCHANGED <<stack, h>>
Up == o # None /\ d > 0 /\ o' = Through(stack[d], o) /\ d' = d - 1 /\ UNCHANGED <<stack, h>>
Done == o # None /\ d = 0 /\ UNCHANGED vars
Next == Down \/ Up \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Down \/ Up)
Finished == o # None /\ d = 0
Outermost(K) == LET S == {i \in 1..Len(stack) : stack[i].l \in K} IN IF S = {} THEN 0 ELSE MinOf(S)
Clean(from) == \A i \in 1..Len(stack) : i < from => stack[i].l # "fail"
\* with recovery outside of everything that fails, nothing escapes
NothingEscapes == (Finished /\ Outermost({"panic"}) > 0 /\ Clean(Outermost({"panic"}))) => o.t # "panic"
\* an error middleware outside of everything that fails leaves no error for the router, and with
\* recovery inside it (but outside the failing code) always answers
AlwaysAnswered ==
  LET e == Outermost({"err", "json"})
      r == Outermost({"panic"})
  IN Finished =>
       /\ (e > 0 /\ Clean(e) /\ (r = 0 \/ r > e)) => o.t # "err"
       /\ (e > 0 /\ r > e /\ Clean(r)) => o.t = "resp"
\* neither middleware alters a successful response
Transparent == (Finished /\ h.t = "resp" /\ Clean(Len(stack) + 1)) => o = HandlerOutcome(h)
\* a panic never becomes anything but a 500
PanicIs500 == (Finished /\ h.t = "panic" /\ Clean(Len(stack) + 1) /\ o.t = "resp") => o.s = 500
Terminates == <>Finished
=============================================================================
