---------------------------- MODULE SetupDesign -----------------------------
(***************************************************************************)
(* Diagnostics under prefixes. Muxes with growing prefixes share one       *)
(* router; the endpoints are enabled on some of them. An implementation    *)
(* may let every endpoint know what it serves (BOUND), or let one handler  *)
(* tell from the whole request path, as the index of net/http/pprof does,  *)
(* which knows no prefixes: then Named is violated.                        *)
(* Also checked: data can not break out of the text of a template.         *)
(***************************************************************************)
EXTENDS Setup
CONSTANTS BOUND, Prefixes, MaxMuxes, DataLen
VARIABLES st, on
vars == <<st, on>>
Init == st = Root /\ on = {}
Next == \/ /\ Len(st.handles) < MaxMuxes /\ UNCHANGED on
           /\ \E i \in 1..Len(st.handles) : st' = Clone(st, i) \/ \E p \in Prefixes : st' = Prefix(st, i, p)
        \/ /\ UNCHANGED st
           /\ \E i \in 1..Len(st.handles) : on' = on \cup {Mux(st, i).prefix}
Spec == Init /\ [][Next]_vars
Standard(path) == IF \E k \in 1..Len(Diagnostics) : Diagnostics[k][1] = path
                  THEN Diagnostics[CHOOSE k \in 1..Len(Diagnostics) : Diagnostics[k][1] = path][2] ELSE "index"
Routed(path) == {k \in 1..Len(Diagnostics) : \E p \in on : JoinPaths(p, Diagnostics[k][1]) = path}
Answer(path) == IF Routed(path) = {} THEN ""
                ELSE IF BOUND THEN Diagnostics[CHOOSE k \in Routed(path) : TRUE][2] ELSE Standard(path)
Named == \A i \in 1..Len(st.handles), k \in 1..Len(Diagnostics) :
  Answer(JoinPaths(Mux(st, i).prefix, Diagnostics[k][1])) = Served(on, Mux(st, i).prefix, k, "GET")
Nowhere == on = {} => \A k \in 1..Len(Diagnostics) : Served(on, "", k, "GET") = ""
\* no character with a meaning in HTML is left, and different data is shown differently
RECURSIVE TextsOf(_)
TextsOf(n) == IF n = 0 THEN {""} ELSE TextsOf(n - 1) \cup {a \o b : a \in TextsOf(n - 1), b \in {"a", "<", "&", "\"", "'", "+", ";"}}
ASSUME \A s \in TextsOf(DataLen) : \A x \in {"<", ">", "\"", "'", "+"} : ~Contains(HtmlText(s), x)
ASSUME \A s, t \in TextsOf(DataLen) : HtmlText(s) = HtmlText(t) => s = t
=============================================================================
