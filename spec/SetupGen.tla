------------------------------ MODULE SetupGen ------------------------------
(* every way to ask for a mux, over every small set of template files *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
CONSTANT OutFile
Plain == [res |-> 0, tmpl |-> "", pattern |-> "", given |-> 0, log |-> 0]
Config == [ctor : {"config"}, res : {0, 1}, tmpl : {"", "own", "nil"},
           pattern : {"", "views/*.html", "views/p?.tmpl", "views/*", "views/page.html", "none/*.html", "views/[", "*/*.tmpl"},
           given : {0, 1}, log : {0, 1}, files : {"good", "broken", "none"}]
Cases == {c \in Config : c.res = 1 \/ (c.tmpl = "" /\ c.pattern = "" /\ c.files = "good")}
   \cup {[ctor |-> "plain", files |-> "none"] @@ Plain}
   \cup {[ctor |-> "templates", files |-> "good"] @@ [Plain EXCEPT !.res = 1]}
ASSUME JsonSerialize(OutFile, SetToSeq(Cases))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
