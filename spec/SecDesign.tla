----------------------------- MODULE SecDesign ------------------------------
(***************************************************************************)
(* Where the value of a header is computed: when the middleware is created *)
(* (EAGER) or by the requests that need it. The value is a text of two     *)
(* words (address and length) that threads read and write one by one.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Requests, EAGER
VARIABLES cell, pc, buf, got
vars == <<cell, pc, buf, got>>
Value == <<"addr", "len">>
Init == /\ cell = IF EAGER THEN Value ELSE <<"", "">>
        /\ pc = [r \in Requests |-> "look"]
        /\ buf = [r \in Requests |-> <<"", "">>]
        /\ got = [r \in Requests |-> <<>>]
Set(r, p) == pc' = [pc EXCEPT ![r] = p]
\* an empty text has no length
Look(r) == /\ pc[r] = "look"
           /\ Set(r, IF cell[2] = "" THEN "write1" ELSE "read1")
           /\ UNCHANGED <<cell, buf, got>>
Write1(r) == pc[r] = "write1" /\ Set(r, "write2") /\ cell' = [cell EXCEPT ![2] = "len"] /\ UNCHANGED <<buf, got>>
Write2(r) == pc[r] = "write2" /\ Set(r, "read1") /\ cell' = [cell EXCEPT ![1] = "addr"] /\ UNCHANGED <<buf, got>>
Read1(r) == pc[r] = "read1" /\ Set(r, "read2") /\ buf' = [buf EXCEPT ![r][1] = cell[1]] /\ UNCHANGED <<cell, got>>
Read2(r) == /\ pc[r] = "read2" /\ Set(r, "done")
            /\ got' = [got EXCEPT ![r] = <<buf[r][1], cell[2]>>] /\ UNCHANGED <<cell, buf>>
Next == \E r \in Requests : Look(r) \/ Write1(r) \/ Write2(r) \/ Read1(r) \/ Read2(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* every response carries the configured value
Whole == \A r \in Requests : pc[r] = "done" => got[r] = Value
\* once computed, nothing writes any more: no two requests race
Quiet == [][EAGER => cell' = cell]_vars
Answered == <>(\A r \in Requests : pc[r] = "done")
=============================================================================
