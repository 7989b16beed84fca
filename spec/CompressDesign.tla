--------------------------- MODULE CompressDesign ---------------------------
(***************************************************************************)
(* The compressing writer between a handler and a connection: it decides   *)
(* once, when the header is written, whether the body is coded, and hands  *)
(* over everything it holds at a flush and at the end. DECIDE = "always"   *)
(* starts coding whatever the header says, FINISH = FALSE forgets the end. *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Max, DECIDE, FINISH
VARIABLES wrote,    \* bytes the handler has written that the client is to get
          held,     \* bytes still inside the compressor
          wire,     \* bytes on the connection
          coded,    \* whether those on the connection are coded
          hdr,      \* <<>> or <<status, declared coding>> once written
          own,      \* coding the handler has declared so far
          declared, \* the coding the client reads in the header
          closed, n
vars == <<wrote, held, wire, coded, hdr, own, declared, closed, n>>
Init == wrote = 0 /\ held = 0 /\ wire = 0 /\ coded = FALSE /\ hdr = <<>> /\ own = "" /\ declared = "" /\ closed = FALSE /\ n = 0
NoBody(s) == s \in {204, 304}
\* the header goes out
SendHead(s) == IF hdr # <<>> THEN UNCHANGED <<hdr, coded, declared>>
           ELSE /\ hdr' = <<s, own>>
                /\ coded' = (DECIDE = "always" \/ (own = "" /\ ~NoBody(s)))
                /\ declared' = IF coded' /\ ~NoBody(s) THEN (IF own = "" THEN "gzip" ELSE own) ELSE own
Step == n' = n + 1 /\ n < Max /\ ~closed
WriteHeader(s) == Step /\ SendHead(s) /\ UNCHANGED <<wrote, held, wire, own, closed>>
SetCoding == Step /\ own' = "br" /\ UNCHANGED <<wrote, held, wire, coded, hdr, declared, closed>>
Write(k) == /\ Step /\ SendHead(200)
            /\ LET s == hdr'[1] IN
               IF NoBody(s) THEN UNCHANGED <<wrote, held, wire>>
               ELSE wrote' = wrote + k /\ IF coded' THEN held' = held + k /\ wire' = wire ELSE wire' = wire + k /\ held' = held
            /\ UNCHANGED <<own, closed>>
Flush == Step /\ SendHead(200) /\ wire' = wire + held /\ held' = 0 /\ UNCHANGED <<wrote, own, closed>>
Close == /\ ~closed /\ closed' = TRUE
         /\ SendHead(200)
         /\ IF FINISH THEN wire' = wire + held /\ held' = 0 ELSE UNCHANGED <<wire, held>>
         /\ UNCHANGED <<wrote, own, n>>
Next == (\E s \in {200, 204, 404} : WriteHeader(s)) \/ SetCoding \/ (\E k \in {0, 1, 2} : Write(k)) \/ Flush \/ Close
Spec == Init /\ [][Next]_vars
\* nothing is lost at the end
Complete == closed => wire = wrote
\* the client undoes what was done: a coded body is declared so, and a coding the handler declared is not coded again
Declared == (hdr # <<>> /\ wire > 0) => (coded <=> declared = "gzip")
\* a flush hides nothing
Prompt == [][Flush => wire' = wrote']_vars
=============================================================================
