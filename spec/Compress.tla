------------------------------ MODULE Compress ------------------------------
(***************************************************************************)
(* Content coding of responses.                                            *)
(* What was received, g, has additionally: enc (the Content-Encoding       *)
(* header), dec (1: the body was decoded according to it), body (decoded), *)
(* dead (1: the body is not what its declared encoding says).              *)
(***************************************************************************)
EXTENDS Response

IsSpace(c) == c \in {" ", "\t"}
RECURSIVE Trim(_)
Trim(s) == IF s = "" THEN "" ELSE IF IsSpace(CharAt(s, 1)) THEN Trim(From(s, 2))
           ELSE IF IsSpace(CharAt(s, Len(s))) THEN Trim(Upto(s, Len(s) - 1)) ELSE s
ZeroWeight == {"q=0", "q=0.", "q=0.0", "q=0.00", "q=0.000"}
\* what one line of Accept-Encoding lists: names, and whether something is said about them
Entries(line) == {LET p == Split(x, ";") IN [name |-> LowerText(Trim(p[1])), bare |-> Len(p) = 1,
                     out |-> \E i \in 2..Len(p) : LowerText(Trim(p[i])) \in ZeroWeight] : x \in SeqSet(Split(line, ","))}
RECURSIVE AllEntries(_)
AllEntries(ls) == IF ls = <<>> THEN {} ELSE Entries(ls[1]) \cup AllEntries(Tail(ls))
\* `compress' stands for gzip
Names(n) == IF n = "compress" THEN "gzip" ELSE n
Supported == {"gzip", "deflate"}
\* the codings that may be used ...
Usable(ls) == {Names(x.name) : x \in {y \in AllEntries(ls) : ~y.out}} \cap Supported
\* ... and whether one has to be: a plainly listed one, in a single header line
Wanted(ls) == /\ Len(ls) = 1
              /\ \E x \in Entries(ls[1]) : x.bare /\ Names(x.name) \in Supported

ValidLevel(n) == n \in -1..9
\* the coding that reached the client, when the handler declared the coding own ("" for none)
CodingOK(ls, own, must, g) ==
  IF own # "" THEN g.enc = own
  ELSE /\ g.enc \in Usable(ls) \cup {""}
       /\ (Wanted(ls) /\ must) => g.enc # ""
\* the message without the coding that was added on the way
Undone(g, own) == IF own # "" THEN g ELSE [g EXCEPT !.h = SelectSeq(@, LAMBDA x : x.k # "content-encoding")]
=============================================================================
