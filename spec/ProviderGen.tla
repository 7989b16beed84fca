---------------------------- MODULE ProviderGen -----------------------------
(* replies for the driver: every combination of the kinds of the fields that *)
(* matter; the driver fills in the texts                                     *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
CONSTANTS OutFile, Full
Codes == IF Full THEN {200, 201, 204, 206, 299, 300, 302, 304, 307, 400, 401, 403, 404, 422, 429, 500, 502, 503, 599} ELSE {200, 201, 204, 302, 304, 400, 401, 500}
Kinds == {"absent", "null", "empty", "text", "num", "bool", "arr", "obj"}
Bodies == {"object", "object+", "objectcut", "cut", "array", "null", "text", "num", "true", "html", "nothing", "closed", "deep", "form"}
Tokens == {[c |-> c, at |-> a, tt |-> t, er |-> e] : c \in Codes, a \in Kinds, t \in IF Full THEN Kinds ELSE {"absent", "text", "null", "obj"}, e \in IF Full THEN Kinds ELSE {"absent", "text", "obj", "null"}}
Users == {[c |-> c, em |-> e, lo |-> l, na |-> n] : c \in Codes, e \in Kinds, l \in Kinds, n \in IF Full THEN Kinds ELSE {"absent", "text", "null", "num"}}
Odd == {[c |-> c, b |-> b] : c \in Codes, b \in Bodies}
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
ASSUME JsonSerialize(OutFile, [tokens |-> SetToSeq(Tokens), users |-> SetToSeq(Users), odd |-> SetToSeq(Odd)])
=============================================================================
