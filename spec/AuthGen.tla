------------------------------ MODULE AuthGen -------------------------------
EXTENDS Auth, Json, SequencesExt
CONSTANTS OutFile, TextLen
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 1..n}

ToSeq(S) == SetToSeq(S)
Grants == {Join(p, "/") : p \in SeqsUpTo({"a", "b", "*"}, 3)} \cup {"", "/", "a/", "ab", "a*", "/*"}
Asked == {Join(p, "/") : p \in SeqsUpTo({"a", "b"}, 3)} \cup {Join(<<"a">> \o p, "/") : p \in [1..3 -> {"a", "b"}]} \cup {"", "ab", "a/", "/", "ab/a", "A"}
Token == {"a", "*", "/", ":", "0", "7", "-", "+"}
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {""} ELSE LET T == Texts(n - 1) IN T \cup {t \o k : t \in {x \in T : Len(x) = n - 1}, k \in Token}
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
ASSUME JsonSerialize(OutFile, [grants |-> ToSeq(Grants), asked |-> ToSeq(Asked), texts |-> SetToSeq(Texts(TextLen))])
=============================================================================
