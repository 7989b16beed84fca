----------------------------- MODULE RoutingGen -----------------------------
(* Derives from the specification what the driver registers and requests.   *)
EXTENDS Routing, Json
CONSTANTS GenSegs, GenLen, GenTexts, GenPath, OutFile
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
SetToSeq(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o ToSeq(S \ {x})
PatText(p) == "/" \o Join(p, "/")
Pats == {PatText(p) : p \in SeqsUpTo(GenSegs, GenLen)}
Good == {p \in Pats : WellFormed(p)}
\* a malformed segment at any position of an otherwise good pattern
BadSegs == {"", "{", "}", "{}", "{a", "a}", "{:a}", "{a:}", "***", "a**", "**a", "{a:[}", "{b:(}", "{c:+}"}
Malformed == {PatText(p) : p \in {<<b>> : b \in BadSegs} \cup {<<b, s>> : b \in BadSegs, s \in {"a", "{x}", "*"}}
                                \cup {<<s, b>> : b \in BadSegs, s \in {"a", "{x}", "**"}} \cup {<<"a", b, "*">> : b \in BadSegs}}
             \cup (Pats \ Good) \cup {"", "a", "a/b", "*", "//", "/a//", "/**/**", "/a/**/**/b", "/**/**/a"}
BadPats == {p \in Malformed : ~WellFormed(p)}
Out == [pats |-> ToSeq(Good), bad |-> ToSeq(BadPats), paths |-> ToSeq(SeqsUpTo(GenTexts, GenPath)),
        regexes |-> ToSeq(KnownRegexes)]
ASSUME JsonSerialize(OutFile, Out)
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
