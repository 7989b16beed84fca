------------------------------- MODULE Regex --------------------------------
(***************************************************************************)
(* Regular expressions: their syntax (a text is parsed to a tree or it is  *)
(* not an expression) and which texts contain a match.                     *)
(* A parse result is [ok, x, p]: success, tree, position after it.         *)
(* Trees: [o, cs, xs, n, m]                                                *)
(*   set  cs characters, n = 1: all the others instead; m = 1: letter case *)
(*        is ignored                                                       *)
(*   any, bol, eol, wb, nwb                                                *)
(*   cls  one of the sets xs (n = 1: none of them)                         *)
(*   cat, alt  xs;   rep  xs[1] n to m times (m = -1: no limit)            *)
(* Not modelled: \x \p \Q \C octal escapes, flags other than (?i:, [:a:].  *)
(***************************************************************************)
EXTENDS Text
Node(o, cs, xs, n, m) == [o |-> o, cs |-> cs, xs |-> xs, n |-> n, m |-> m]
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AlNum == Letter \cup Digit
WordChar == AlNum \cup {"_"}
Blank == {" ", "\t", "\n", "\r", "\f"}
None0 == Node("none", {}, <<>>, 0, 0)
Bad == [ok |-> FALSE, x |-> None0, p |-> 0]
Got(x, p) == [ok |-> TRUE, x |-> x, p |-> p]
At(s, p) == IF p <= Len(s) THEN CharAt(s, p) ELSE ""
Looking(s, p, t) == p + Len(t) - 1 <= Len(s) /\ SubSeq(s, p, p + Len(t) - 1) = t
One(cs, neg, ic) == Node("set", cs, <<>>, neg, ic)

PerlClass(c, ic) == CASE c = "d" -> One(Digit, 0, ic) [] c = "D" -> One(Digit, 1, ic)
                      [] c = "w" -> One(WordChar, 0, ic) [] c = "W" -> One(WordChar, 1, ic)
                      [] c = "s" -> One(Blank, 0, ic) [] c = "S" -> One(Blank, 1, ic)
IsPerl(c) == c \in {"d", "D", "w", "W", "s", "S"}
Control == "n" :> "\n" @@ "t" :> "\t" @@ "r" :> "\r" @@ "f" :> "\f"
\* an escaped single character, s[p] = "\"
Escaped(s, p) ==
  LET c == At(s, p + 1) IN
  IF c = "" THEN "" ELSE IF c \in DOMAIN Control THEN Control[c]
  ELSE IF FirstPos(Ascii, c) > 0 /\ c \notin AlNum THEN c ELSE ""

\* a member of a class at p: [ok, c, p]
ClassChar(s, p) ==
  IF At(s, p) = "" THEN [ok |-> FALSE, c |-> "", p |-> 0]
  ELSE IF At(s, p) = "\\" THEN [ok |-> Escaped(s, p) # "", c |-> Escaped(s, p), p |-> p + 2]
  ELSE [ok |-> TRUE, c |-> At(s, p), p |-> p + 1]
RECURSIVE ClassItems(_, _, _, _, _)
ClassItems(s, p, ic, first, acc) ==
  IF At(s, p) = "" THEN Bad
  ELSE IF At(s, p) = "]" /\ ~first THEN Got(Node("cls", {}, acc, 0, 0), p + 1)
  ELSE IF At(s, p) = "\\" /\ IsPerl(At(s, p + 1)) THEN ClassItems(s, p + 2, ic, FALSE, Append(acc, PerlClass(At(s, p + 1), ic)))
  ELSE LET a == ClassChar(s, p) IN
       IF ~a.ok THEN Bad
       ELSE IF At(s, a.p) = "-" /\ At(s, a.p + 1) \notin {"]", ""}
       THEN LET b == ClassChar(s, a.p + 1)
                lo == FirstPos(Ascii, a.c)
                hi == IF b.ok THEN FirstPos(Ascii, b.c) ELSE 0 IN
            IF ~b.ok \/ lo = 0 \/ hi = 0 \/ lo > hi THEN Bad
            ELSE ClassItems(s, b.p, ic, FALSE, Append(acc, One({CharAt(Ascii, i) : i \in lo..hi}, 0, ic)))
       ELSE ClassItems(s, a.p, ic, FALSE, Append(acc, One({a.c}, 0, ic)))
Class(s, p, ic) ==
  IF At(s, p) = "^" THEN LET r == ClassItems(s, p + 1, ic, TRUE, <<>>) IN IF r.ok THEN Got([r.x EXCEPT !.n = 1], r.p) ELSE Bad
  ELSE ClassItems(s, p, ic, TRUE, <<>>)

RECURSIVE Number(_, _, _)
Number(s, p, v) == IF At(s, p) \in Digit THEN Number(s, p + 1, v * 10 + DigitVal[At(s, p)]) ELSE [v |-> v, p |-> p]
IsNumber(s, p) == At(s, p) \in Digit /\ ~(At(s, p) = "0" /\ At(s, p + 1) \in Digit)
\* "{n}", "{n,}", "{n,m}" at p: [is, n, m, p]; otherwise "{" is a character like others
Braces(s, p) ==
  LET no == [is |-> FALSE, n |-> 0, m |-> 0, p |-> 0] IN
  IF At(s, p) # "{" \/ ~IsNumber(s, p + 1) THEN no
  ELSE LET a == Number(s, p + 1, 0) IN
       IF At(s, a.p) = "}" THEN [is |-> TRUE, n |-> a.v, m |-> a.v, p |-> a.p + 1]
       ELSE IF At(s, a.p) # "," THEN no
       ELSE IF At(s, a.p + 1) = "}" THEN [is |-> TRUE, n |-> a.v, m |-> -1, p |-> a.p + 2]
       ELSE IF ~IsNumber(s, a.p + 1) THEN no
       ELSE LET b == Number(s, a.p + 1, 0) IN
            IF At(s, b.p) = "}" THEN [is |-> TRUE, n |-> a.v, m |-> b.v, p |-> b.p + 1] ELSE no
Quantifier(s, p) ==
  CASE At(s, p) = "*" -> [is |-> TRUE, n |-> 0, m |-> -1, p |-> p + 1]
    [] At(s, p) = "+" -> [is |-> TRUE, n |-> 1, m |-> -1, p |-> p + 1]
    [] At(s, p) = "?" -> [is |-> TRUE, n |-> 0, m |-> 1, p |-> p + 1]
    [] OTHER -> Braces(s, p)
SizeOK(q) == q.n <= 1000 /\ q.m <= 1000 /\ (q.m = -1 \/ q.n <= q.m)

RECURSIVE Alt(_, _, _), Cat(_, _, _, _), Atom(_, _, _)
Group(s, p, ic) == LET r == Alt(s, p, ic) IN IF r.ok /\ At(s, r.p) = ")" THEN Got(r.x, r.p + 1) ELSE Bad
NameEnd(s, p) == LET P == {i \in p..Len(s) : CharAt(s, i) = ">"} IN IF P = {} THEN 0 ELSE MinOf(P)
Atom(s, p, ic) ==
  LET c == At(s, p) IN
  CASE c = "(" -> IF Looking(s, p, "(?:") THEN Group(s, p + 3, ic)
                  ELSE IF Looking(s, p, "(?i:") THEN Group(s, p + 4, 1)
                  ELSE IF Looking(s, p, "(?P<") THEN
                       LET e == NameEnd(s, p) IN
                       IF e <= p + 4 \/ ~AllIn(SubSeq(s, p + 4, e - 1), WordChar) THEN Bad ELSE Group(s, e + 1, ic)
                  ELSE IF Looking(s, p, "(?") THEN Bad ELSE Group(s, p + 1, ic)
    [] c = "[" -> Class(s, p + 1, ic)
    [] c = "." -> Got(Node("any", {}, <<>>, 0, 0), p + 1)
    [] c = "^" -> Got(Node("bol", {}, <<>>, 0, 0), p + 1)
    [] c = "$" -> Got(Node("eol", {}, <<>>, 0, 0), p + 1)
    [] c = "\\" -> LET d == At(s, p + 1) IN
         IF IsPerl(d) THEN Got(PerlClass(d, ic), p + 2)
         ELSE IF d \in {"b", "B", "A", "z"} THEN Got(Node(CASE d = "b" -> "wb" [] d = "B" -> "nwb" [] d = "A" -> "bol" [] OTHER -> "eol", {}, <<>>, 0, 0), p + 2)
         ELSE IF Escaped(s, p) = "" THEN Bad ELSE Got(One({Escaped(s, p)}, 0, ic), p + 2)
    [] OTHER -> Got(One({c}, 0, ic), p + 1)
Cat(s, p, ic, acc) ==
  IF At(s, p) \in {"", "|", ")"} THEN Got(Node("cat", {}, acc, 0, 0), p)
  ELSE IF Quantifier(s, p).is THEN Bad       \* nothing to repeat
  ELSE LET a == Atom(s, p, ic) IN
       IF ~a.ok THEN Bad
       ELSE LET q == Quantifier(s, a.p) IN
            IF ~q.is THEN Cat(s, a.p, ic, Append(acc, a.x))
            ELSE LET z == IF At(s, q.p) = "?" THEN q.p + 1 ELSE q.p IN
                 IF ~SizeOK(q) \/ Quantifier(s, z).is THEN Bad
                 ELSE Cat(s, z, ic, Append(acc, Node("rep", {}, <<a.x>>, q.n, q.m)))
Alt(s, p, ic) ==
  LET a == Cat(s, p, ic, <<>>) IN
  IF ~a.ok \/ At(s, a.p) # "|" THEN a
  ELSE LET b == Alt(s, a.p + 1, ic) IN IF b.ok THEN Got(Node("alt", {}, <<a.x, b.x>>, 0, 0), b.p) ELSE Bad
Parse(s, ic) == LET r == Alt(s, 1, ic) IN IF r.ok /\ r.p = Len(s) + 1 THEN r ELSE Bad
RegexOK(s) == Parse(s, 0).ok

(* ------------------------------- matching ------------------------------ *)
InSet(x, c) == LET in == IF x.m = 1 THEN \E d \in x.cs : FoldChar(d) = FoldChar(c) ELSE c \in x.cs IN IF x.n = 1 THEN ~in ELSE in
Step1(s, i, holds) == IF i <= Len(s) /\ holds THEN {i + 1} ELSE {}
IsWord(s, i) == i >= 1 /\ i <= Len(s) /\ CharAt(s, i) \in WordChar
RECURSIVE Ends(_, _, _), CatEnds(_, _, _, _), RepEnds(_, _, _, _, _, _)
CatEnds(xs, k, s, I) == IF k > Len(xs) \/ I = {} THEN I ELSE CatEnds(xs, k + 1, s, UNION {Ends(xs[k], s, i) : i \in I})
\* from I after k repetitions; all: what was reached with n or more
RepEnds(x, s, I, k, last, all) ==
  LET got == IF k >= x.n THEN all \cup I ELSE all IN
  IF I = {} \/ k = last THEN got ELSE RepEnds(x, s, UNION {Ends(x.xs[1], s, i) : i \in I}, k + 1, last, got)
\* the positions at which a match that starts at i may end
Ends(x, s, i) ==
  CASE x.o = "set" -> IF i <= Len(s) THEN Step1(s, i, InSet(x, CharAt(s, i))) ELSE {}
    [] x.o = "any" -> IF i <= Len(s) THEN Step1(s, i, CharAt(s, i) # "\n") ELSE {}
    [] x.o = "cls" -> IF i <= Len(s) THEN Step1(s, i, (\E k \in 1..Len(x.xs) : InSet(x.xs[k], CharAt(s, i))) # (x.n = 1)) ELSE {}
    [] x.o = "bol" -> IF i = 1 THEN {i} ELSE {}
    [] x.o = "eol" -> IF i = Len(s) + 1 THEN {i} ELSE {}
    [] x.o = "wb" -> IF IsWord(s, i - 1) # IsWord(s, i) THEN {i} ELSE {}
    [] x.o = "nwb" -> IF IsWord(s, i - 1) = IsWord(s, i) THEN {i} ELSE {}
    [] x.o = "cat" -> CatEnds(x.xs, 1, s, {i})
    [] x.o = "alt" -> Ends(x.xs[1], s, i) \cup Ends(x.xs[2], s, i)
    [] x.o = "rep" -> RepEnds(x, s, {i}, 0, IF x.m = -1 THEN x.n + Len(s) + 1 ELSE x.m, {})
Finds(x, s) == \E i \in 1..(Len(s) + 1) : Ends(x, s, i) # {}
=============================================================================
