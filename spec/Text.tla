------------------------------- MODULE Text --------------------------------
(* Strings as TLC sees them: Len, SubSeq and \o are overloaded for strings;  *)
(* a "character" is a string of length one.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CharAt(s, i) == SubSeq(s, i, i)
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
Upto(s, i) == IF i < 1 THEN "" ELSE SubSeq(s, 1, i)
StartsWith(s, p) == Len(p) <= Len(s) /\ Upto(s, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ From(s, Len(s) - Len(p) + 1) = p
Contains(s, t) == \E i \in 1..(Len(s) - Len(t) + 1) : SubSeq(s, i, i + Len(t) - 1) = t

Positions(s, c) == {i \in 1..Len(s) : SubSeq(s, i, i) = c}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
FirstPos(s, c) == LET P == Positions(s, c) IN IF P = {} THEN 0 ELSE MinOf(P)
LastPos(s, c) == LET P == Positions(s, c) IN IF P = {} THEN 0 ELSE MaxOf(P)

RECURSIVE Split(_, _)
\* "a/b" split at "/" is <<"a","b">>; the empty text is <<"">>
Split(s, c) ==
  LET p == FirstPos(s, c) IN
  IF p = 0 THEN <<s>> ELSE <<Upto(s, p - 1)>> \o Split(From(s, p + 1), c)

RECURSIVE Join(_, _)
Join(ss, c) ==
  IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1]
  ELSE ss[1] \o c \o Join(Tail(ss), c)

Range(f) == {f[x] : x \in DOMAIN f}
SeqSet(s) == {s[i] : i \in 1..Len(s)}

Lower ==
  "A" :> "a" @@ "B" :> "b" @@ "C" :> "c" @@ "D" :> "d" @@ "E" :> "e" @@
  "F" :> "f" @@ "G" :> "g" @@ "H" :> "h" @@ "I" :> "i" @@ "J" :> "j" @@
  "K" :> "k" @@ "L" :> "l" @@ "M" :> "m" @@ "N" :> "n" @@ "O" :> "o" @@
  "P" :> "p" @@ "Q" :> "q" @@ "R" :> "r" @@ "S" :> "s" @@ "T" :> "t" @@
  "U" :> "u" @@ "V" :> "v" @@ "W" :> "w" @@ "X" :> "x" @@ "Y" :> "y" @@
  "Z" :> "z"
FoldExtra == "É" :> "é" @@ "K" :> "k" @@ "ſ" :> "s" @@ "Σ" :> "σ" @@ "ς" :> "σ" @@ "ẞ" :> "ß" @@ "µ" :> "μ" @@ "Μ" :> "μ" @@ "Å" :> "å" @@ "Å" :> "å" @@ "Ж" :> "ж" @@ "Ǆ" :> "ǆ" @@ "ǅ" :> "ǆ"
FoldMap == Lower @@ FoldExtra
FoldChar(c) == IF c \in DOMAIN FoldMap THEN FoldMap[c] ELSE c
LowerChar(c) == IF c \in DOMAIN Lower THEN Lower[c] ELSE c

RECURSIVE Fold(_)
Fold(s) == IF s = "" THEN "" ELSE FoldChar(CharAt(s, 1)) \o Fold(From(s, 2))
RECURSIVE LowerText(_)
LowerText(s) == IF s = "" THEN "" ELSE LowerChar(CharAt(s, 1)) \o LowerText(From(s, 2))

DigitVal == "0" :> 0 @@ "1" :> 1 @@ "2" :> 2 @@ "3" :> 3 @@ "4" :> 4 @@
            "5" :> 5 @@ "6" :> 6 @@ "7" :> 7 @@ "8" :> 8 @@ "9" :> 9
Digit == DOMAIN DigitVal
LowerLetter == Range(Lower)
UpperLetter == DOMAIN Lower
Letter == LowerLetter \cup UpperLetter
AllIn(s, S) == \A i \in 1..Len(s) : SubSeq(s, i, i) \in S
=============================================================================
