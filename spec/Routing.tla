------------------------------ MODULE Routing -------------------------------
(***************************************************************************)
(* What a gofre route table means.                                         *)
(*                                                                         *)
(* A pattern text is a sequence of segments; a request path, once          *)
(* normalised, is a sequence of segment texts.  The operators below say    *)
(* which patterns are well formed, when two of them have the same shape,   *)
(* which paths they match and with which variable values, which of two     *)
(* matching patterns is more specific, and how a path is normalised.       *)
(***************************************************************************)
EXTENDS Regex

MaxSegments == 19

(* ------------------------- segments of a pattern ----------------------- *)
Literal == 1
Constrained == 2
Variable == 3
Glob == 4
Star == 5
DoubleStar == 6

\* a constraint matches a segment in which the expression finds a match;
\* these are the ones the exhaustive sessions use
KnownRegexes == {"^[0-9]+$", "[0-9]", "^[0-9]", "^a", "b$", "ab", "^[a-z]{2}$", "^(a|bb)$", "^a:b$", "^[^0-9]+$", ".", "^$", "^a?b$"}

IsBraced(t) == Len(t) >= 2 /\ CharAt(t, 1) = "{" /\ CharAt(t, Len(t)) = "}"
Inner(t) == SubSeq(t, 2, Len(t) - 1)
KindOf(t) ==
  CASE t = "*" -> Star
    [] t = "**" -> DoubleStar
    [] IsBraced(t) -> IF FirstPos(t, ":") > 0 THEN Constrained ELSE Variable
    [] ~IsBraced(t) /\ (FirstPos(t, "?") > 0 \/ FirstPos(t, "*") > 0) -> Glob
    [] OTHER -> Literal
VarName(t) == LET c == FirstPos(Inner(t), ":") IN IF c = 0 THEN Inner(t) ELSE Upto(Inner(t), c - 1)
Constraint(t) == LET c == FirstPos(Inner(t), ":") IN From(Inner(t), c + 1)

SegmentOK(t) ==
  /\ t # ""
  /\ (CharAt(t, 1) = "{") = (CharAt(t, Len(t)) = "}")   \* braces are balanced
  /\ t # "{" /\ t # "}"
  /\ CharAt(t, 1) = "{" =>
       /\ VarName(t) # ""
       /\ KindOf(t) = Constrained => /\ Constraint(t) # ""
                                     /\ RegexOK(Constraint(t))
  /\ t \notin {"*", "**"} => ~Contains(t, "**")

\* the segment texts of a pattern; one trailing slash is insignificant
RawSegments(p) ==
  IF p = "/" THEN <<>>
  ELSE LET body == From(p, 2)
           b2   == IF EndsWith(body, "/") THEN Upto(body, Len(body) - 1) ELSE body
       IN Split(b2, "/")

WellFormed(p) ==
  /\ p # "" /\ CharAt(p, 1) = "/"
  /\ Cardinality(Positions(p, "/")) < 255
  /\ LET ss == RawSegments(p) IN
       /\ \A i \in 1..Len(ss) : SegmentOK(ss[i])
       /\ \A i \in 1..(Len(ss) - 1) : ~(ss[i] = "**" /\ ss[i + 1] = "**")

\* a parsed segment: k kind, t text compared (folded when ci), n variable name,
\* x tree of the constraint
ParseSegment(t, ci) ==
  LET k == KindOf(t) IN
  [k |-> k,
   t |-> CASE k \in {Literal, Glob} -> IF ci THEN Fold(t) ELSE t
           [] k = Constrained -> Constraint(t)
           [] OTHER -> "",
   n |-> IF k \in {Constrained, Variable} THEN VarName(t) ELSE "",
   x |-> IF k = Constrained THEN Parse(Constraint(t), IF ci THEN 1 ELSE 0).x ELSE None0]
ParsePattern(p, ci) == LET ss == RawSegments(p) IN [i \in 1..Len(ss) |-> ParseSegment(ss[i], ci)]

SameSegment(x, y) == x.k = y.k /\ x.t = y.t
SameShape(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : SameSegment(p[i], q[i])

(* ------------------------------- matching ------------------------------ *)
RECURSIVE GlobMatch(_, _)
\* "?" stands for one character, "*" for any run of characters
GlobMatch(g, s) ==
  IF g = "" THEN s = ""
  ELSE LET c == CharAt(g, 1) IN
       IF c = "*" THEN \E i \in 1..(Len(s) + 1) : GlobMatch(From(g, 2), From(s, i))
       ELSE s # "" /\ c \in {"?", CharAt(s, 1)} /\ GlobMatch(From(g, 2), From(s, 2))

\* one pattern segment (not **) against one path segment; f is the folded text
\* when letter case is ignored, the text itself otherwise
SegMatches(x, f) ==
  CASE x.k = Literal -> f = x.t
    [] x.k = Constrained -> Finds(x.x, f)
    [] x.k = Glob -> GlobMatch(x.t, f)
    [] OTHER -> TRUE

RECURSIVE AlignFrom(_, _, _, _)
\* All the ways to lay pattern p from segment i on over path u from segment j
\* on; an alignment is the sequence of the path positions at which the
\* pattern's segments start, for a fixed end of the path.
AlignFrom(p, u, i, j) ==
  IF i > Len(p) THEN (IF j > Len(u) THEN {<<>>} ELSE {})
  ELSE IF p[i].k = DoubleStar
       THEN IF i = Len(p) THEN (IF j <= Len(u) THEN {<<j>>} ELSE {})   \* at the end: one or more
            ELSE UNION {{<<j>> \o a : a \in AlignFrom(p, u, i + 1, j2)} : j2 \in j..(Len(u) + 1)}
       ELSE IF j > Len(u) THEN {}
            ELSE IF SegMatches(p[i], u[j]) THEN {<<j>> \o a : a \in AlignFrom(p, u, i + 1, j + 1)} ELSE {}
Alignments(p, u) == AlignFrom(p, u, 1, 1)
\* whether there is one
RECURSIVE MatchesFrom(_, _, _, _)
MatchesFrom(p, u, i, j) ==
  IF i > Len(p) THEN j > Len(u)
  ELSE IF p[i].k = DoubleStar
       THEN IF i = Len(p) THEN j <= Len(u)
            ELSE \E j2 \in j..(Len(u) + 1) : MatchesFrom(p, u, i + 1, j2)
       ELSE IF j > Len(u) THEN FALSE
            ELSE IF SegMatches(p[i], u[j]) THEN MatchesFrom(p, u, i + 1, j + 1) ELSE FALSE
Matches(p, u) == MatchesFrom(p, u, 1, 1)

VarPositions(p) == {i \in 1..Len(p) : p[i].k \in {Variable, Constrained}}
VarNames(p) == {p[i].n : i \in VarPositions(p)}
FirstOf(p, name) == MinOf({i \in VarPositions(p) : p[i].n = name})
\* the value of a variable under an alignment (the first one when a name is
\* declared twice); raw holds the path's own, unfolded texts
ValueUnder(p, raw, al, name) == IF name \in VarNames(p) THEN raw[al[FirstOf(p, name)]] ELSE ""

(* ------------------------------ specificity ---------------------------- *)
\* p is strictly more specific than q
Better(p, q) ==
  LET n == IF Len(p) < Len(q) THEN Len(p) ELSE Len(q)
      D == {i \in 1..n : ~SameSegment(p[i], q[i])}
  IN IF D # {} THEN p[MinOf(D)].k < q[MinOf(D)].k
     ELSE Len(p) > Len(q) /\ Len(q) > 0 /\ q[Len(q)].k = DoubleStar

(* ------------------------------ normalising ---------------------------- *)
\* a request path is the sequence of texts between its slashes
RECURSIVE NormaliseFrom(_, _, _)
NormaliseFrom(ps, i, acc) ==
  IF i > Len(ps) THEN acc
  ELSE IF ps[i] = "" THEN NormaliseFrom(ps, i + 1, acc)
  ELSE IF ps[i] = ".." THEN NormaliseFrom(ps, i + 1, IF acc = <<>> THEN acc ELSE SubSeq(acc, 1, Len(acc) - 1))
  ELSE NormaliseFrom(ps, i + 1, Append(acc, ps[i]))
Normalise(ps) == NormaliseFrom(ps, 1, <<>>)

(* --------------------------- serving a request ------------------------- *)
(* a table is a set of [m |-> method, id |-> registration, p |-> parsed]    *)
RequestPath(ps, ci) == LET u == Normalise(ps) IN [i \in 1..Len(u) |-> IF ci THEN Fold(u[i]) ELSE u[i]]
TooLong(ps) == Len(Normalise(ps)) > MaxSegments
Candidates(table, m, u) == {r \in table : r.m = m /\ Matches(r.p, u)}
\* the registrations that may handle a request: none strictly better matches
Winners(table, m, u) ==
  LET C == Candidates(table, m, u) IN {r \in C : \A q \in C : ~Better(q.p, r.p)}
Registrable(table, m, p) == \A r \in table : r.m = m => ~SameShape(r.p, p)
=============================================================================
