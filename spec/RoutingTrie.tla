---------------------------- MODULE RoutingTrie -----------------------------
(***************************************************************************)
(* The design of the dispatcher: a trie of pattern segments, searched      *)
(* depth first from the most to the least specific child, carrying the set *)
(* of path positions reached so far (several after a `**`).  Checked by    *)
(* TLC against the meaning given in Routing: for every table built by any  *)
(* sequence of registrations, any order among equally specific siblings    *)
(* and every path, the search finds a handler iff some pattern matches,    *)
(* and then one of the most specific ones.                                 *)
(***************************************************************************)
EXTENDS Routing
CONSTANTS SegTexts,   \* segment texts patterns are made of
          PathTexts,  \* texts path segments are made of
          MaxPat, MaxPath, MaxTable

SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
PatternSeqs == {p \in SeqsUpTo(SegTexts, MaxPat) : \A i \in 1..(Len(p) - 1) : ~(p[i] = "**" /\ p[i + 1] = "**")}
Lib == {[i \in 1..Len(p) |-> ParseSegment(p[i], FALSE)] : p \in PatternSeqs}
Paths == SeqsUpTo(PathTexts, MaxPath)
Shapes == {ParseSegment(t, FALSE) : t \in SegTexts}

VARIABLES table,  \* set of registered patterns (parsed), one method
          trie,   \* set of nodes; a node is the sequence of segments leading to it
          leaf,   \* the nodes that carry a pattern
          tie     \* how siblings of the same kind are ordered
vars == <<table, trie, leaf, tie>>

\* any fixed enumeration of the shapes, and the reverse one
Enum == CHOOSE e \in [1..Cardinality(Shapes) -> Shapes] : \A i, j \in DOMAIN e : i # j => e[i] # e[j]
Rank(x, t) == LET i == CHOOSE i \in DOMAIN Enum : Enum[i] = x IN IF t THEN i ELSE 0 - i

Strip(p) == [i \in 1..Len(p) |-> [p[i] EXCEPT !.n = ""]]
Init == table = {} /\ trie = {<<>>} /\ leaf = {} /\ tie \in BOOLEAN
Register(p) ==
  /\ Cardinality(table) < MaxTable
  /\ Strip(p) \notin leaf
  /\ table' = table \cup {p}
  /\ trie' = trie \cup {SubSeq(Strip(p), 1, k) : k \in 0..Len(p)}
  /\ leaf' = leaf \cup {Strip(p)}
  /\ UNCHANGED tie
\* a duplicate is refused and changes nothing
Refuse(p) == Strip(p) \in leaf /\ UNCHANGED vars
Next == \E p \in Lib : Register(p) \/ Refuse(p)
Spec == Init /\ [][Next]_vars

Children(node) == {n \in trie : Len(n) = Len(node) + 1 /\ SubSeq(n, 1, Len(node)) = node}
LastOf(n) == n[Len(n)]
Before(a, b) == \/ LastOf(a).k < LastOf(b).k
                \/ LastOf(a).k = LastOf(b).k /\ Rank(LastOf(a), tie) < Rank(LastOf(b), tie)

RECURSIVE Search(_, _, _), SearchIn(_, _, _)
\* counts: the numbers of path segments consumed on the way to the node
Search(node, counts, u) == SearchIn(Children(node), counts, u)
SearchIn(kids, counts, u) ==
  IF kids = {} THEN <<>>
  ELSE LET c == CHOOSE k \in kids : \A o \in kids \ {k} : Before(k, o)
           x == LastOf(c)
           cc == IF x.k = DoubleStar THEN MinOf(counts)..Len(u)
                 ELSE {n + 1 : n \in {n \in counts : n < Len(u) /\ SegMatches(x, u[n + 1])}}
           below == IF cc = {} THEN <<>> ELSE Search(c, cc, u)
           here == /\ c \in leaf /\ cc # {}
                   /\ IF x.k = DoubleStar THEN MinOf(counts) < Len(u) ELSE Len(u) \in cc
       IN IF below # <<>> THEN below
          ELSE IF here THEN <<c>>
          ELSE SearchIn(kids \ {c}, counts, u)
Found(u) == IF u = <<>> /\ <<>> \in leaf THEN <<<<>>>> ELSE Search(<<>>, {0}, u)

Regs == {[m |-> "GET", id |-> Strip(p), p |-> p] : p \in table}
SearchIsRight ==
  \A u \in Paths :
    LET f == Found(u)  W == Winners(Regs, "GET", u) IN
    IF f = <<>> THEN W = {} ELSE \E r \in W : r.id = f[1]
\* the state of the trie is a function of the registered set, not of the order
OrderFree == /\ leaf = {Strip(p) : p \in table}
             /\ trie = {<<>>} \cup UNION {{SubSeq(Strip(p), 1, k) : k \in 0..Len(p)} : p \in table}
\* there is always a most specific match, and it is unique up to unordered siblings
SomeWinner ==
  \A u \in Paths : Candidates(Regs, "GET", u) # {} =>
    LET W == Winners(Regs, "GET", u) IN
      /\ W # {}
      /\ \A r, q \in W : r # q => ~Better(r.p, q.p) /\ ~Better(q.p, r.p)
BetterIsStrict == \A p, q \in table : ~(Better(p, q) /\ Better(q, p)) /\ ~Better(p, p)
=============================================================================
