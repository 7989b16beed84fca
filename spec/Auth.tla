-------------------------------- MODULE Auth --------------------------------
(***************************************************************************)
(* Permissions, roles, users, the authorization decision and the textual   *)
(* form of permissions.  A permission is [s |-> scope text, a |-> set of   *)
(* access bits].                                                           *)
(***************************************************************************)
EXTENDS Text

Levels(s) == Split(s, "/")

CoversLevels(g, o) ==
  /\ Len(o) >= Len(g)
  /\ Len(o) > Len(g) => g[Len(g)] = "*"
  /\ \A i \in 1..Len(g) : g[i] \in {"*", o[i]}
CoversScope(g, o) == CoversLevels(Levels(g), Levels(o))
Implies(p, q) == q.a \subseteq p.a /\ CoversScope(p.s, q.s)
\* the named accesses are the lowest bits, and everything is the wildcard with all of them
Named == 0..8
Everything == [s |-> "*", a |-> Named]
Denies(p, q) == p.a \cap q.a # {} /\ CoversScope(p.s, q.s)

\* a role is [allowed |-> set of permissions, denied |-> set of permissions]
RoleHas(r, q) == (\E p \in r.allowed : Implies(p, q)) /\ ~\E p \in r.denied : Denies(p, q)
\* a user is a set of groups, a group a set of roles
UserHas(u, q) == \E g \in u : \E r \in g : RoleHas(r, q)

(* the authorization middlewares: has is the set of the requested          *)
(* permissions (positions in the list) that the principal has              *)
Granted(all, n, has) == IF all THEN has = 1..n ELSE has # {}

(* ------------------------------ text form ------------------------------ *)
RECURSIVE StripZeros(_)
StripZeros(t) == IF Len(t) > 1 /\ CharAt(t, 1) = "0" THEN StripZeros(From(t, 2)) ELSE t
RECURSIVE LexLeq(_, _)
LexLeq(x, y) == \/ x = ""
                \/ DigitVal[CharAt(x, 1)] < DigitVal[CharAt(y, 1)]
                \/ CharAt(x, 1) = CharAt(y, 1) /\ LexLeq(From(x, 2), From(y, 2))
FitsAccess(t) == LET z == StripZeros(t) IN Len(z) < 10 \/ (Len(z) = 10 /\ LexLeq(z, "4294967295"))
IsNumber(t) == t # "" /\ AllIn(t, Digit)
Separators(s) == Cardinality(Positions(s, "/"))

ScopePart(t) == Upto(t, LastPos(t, ":") - 1)
AccessPart(t) == From(t, LastPos(t, ":") + 1)
Parses(t) == /\ LastPos(t, ":") > 0
             /\ IsNumber(AccessPart(t)) /\ FitsAccess(AccessPart(t))
             /\ Separators(ScopePart(t)) <= 2
Constructible(s) == Separators(s) <= 2
Printed(s, a) == s \o ":" \o a
=============================================================================
