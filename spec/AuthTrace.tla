----------------------------- MODULE AuthTrace ------------------------------
(* Validates recorded answers of the real authorization code.              *)
EXTENDS Auth, Json
CONSTANTS PROP, TraceFile
Sessions == ndJsonDeserialize(TraceFile)
Bit(b) == IF b THEN 1 ELSE 0     \* 2 is recorded for a panic
VARIABLES sid, l, bad
vars == <<sid, l, bad>>
Ev == Sessions[sid].ev
Perm(p) == [s |-> p.s, a |-> SeqSet(p.a)]
Perms(ps) == {Perm(ps[i]) : i \in 1..Len(ps)}
Role(r) == [allowed |-> Perms(r.al), denied |-> Perms(r.de)]
Group(g) == {Role(g[i]) : i \in 1..Len(g)}
User(u) == {Group(u[i]) : i \in 1..Len(u)}

\* a request on its way through the layers, outermost first: suppliers of
\* the principal (a user, nobody, a failure) and authorizations. who is the
\* principal so far: <<>> or <<id, user>>. The result is the set of
\* acceptable outcomes.
Out(ran, err, who) == [ran |-> ran, err |-> err, who |-> who]
Failed(err) == Out(FALSE, err, "")
RECURSIVE Walk(_, _, _)
Walk(layers, i, who) ==
  IF i > Len(layers) THEN {Out(TRUE, "", IF who = <<>> THEN "" ELSE who[1])}
  ELSE LET x == layers[i] IN
    IF x.t = "sup"
    THEN CASE x.k = "err" -> {Failed("supplier" \o ToString(i))}
           [] x.k = "nil" -> Walk(layers, i + 1, who)
           [] OTHER -> Walk(layers, i + 1, <<x.id, User(x.u)>>)
    ELSE IF who = <<>> \/ x.permserr
    THEN (IF who = <<>> THEN {Failed("unauthorized")} ELSE {}) \cup (IF x.permserr THEN {Failed("perms" \o ToString(i))} ELSE {})
    ELSE IF Granted(x.all, Len(x.perms), {k \in 1..Len(x.perms) : UserHas(who[2], Perm(x.perms[k]))})
    THEN Walk(layers, i + 1, who)
    ELSE {Failed("unauthorized")}
AuthorizeOK(e) == Out(e.ran, e.err, e.who) \in Walk(e.layers, 1, IF e.pre.k = "user" THEN <<e.pre.id, User(e.pre.u)>> ELSE <<>>)

Ok(e) ==
  CASE e.e = "implies" -> e.r = Bit(Implies(Perm(e.p), Perm(e.q)))
    [] e.e = "everything" -> Perm(e.p) = Everything /\ SeqSet(e.all) = Named /\ Cardinality(SeqSet(e.bits)) = 9 /\ SeqSet(e.bits) = Named
    [] e.e = "role" -> e.r = Bit(RoleHas(Role(e.role), Perm(e.q)))
    [] e.e = "user" -> e.r = Bit(UserHas(User(e.user), Perm(e.q)))
    [] e.e = "group" -> e.r = Bit(UserHas({Group(e.group)}, Perm(e.q)))
    [] e.e = "named" -> e.r = Bit(\E i \in 1..Len(e.names) : e.names[i] = e.n)
    [] e.e = "authorize" -> AuthorizeOK(e)
    [] e.e = "parse" -> /\ e.ok = Bit(Parses(e.t))
                        /\ e.ok = 1 => (e.s = ScopePart(e.t) /\ e.a = StripZeros(AccessPart(e.t)))
    [] e.e = "new" -> e.ok = Constructible(e.s) /\ (e.ok => e.rs = e.s /\ e.ra = e.a)
    [] e.e = "print" -> e.t = Printed(e.s, e.a) /\ (Constructible(e.s) => e.ok /\ e.rs = e.s /\ e.ra = e.a)
    [] OTHER -> FALSE
Init == sid \in 1..Len(Sessions) /\ l = 1 /\ bad = <<>>
Next == /\ bad = <<>> /\ l <= Len(Ev)
        /\ l' = l + 1 /\ UNCHANGED sid
        /\ bad' = IF Ok(Ev[l]) THEN <<>> ELSE <<sid, l>>
Spec == Init /\ [][Next]_vars
Accepted == bad = <<>> \/ Print(ToJson([sid |-> bad[1], line |-> bad[2], event |-> Ev[bad[2]]]), FALSE)
=============================================================================
