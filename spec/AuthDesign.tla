----------------------------- MODULE AuthDesign -----------------------------
(* A user whose roles are administered step by step: the decision is       *)
(* monotone the right way in every reachable configuration.                *)
EXTENDS Auth
CONSTANTS Grants, Asked, Bits, MaxPerms, NRoles
Access == SUBSET Bits \ {{}}
Perms == [s : Grants, a : Access]
Questions == [s : Asked, a : Access]
VARIABLE roles
vars == <<roles>>
RoleIds == 1..NRoles
User(rs) == {{rs[i] : i \in RoleIds}}
Size == LET RECURSIVE S(_)
            S(I) == IF I = {} THEN 0 ELSE LET i == CHOOSE i \in I : TRUE IN
                     Cardinality(roles[i].allowed) + Cardinality(roles[i].denied) + S(I \ {i})
        IN S(RoleIds)
Init == roles = [i \in RoleIds |-> [allowed |-> {}, denied |-> {}]]
Allow(i, p) == Size < MaxPerms /\ roles' = [roles EXCEPT ![i].allowed = @ \cup {p}]
Deny(i, p) == Size < MaxPerms /\ roles' = [roles EXCEPT ![i].denied = @ \cup {p}]
RemoveRole(i) == roles' = [roles EXCEPT ![i] = [allowed |-> {}, denied |-> {}]]
Next == \E i \in RoleIds : RemoveRole(i) \/ \E p \in Perms : Allow(i, p) \/ Deny(i, p)
Spec == Init /\ [][Next]_vars
Held(rs) == {q \in Questions : UserHas(User(rs), q)}
\* holding a combined permission implies holding each part of it
PartsHeld == \A q \in Held(roles) : \A b \in q.a : [s |-> q.s, a |-> {b}] \in Held(roles)
\* nothing without an allowed permission that covers it
OnlyGranted == \A q \in Held(roles) : \E i \in RoleIds : \E p \in roles[i].allowed : Implies(p, q)
DeniedWins == \A q \in Held(roles) : \E i \in RoleIds : ~\E p \in roles[i].denied : Denies(p, q)
\* denying or removing never grants, allowing never takes away
LessGranted == \A i \in RoleIds : /\ roles'[i].allowed \subseteq roles[i].allowed
                                  /\ roles[i].denied \subseteq roles'[i].denied \/ roles'[i].allowed = {}
MoreGranted == \A i \in RoleIds : /\ roles[i].allowed \subseteq roles'[i].allowed
                                  /\ roles'[i].denied \subseteq roles[i].denied
Monotone == [][ /\ (LessGranted => Held(roles') \subseteq Held(roles))
                /\ (MoreGranted => Held(roles) \subseteq Held(roles')) ]_vars
ImpliesTransitive == \A p, q \in Perms : \A r \in Questions :
                       (Implies(p, q) /\ Implies(q, r) /\ "*" \notin SeqSet(Levels(q.s))) => Implies(p, r)
ASSUME ImpliesTransitive
=============================================================================
