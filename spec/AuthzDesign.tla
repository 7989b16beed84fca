---------------------------- MODULE AuthzDesign -----------------------------
(***************************************************************************)
(* A request walks through suppliers and authorizations in any order. The  *)
(* asked permissions are abstracted to what they decide: whether the       *)
(* principal of a layer has all or any of them. CHECKED = FALSE lets a     *)
(* request without a principal pass the way one with nothing to ask would. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Max, Perms, CHECKED
VARIABLES who,      \* 0: nobody, else the number of the principal
          granted,  \* what each principal may do
          asked,    \* <<principal, permissions, all?>> of the authorizations passed
          state, n
vars == <<who, granted, asked, state, n>>
Init == who = 0 /\ granted \in [1..2 -> SUBSET Perms] /\ asked = <<>> /\ state = "on its way" /\ n = 0
Walking == state = "on its way" /\ n < Max /\ n' = n + 1
Supplied == Walking /\ \E p \in 1..2 : who' = p /\ UNCHANGED <<granted, asked, state>>
Nobody == Walking /\ UNCHANGED <<who, granted, asked, state>>
Fails == Walking /\ state' = "failed" /\ UNCHANGED <<who, granted, asked>>
Passes(ps, all) == IF who = 0 THEN ~CHECKED /\ all /\ ps = {} ELSE IF all THEN ps \subseteq granted[who] ELSE ps \cap granted[who] # {}
Authorize == /\ Walking
             /\ \E ps \in SUBSET Perms, all \in BOOLEAN :
                  IF Passes(ps, all)
                  THEN asked' = Append(asked, <<who, ps, all>>) /\ UNCHANGED <<who, granted, state>>
                  ELSE state' = "unauthorized" /\ UNCHANGED <<who, granted, asked>>
Handle == state = "on its way" /\ state' = "handled" /\ UNCHANGED <<who, granted, asked, n>>
Next == Supplied \/ Nobody \/ Fails \/ Authorize \/ Handle
Spec == Init /\ [][Next]_vars
\* whoever reaches the handler had a principal at every authorization, which had what was asked of it
Closed == state = "handled" => \A i \in 1..Len(asked) :
            /\ asked[i][1] # 0
            /\ IF asked[i][3] THEN asked[i][2] \subseteq granted[asked[i][1]] ELSE asked[i][2] \cap granted[asked[i][1]] # {}
Final == [][state # "on its way" => state' = state]_vars
=============================================================================
