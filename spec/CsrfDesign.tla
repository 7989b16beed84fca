----------------------------- MODULE CsrfDesign -----------------------------
(***************************************************************************)
(* The design of the check: look the nonce up, remove it, issue a new one, *)
(* run the handler; the first two steps are atomic only under the lock.    *)
(***************************************************************************)
EXTENDS Csrf
CONSTANTS Threads, Ttl, MaxNow, MaxIssued, Locked
VARIABLES live, issued, now, lock, pc, arg, admitted
vars == <<live, issued, now, lock, pc, arg, admitted>>
Nonces == 1..MaxIssued
Forged == MaxIssued + 1
Init == live = <<>> /\ issued = 0 /\ now = 0 /\ lock = 0 /\ pc = [t \in Threads |-> "idle"] /\ arg = [t \in Threads |-> 0]
        /\ admitted = [n \in Nonces \cup {Forged} |-> 0]
Safe(t) == pc[t] = "idle" /\ pc' = [pc EXCEPT ![t] = "issue"] /\ UNCHANGED <<live, issued, now, lock, arg, admitted>>
Unsafe(t) == /\ pc[t] = "idle"
             /\ \E n \in 1..issued \cup {Forged} : arg' = [arg EXCEPT ![t] = n]
             /\ pc' = [pc EXCEPT ![t] = "check"] /\ UNCHANGED <<live, issued, now, lock, admitted>>
Check(t) == /\ pc[t] = "check" /\ (Locked => lock = 0)
            /\ IF Valid(live, arg[t], now)
               THEN pc' = [pc EXCEPT ![t] = "remove"] /\ lock' = IF Locked THEN t ELSE 0
               ELSE pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED lock
            /\ UNCHANGED <<live, issued, now, arg, admitted>>
Remove(t) == /\ pc[t] = "remove" /\ live' = [n \in DOMAIN live \ {arg[t]} |-> live[n]]
             /\ lock' = 0 /\ pc' = [pc EXCEPT ![t] = "issue"]
             /\ admitted' = [admitted EXCEPT ![arg[t]] = @ + 1]
             /\ UNCHANGED <<issued, now, arg>>
NewNonce(t) == /\ pc[t] = "issue" /\ issued < MaxIssued /\ issued' = issued + 1
               /\ live' = Issue(live, issued + 1, now + Ttl)
               /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<now, lock, arg, admitted>>
Tick == now < MaxNow /\ now' = now + 1 /\ UNCHANGED <<live, issued, lock, pc, arg, admitted>>
Next == Tick \/ \E t \in Threads : Safe(t) \/ Unsafe(t) \/ Check(t) \/ Remove(t) \/ NewNonce(t)
Spec == Init /\ [][Next]_vars
OnlyOnce == \A n \in DOMAIN admitted : admitted[n] <= 1
OnlyIssued == admitted[Forged] = 0
UsedIsDead == \A n \in DOMAIN live : admitted[n] = 0
=============================================================================
