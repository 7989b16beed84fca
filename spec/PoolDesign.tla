----------------------------- MODULE PoolDesign -----------------------------
(***************************************************************************)
(* Responses that take their header map from a pool when they first need   *)
(* one and give it back when they are written. Emitting, clearing, giving  *)
(* back and forgetting are separate steps, other responses move between    *)
(* them. CLEAR / FORGET = FALSE leave out that step.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Responses, Maps, MaxPut, CLEAR, FORGET
VARIABLES pool,   \* maps that may be taken, in a bag
          content,\* of every map: the <<response, number>> entries
          holds,  \* response -> map, 0: none
          pc, puts, emitted
vars == <<pool, content, holds, pc, puts, emitted>>
Init == /\ pool = [m \in Maps |-> 1] /\ content = [m \in Maps |-> {}]
        /\ holds = [r \in Responses |-> 0] /\ pc = [r \in Responses |-> "live"]
        /\ puts = [r \in Responses |-> 0] /\ emitted = [r \in Responses |-> {}]
Go(r, p) == pc' = [pc EXCEPT ![r] = p]
Take(r) == /\ pc[r] = "live" /\ holds[r] = 0
           /\ \E m \in Maps : pool[m] > 0 /\ pool' = [pool EXCEPT ![m] = @ - 1] /\ holds' = [holds EXCEPT ![r] = m]
           /\ UNCHANGED <<content, pc, puts, emitted>>
PutIn(r) == /\ pc[r] = "live" /\ holds[r] # 0 /\ puts[r] < MaxPut
            /\ content' = [content EXCEPT ![holds[r]] = @ \cup {<<r, puts[r] + 1>>}]
            /\ puts' = [puts EXCEPT ![r] = @ + 1] /\ UNCHANGED <<pool, holds, pc, emitted>>
Emit(r) == /\ pc[r] = "live" /\ emitted' = [emitted EXCEPT ![r] = IF holds[r] = 0 THEN {} ELSE content[holds[r]]]
           /\ Go(r, IF holds[r] = 0 THEN "live" ELSE "clear") /\ UNCHANGED <<pool, content, holds, puts>>
ClearIt(r) == /\ pc[r] = "clear" /\ Go(r, "give")
              /\ content' = IF CLEAR THEN [content EXCEPT ![holds[r]] = {}] ELSE content
              /\ UNCHANGED <<pool, holds, puts, emitted>>
Give(r) == pc[r] = "give" /\ Go(r, "forget") /\ pool' = [pool EXCEPT ![holds[r]] = @ + 1] /\ UNCHANGED <<content, holds, puts, emitted>>
Forget(r) == /\ pc[r] = "forget" /\ Go(r, "live")
             /\ holds' = IF FORGET THEN [holds EXCEPT ![r] = 0] ELSE holds
             /\ UNCHANGED <<pool, content, puts, emitted>>
Drop(r) == pc[r] = "live" /\ holds' = [holds EXCEPT ![r] = 0] /\ UNCHANGED <<pool, content, pc, puts, emitted>>
Next == \E r \in Responses : Take(r) \/ PutIn(r) \/ Emit(r) \/ ClearIt(r) \/ Give(r) \/ Forget(r) \/ Drop(r)
Spec == Init /\ [][Next]_vars
OwnOnly == \A r \in Responses : \A x \in emitted[r] : x[1] = r
\* nobody but one response can reach a map (the one giving it back does not touch it any more)
Owned == \A m \in Maps : pool[m] + Cardinality({r \in Responses : holds[r] = m /\ pc[r] # "forget"}) <= 1
PoolClean == \A m \in Maps : pool[m] > 0 => content[m] = {}
=============================================================================
