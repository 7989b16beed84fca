---------------------------- MODULE CacheDesign -----------------------------
(***************************************************************************)
(* The design of the cache: a map guarded by a readers-writer lock, every  *)
(* operation being several steps of its thread.  TLC explores all the      *)
(* interleavings with the passing of time and checks that no two threads   *)
(* ever touch the map while one of them writes it and that every result is *)
(* the one of the abstract cache at some moment of the call.               *)
(***************************************************************************)
EXTENDS Cache
CONSTANTS Threads, Keys, Lives, MaxNow, MaxOps, Locked
VARIABLES map, now, writer, readers, pc, op, ops, cfgs, bad
vars == <<map, now, writer, readers, pc, op, ops, cfgs, bad>>
Ops == {[o |-> "add", k |-> k, d |-> d] : k \in Keys, d \in Lives} \cup {[o |-> "remove", k |-> k, d |-> 0] : k \in Keys}
       \cup {[o |-> "contains", k |-> k, d |-> 0] : k \in Keys}
None == [o |-> "none", k |-> "", d |-> 0]
Init == /\ map = Empty /\ now = 0 /\ writer = {} /\ readers = {}
        /\ pc = [t \in Threads |-> "idle"] /\ op = [t \in Threads |-> None] /\ ops = 0
        /\ cfgs = Start /\ bad = FALSE
Call(t) == /\ pc[t] = "idle" /\ ops < MaxOps
           /\ \E o \in Ops : op' = [op EXCEPT ![t] = o] /\ cfgs' = Close(Called(cfgs, t, o), now)
           /\ pc' = [pc EXCEPT ![t] = "lock"] /\ ops' = ops + 1
           /\ UNCHANGED <<map, now, writer, readers, bad>>
Lock(t) == /\ pc[t] = "lock"
           /\ IF op[t].o = "contains"
              THEN writer = {} /\ readers' = readers \cup {t} /\ UNCHANGED writer
              ELSE (~Locked \/ (writer = {} /\ readers = {})) /\ writer' = writer \cup {t} /\ UNCHANGED readers
           /\ pc' = [pc EXCEPT ![t] = "work"]
           /\ UNCHANGED <<map, now, op, ops, cfgs, bad>>
Work(t) == /\ pc[t] = "work"
           /\ map' = After(map, op[t], now)
           /\ LET r == Result(map, op[t], now)
                  nx == Returned(cfgs, t, r, now)
              IN /\ cfgs' = nx /\ bad' = (bad \/ nx = {})
           /\ writer' = writer \ {t} /\ readers' = readers \ {t}
           /\ pc' = [pc EXCEPT ![t] = "idle"] /\ op' = [op EXCEPT ![t] = None]
           /\ UNCHANGED <<now, ops>>
Tick == /\ now < MaxNow /\ now' = now + 1 /\ cfgs' = Close(Close(cfgs, now), now + 1)
        /\ UNCHANGED <<map, writer, readers, pc, op, ops, bad>>
Next == Tick \/ \E t \in Threads : Call(t) \/ Lock(t) \/ Work(t)
Spec == Init /\ [][Next]_vars
NoRace == \A t, u \in Threads : t # u /\ t \in writer => u \notin writer \cup readers
Linearizable == ~bad
=============================================================================
