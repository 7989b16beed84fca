--------------------------- MODULE MuxTreeDesign ----------------------------
(***************************************************************************)
(* Why deriving a mux must copy the middleware list: lists are kept in     *)
(* arrays with spare capacity, as growing a Go slice leaves them.  With    *)
(* Copy the lists seen through the arrays are always those of MuxTree;     *)
(* without it they are not (NoSideways is violated).                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Copy, MaxMuxes, MaxOps
VARIABLES abs, heap, ref, n
\* abs[i]: the list of mux i; heap: arrays; ref[i] = [a |-> array, len |-> length]
vars == <<abs, heap, ref, n>>
Nil == [a |-> 0, len |-> 0]
Init == abs = <<<<>>>> /\ heap = <<>> /\ ref = <<Nil>> /\ n = 0
View(i) == IF ref[i].a = 0 THEN <<>> ELSE SubSeq(heap[ref[i].a], 1, ref[i].len)
Pad(s, cap) == s \o [k \in 1..(cap - Len(s)) |-> 0]
RECURSIVE Grow(_, _)
Grow(cap, need) == IF cap >= need THEN cap ELSE Grow(IF cap = 0 THEN 1 ELSE 2 * cap, need)
\* append of ms to list i, the way slices grow
Add(i, ms) ==
  LET r == ref[i]
      cap == IF r.a = 0 THEN 0 ELSE Len(heap[r.a])
      need == r.len + Len(ms)
  IN /\ IF need <= cap
        THEN /\ heap' = [heap EXCEPT ![r.a] = [k \in 1..cap |-> IF k > r.len /\ k <= need THEN ms[k - r.len] ELSE @[k]]]
             /\ ref' = [ref EXCEPT ![i].len = need]
        ELSE /\ heap' = Append(heap, Pad(View(i) \o ms, Grow(cap, need)))
             /\ ref' = [ref EXCEPT ![i] = [a |-> Len(heap) + 1, len |-> need]]
     /\ abs' = [abs EXCEPT ![i] = @ \o ms]
Derive(i) ==
  /\ Len(abs) < MaxMuxes
  /\ abs' = Append(abs, abs[i])
  /\ IF Copy /\ ref[i].len > 0
     THEN heap' = Append(heap, View(i)) /\ ref' = Append(ref, [a |-> Len(heap) + 1, len |-> ref[i].len])
     ELSE heap' = heap /\ ref' = Append(ref, IF Copy THEN Nil ELSE ref[i])
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \E i \in 1..Len(abs) : \/ \E k \in 1..2 : Add(i, [j \in 1..k |-> 10 * (n + 1) + j])
                                  \/ Derive(i)
Spec == Init /\ [][Next]_vars
NoSideways == \A i \in 1..Len(abs) : View(i) = abs[i]
=============================================================================
