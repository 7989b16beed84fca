------------------------------- MODULE SecGen -------------------------------
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
CONSTANTS OutFile, Ages, Uris
Flag == {0, 1}
\* the settings of a disabled header stay what they are: they must not matter
Configs ==
  {[sts |-> s.sts, age |-> s.age, sub |-> s.sub, preload |-> s.preload,
    cj |-> f.cj, from |-> f.from, value |-> f.value, uri |-> f.uri, sniff |-> n, xss |-> x] :
     s \in [sts : Flag, age : Ages, sub : Flag, preload : Flag],
     f \in [cj : Flag, from : {0}, value : {"DENY", "SAMEORIGIN"}, uri : {""}] \cup [cj : Flag, from : {1}, value : {"ALLOW-FROM"}, uri : Uris],
     n \in Flag, x \in Flag}
ASSUME JsonSerialize(OutFile, SetToSeq(Configs))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
