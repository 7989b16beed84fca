----------------------------- MODULE SseFields ------------------------------
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
CONSTANTS OutFile, Full
Texts == {"", "x", " y", "a\nb", "c\r\nd\re\n"} \cup (IF Full THEN {":z", "\n"} ELSE {})
Datas == {<<>>} \cup {<<a>> : a \in Texts} \cup {<<a, b>> : a \in Texts, b \in Texts}
Events == [name : {"", "tick", "data: x"}, id : {"", "7", " a:b"}, retry : {0, 1500}, data : Datas]
ASSUME JsonSerialize(OutFile, SetToSeq(Events))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
