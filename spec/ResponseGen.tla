---------------------------- MODULE ResponseGen -----------------------------
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
CONSTANTS OutFile, Statuses, Methods
Kinds == {"text", "html", "json", "jsonerr", "raw", "stream", "template", "htmltemplate", "redirect", "plain", "adaptor", "sse", "hijack"}
\* an adapted handler chooses its status itself
Sane(k, s) == /\ (k = "adaptor" => s = 0 \/ s \in 200..999)
              \* what an event stream with another status than 200 means is left open
              /\ (k = "sse" => s = 200)
Overrides == {"none", "ct", "emptyct", "sniff", "lowerct"}
Shapes == {x \in [kind : Kinds, status : Statuses \cup {-1}, method : Methods, over : Overrides, mw : {0, 1}] : Sane(x.kind, x.status)}
ASSUME JsonSerialize(OutFile, SetToSeq(Shapes))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
