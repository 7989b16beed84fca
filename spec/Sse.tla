-------------------------------- MODULE Sse ---------------------------------
(***************************************************************************)
(* The text of an event stream. An event: [name, id, data (texts), retry   *)
(* (0: none)]; a block: the fields a client reads before an empty line.    *)
(***************************************************************************)
EXTENDS Text, SequencesExt
NoBlock == [name |-> "", id |-> "", data |-> <<>>, retry |-> ""]

\* lines end with LF, CR or CR LF
Lines(s) ==
  LET ends == {i \in 1..Len(s) : LET c == CharAt(s, i) IN c = "\r" \/ (c = "\n" /\ IF i = 1 THEN TRUE ELSE CharAt(s, i - 1) # "\r")}
      B == SetToSortSeq(ends, <)
      n == Len(B)
      After(p) == IF CharAt(s, p) = "\r" /\ p < Len(s) /\ CharAt(s, p + 1) = "\n" THEN p + 2 ELSE p + 1
  IN [k \in 1..(n + 1) |-> LET from == IF k = 1 THEN 1 ELSE After(B[k - 1])
                               to == IF k = n + 1 THEN Len(s) ELSE B[k] - 1
                           IN SubSeq(s, from, to)]

\* one line of the stream
Field(b, line) ==
  LET p == FirstPos(line, ":")
      k == IF p = 0 THEN line ELSE Upto(line, p - 1)
      raw == IF p = 0 THEN "" ELSE From(line, p + 1)
      v == IF raw # "" /\ CharAt(raw, 1) = " " THEN From(raw, 2) ELSE raw
  IN CASE k = "" -> b                             \* a comment
       [] k = "event" -> [b EXCEPT !.name = v]
       [] k = "data" -> [b EXCEPT !.data = Append(@, v)]
       [] k = "id" -> [b EXCEPT !.id = v]
       [] k = "retry" -> [b EXCEPT !.retry = v]
       [] OTHER -> [b EXCEPT !.name = "unknown field: " \o line]
\* the complete blocks of the lines: [b] is the one under way, [acc] those before it
ReadLine(st, line) ==
  IF line = "" THEN [b |-> NoBlock, acc |-> IF st.b = NoBlock THEN st.acc ELSE Append(st.acc, st.b)]
  ELSE [st EXCEPT !.b = Field(@, line)]
Blocks(ls) == FoldLeft(ReadLine, [b |-> NoBlock, acc |-> <<>>], ls).acc
\* the last line is complete only if its end is there: then the split leaves an empty text after it
Parse(text) == LET ls == Lines(text) IN Blocks(SubSeq(ls, 1, Len(ls) - 1))
Whole(text) == LET ls == Lines(text) IN ls[Len(ls)] = "" /\ (Len(ls) = 1 \/ ls[Len(ls) - 1] = "")

AllLines(ds) == FoldLeft(LAMBDA acc, d : acc \o Lines(d), <<>>, ds)
BlockOf(e) == [name |-> e.name, id |-> e.id, data |-> AllLines(e.data), retry |-> IF e.retry > 0 THEN ToString(e.retry) ELSE ""]
\* what a client reads of the events
Expected(es) == FoldLeft(LAMBDA acc, e : IF BlockOf(e) = NoBlock THEN acc ELSE Append(acc, BlockOf(e)), <<>>, es)
=============================================================================
