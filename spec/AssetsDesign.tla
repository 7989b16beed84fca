---------------------------- MODULE AssetsDesign ----------------------------
(***************************************************************************)
(* Where a path leads in a file system: the server opens root + path, the  *)
(* file system follows ".." for real. CLEAN: the path is made absolute and *)
(* cleaned below the root first.                                           *)
(***************************************************************************)
EXTENDS Assets
CONSTANTS MaxLen, CLEAN
VARIABLES path
Segs == {"", ".", "..", "a", "b"}
Root == <<"srv", "assets">>
RECURSIVE Follow(_, _)
Follow(at, segs) == IF segs = <<>> THEN at
                    ELSE Follow(CASE segs[1] \in {"", "."} -> at
                                  [] segs[1] = ".." -> IF at = <<>> THEN <<>> ELSE SubSeq(at, 1, Len(at) - 1)
                                  [] OTHER -> Append(at, segs[1]), Tail(segs))
Opened == Follow(Root, IF CLEAN THEN Walk(<<>>, path) ELSE path)
Init == path = <<>>
Next == Len(path) < MaxLen /\ \E s \in Segs : path' = Append(path, s)
Spec == Init /\ [][Next]_path
Inside == Below(Root, Opened)
\* what is canonical is opened as it is
Exact == (\A i \in 1..Len(path) : path[i] \notin {"", ".", ".."}) => Opened = Root \o path
=============================================================================
