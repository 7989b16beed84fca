----------------------------- MODULE AssetsTrace ----------------------------
(***************************************************************************)
(* Answers to asset requests over a scratch tree.                          *)
(*   event: q, status, cls (what the body is: "file" with its path in of,  *)
(*   "listing", "secret" (of something outside the assets directory),      *)
(*   "none" (no body), "other"), fin, fof: the same after the redirects    *)
(*   more: further requests for a served file (Assets!MoreOk)              *)
(***************************************************************************)
EXTENDS Assets, Json
CONSTANTS PROP, TraceFile
Sessions == ndJsonDeserialize(TraceFile)
VARIABLES sid, l, bad
vars == <<sid, l, bad>>
Ev == Sessions[sid].ev
S == Sessions[sid].site
Files == SeqSet(S.files)
Dirs == SeqSet(S.dirs)
\* nothing from outside, and from inside only what the path leads to
Contained(site, e) ==
  /\ e.cls # "secret" /\ e.fin # "secret"
  /\ (e.status = 200 /\ e.cls \notin {"file", "listing"}) => FALSE
  /\ e.cls = "file" => \E c \in Clean(site, e.q) : e.of = c \/ (c \in Dirs /\ e.of = InDir(c, "index.html"))
  /\ e.cls = "listing" => Clean(site, e.q) \cap Dirs # {}
LastSeg(q) == LET s == PathSegs(q.path) IN s[Len(s)]
Ok(site, e) ==
  /\ Contained(site, e)
  /\ \A k \in 1..Len(e.more) : MoreOk(e.more[k])
  /\ AsksAsset(site, e.q) =>
       LET a == Asked(site, e.q) IN
       IF a \in Files THEN e.fin = "file" /\ e.fof = a /\ e.fstatus = 200
       ELSE IF a \in Dirs THEN TRUE
       ELSE \* the standard file server first sends .../index.html to ...
            \* (which, when it is a file, answers to .../ as itself)
            IF LastSeg(e.q) = "index.html" THEN e.fstatus = 404 \/ e.fin = "listing" \/ (e.fin = "file" /\ InDir(e.fof, "index.html") = a)
            ELSE e.status = 404
Init == sid \in 1..Len(Sessions) /\ l = 1 /\ bad = <<>>
Next == /\ bad = <<>> /\ l <= Len(Ev)
        /\ l' = l + 1 /\ UNCHANGED sid
        /\ bad' = IF Ok(S, Ev[l]) THEN <<>> ELSE <<sid, l>>
Spec == Init /\ [][Next]_vars
Accepted == bad = <<>> \/ LET x == Sessions[bad[1]] IN
  Print(ToJson([sid |-> bad[1], line |-> bad[2], event |-> x.ev[bad[2]], config |-> x.site.config, asks |-> AsksAsset(x.site, x.ev[bad[2]].q), leads |-> Clean(x.site, x.ev[bad[2]].q)]), FALSE)
=============================================================================
