--------------------------- MODULE CompressTrace ----------------------------
(***************************************************************************)
(* Responses received behind the compression middleware with the level of  *)
(* the session.                                                            *)
(*   one   d method ae g plain          a described response; plain: the   *)
(*                                      same without compression           *)
(*   ops   ops method ae g plain        an adapted handler that does ops   *)
(*   err   same noresp ran              the handler failed                 *)
(*   alg   ae g                         the level is not supported         *)
(***************************************************************************)
EXTENDS Compress, Json
CONSTANTS PROP, TraceFile
Sessions == ndJsonDeserialize(TraceFile)
VARIABLES sid, l, bad
vars == <<sid, l, bad>>
Ev == Sessions[sid].ev
Level == Sessions[sid].level
OwnCoding(d) == LET f == Headers(d) IN IF ~Hijacked(d) /\ "content-encoding" \in DOMAIN f THEN f["content-encoding"] ELSE ""
One(e) ==
  IF ~Sendable(e.d) THEN e.g.status # e.d.status
  ELSE LET own == OwnCoding(e.d) IN
  /\ Faithful(e.d, e.method, Undone(e.g, own))
  /\ e.g.dead = 0
  /\ CodingOK(e.ae, own, HasBody(e.d, e.method) /\ e.d.body # "" /\ ~Hijacked(e.d) /\ e.d.kind # "redirect" /\ "content-range" \notin DOMAIN Headers(e.d), e.g)
  /\ (e.d.kind = "redirect" /\ e.plain.res = "ok") => e.g.body = e.plain.body

(***************************************************************************)
(* An adapted handler: what it does to the writer.                         *)
(*   wh n | w n (n bytes) | fl | set k v                                   *)
(***************************************************************************)
W0 == [status |-> 0, size |-> 0, coding |-> "", range |-> "", ct |-> "", snapCoding |-> "", snapRange |-> "", snapCt |-> ""]
Commit(w, s) == IF w.status # 0 THEN w ELSE [w EXCEPT !.status = s, !.snapCoding = w.coding, !.snapRange = w.range, !.snapCt = w.ct]
Step(w, o) ==
  CASE o.o = "wh" -> IF o.n < 200 THEN w ELSE Commit(w, o.n)
    [] o.o \in {"w", "ws", "rf"} -> LET x == Commit(w, 200) IN [x EXCEPT !.size = IF x.status \in {204, 304} THEN @ ELSE @ + o.n]
    [] o.o = "fl" -> Commit(w, 200)
    [] o.o = "ce" -> [w EXCEPT !.coding = "br"]
    [] o.o = "cr" -> [w EXCEPT !.range = "bytes 0-1/2"]
    [] o.o = "ct" -> [w EXCEPT !.ct = "text/x-own"]
    [] OTHER -> w
RECURSIVE After(_, _)
After(w, ops) == IF ops = <<>> THEN w ELSE After(Step(w, ops[1]), Tail(ops))
Keep(g, ct) == {<<x.k, x.v>> : x \in {y \in SeqSet(g.h) : y.k \notin Auto \/ (y.k = "content-type" /\ ct # "")}}
Ops(e) ==
  LET w == Commit(After(W0, e.ops), 200)
      u == Undone(e.g, w.snapCoding) IN
  /\ e.plain.res = "ok" /\ e.g.res = "ok" /\ e.g.dead = 0
  /\ e.plain.status = w.status /\ u.status = w.status
  /\ e.plain.size = (IF e.method = "HEAD" THEN 0 ELSE w.size)
  /\ u.size = e.plain.size /\ u.body = e.plain.body
  /\ Keep(u, w.snapCt) = Keep(e.plain, w.snapCt)
  /\ CodingOK(e.ae, w.snapCoding, w.size > 0 /\ e.method # "HEAD" /\ w.snapRange = "", e.g)

Ok(e) ==
  CASE e.e = "err" -> e.same = 1 /\ e.noresp = 1 /\ e.ran = 1
    [] e.panics # 0 -> FALSE
    \* an unsupported level never makes a response
    [] ~ValidLevel(Level) -> e.g.res = "ok" /\ e.g.status = 500 /\ e.g.enc = "" /\ e.g.body = "" /\ e.logged = 1
    [] e.e = "ops" -> Ops(e)
    [] OTHER -> One(e)
Init == sid \in 1..Len(Sessions) /\ l = 1 /\ bad = <<>>
Next == /\ bad = <<>> /\ l <= Len(Ev)
        /\ l' = l + 1 /\ UNCHANGED sid
        /\ bad' = IF Ok(Ev[l]) THEN <<>> ELSE <<sid, l>>
Spec == Init /\ [][Next]_vars
Accepted == bad = <<>> \/ Print(ToJson([sid |-> bad[1], line |-> bad[2], level |-> Sessions[bad[1]].level, event |-> Sessions[bad[1]].ev[bad[2]]]), FALSE)
=============================================================================
