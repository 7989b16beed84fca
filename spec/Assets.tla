------------------------------- MODULE Assets -------------------------------
(***************************************************************************)
(* Static resources. A site: [mount (segments), files, dirs (paths         *)
(* relative to the assets directory, "" being the directory itself)].      *)
(* A request: [raw, path (decoded), enc (the canonical spelling of path)]. *)
(***************************************************************************)
EXTENDS Text
RECURSIVE Walk(_, _)
\* the segments a path leads to; ".." at the top stays there
Walk(acc, segs) ==
  IF segs = <<>> THEN acc
  ELSE Walk(CASE segs[1] \in {"", "."} -> acc
              [] segs[1] = ".." -> IF acc = <<>> THEN <<>> ELSE SubSeq(acc, 1, Len(acc) - 1)
              [] OTHER -> Append(acc, segs[1]), Tail(segs))
Below(mount, segs) == Len(mount) <= Len(segs) /\ SubSeq(segs, 1, Len(mount)) = mount
Rest(mount, segs) == SubSeq(segs, Len(mount) + 1, Len(segs))
PathSegs(p) == LET s == Split(p, "/") IN IF s[1] = "" THEN Tail(s) ELSE s

\* a request that is spelled the one canonical way
Canonical(q) == /\ q.raw = q.enc /\ StartsWith(q.path, "/")
                /\ \A i \in 1..Len(PathSegs(q.path)) : PathSegs(q.path)[i] \notin {"", ".", ".."}
\* the path of the asset it asks for
Asked(site, q) == Join(Rest(site.mount, PathSegs(q.path)), "/")
AsksAsset(site, q) == Canonical(q) /\ Below(site.mount, PathSegs(q.path)) /\ Len(PathSegs(q.path)) > Len(site.mount)
\* what any other spelling may lead to, if to something: cleaned before or after the mount is taken off
Clean(site, q) ==
  LET segs == PathSegs(q.path)
      whole == Walk(<<>>, segs) IN
     (IF Below(site.mount, whole) THEN {Join(Rest(site.mount, whole), "/")} ELSE {})
  \cup (IF Below(site.mount, segs) THEN {Join(Walk(<<>>, Rest(site.mount, segs)), "/")} ELSE {})
InDir(d, f) == IF d = "" THEN f ELSE d \o "/" \o f
(***************************************************************************)
(* Further requests for a file that is served ([whole] is its text): a     *)
(* part of it, first..last (-1: open), the file if it was modified (d      *)
(* seconds after its own time), with a query, with another method          *)
(***************************************************************************)
PartOf(m) ==
  LET n == Len(m.whole)
      f == IF m.first >= 0 THEN m.first ELSE IF m.last >= n THEN 0 ELSE n - m.last
      t == IF m.first < 0 \/ m.last < 0 THEN n - 1 ELSE MinOf({m.last, n - 1})
  IN [none |-> f >= n, first |-> f, last |-> t, odd |-> m.first >= 0 /\ m.last >= 0 /\ m.last < m.first]
TypeOf(ext) == CASE ext = "txt" -> "text/plain; charset=utf-8" [] ext = "html" -> "text/html; charset=utf-8" [] OTHER -> ""
MoreOk(m) ==
  CASE m.kind = "part" ->
         LET p == PartOf(m) IN
         IF p.odd THEN m.status = 416 \/ (m.status = 200 /\ m.text = m.whole)     \* not a range at all
         ELSE IF p.none THEN m.status = 416
         ELSE /\ m.status = 206 /\ m.text = SubSeq(m.whole, p.first + 1, p.last + 1)
              /\ m.cr = "bytes " \o ToString(p.first) \o "-" \o ToString(p.last) \o "/" \o ToString(Len(m.whole))
    [] m.kind = "since" -> /\ m.lm = 1
                           /\ IF m.d >= 0 THEN m.status = 304 /\ m.text = "" ELSE m.status = 200 /\ m.text = m.whole
    [] m.kind = "query" -> m.status = 200 /\ m.text = m.whole
    [] m.kind = "type" -> m.status = 200 /\ (TypeOf(m.ext) # "" => m.ct = TypeOf(m.ext)) /\ m.cl = ToString(Len(m.whole))
    [] m.kind = "other" -> m.text = "" \/ (m.status # 200)
=============================================================================
