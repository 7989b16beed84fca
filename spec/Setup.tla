------------------------------- MODULE Setup --------------------------------
(***************************************************************************)
(* What a mux is set up with.                                              *)
(* A configuration c: [ctx, ci, log (1: with a log function), res (1: with *)
(*   resources), tmpl ("", "own", "nil"), pattern, assets, mapping]        *)
(* Template files fs, in the order of their names: [path, base, ok (it     *)
(*   parses), defs: sequence of [n |-> name, parts |-> body]]; the parts   *)
(*   of a body: [k |-> "lit" | "data" | "safe" | "use" | "field", s]       *)
(***************************************************************************)
EXTENDS MuxTree
Or(x, d) == IF x = "" THEN d ELSE x
Shown(c) ==
  [ctx |-> Or(c.ctx, "/"), ci |-> c.ci, log |-> 1, res |-> c.res,
   pattern |-> IF c.res = 1 THEN Or(c.pattern, "resources/templates/*.html") ELSE "",
   assets |-> IF c.res = 1 THEN Or(c.assets, "./resources/assets") ELSE "",
   mapping |-> IF c.res = 1 THEN Or(c.mapping, "assets") ELSE ""]

RECURSIVE GlobSeg(_, _)
GlobSeg(p, s) ==
  IF p = "" THEN s = ""
  ELSE IF CharAt(p, 1) = "*" THEN GlobSeg(From(p, 2), s) \/ (s # "" /\ GlobSeg(p, From(s, 2)))
  ELSE s # "" /\ CharAt(p, 1) \in {"?", CharAt(s, 1)} /\ GlobSeg(From(p, 2), From(s, 2))
PatternHas(p, f) == LET a == Split(p, "/") b == Split(f, "/") IN
  Len(a) = Len(b) /\ \A i \in 1..Len(a) : GlobSeg(a[i], b[i])
Found(c, fs) == LET p == Shown(c).pattern IN SelectSeq(fs, LAMBDA f : ~Contains(p, "[") /\ PatternHas(p, f.path))
NeedsFiles(c) == c.res = 1 /\ c.tmpl = ""
MayStart(c, fs) == NeedsFiles(c) => Found(c, fs) # <<>> /\ \A i \in 1..Len(Found(c, fs)) : Found(c, fs)[i].ok = 1

\* the templates by name; of two with the same name the one of the later file counts
RECURSIVE DefsOf(_)
DefsOf(fs) ==
  IF fs = <<>> THEN <<>>
  ELSE LET f == fs[Len(fs)]
           own == [n \in {f.defs[i].n : i \in 1..Len(f.defs)} |->
                     f.defs[CHOOSE i \in 1..Len(f.defs) : f.defs[i].n = n].parts] IN
       own @@ DefsOf(SubSeq(fs, 1, Len(fs) - 1))
Uses(parts) == {parts[i].s : i \in {j \in 1..Len(parts) : parts[j].k = "use"}}
RECURSIVE Renderable(_, _, _)
Renderable(D, n, fuel) ==
  /\ n \in DOMAIN D /\ fuel > 0
  /\ \A i \in 1..Len(D[n]) : D[n][i].k # "field"
  /\ \A m \in Uses(D[n]) : Renderable(D, m, fuel - 1)
RECURSIVE HtmlText(_)
HtmlText(s) ==
  IF s = "" THEN ""
  ELSE LET x == CharAt(s, 1) IN
       (CASE x = "&" -> "&amp;" [] x = "<" -> "&lt;" [] x = ">" -> "&gt;" [] x = "\"" -> "&#34;" [] x = "'" -> "&#39;" [] x = "+" -> "&#43;" [] OTHER -> x)
       \o HtmlText(From(s, 2))
RECURSIVE Text(_, _, _)
Text(D, parts, data) ==
  IF parts = <<>> THEN ""
  ELSE LET p == parts[1] IN
       (CASE p.k = "lit" -> p.s [] p.k = "data" -> HtmlText(data) [] p.k = "safe" -> data [] p.k = "use" -> Text(D, D[p.s], data))
       \o Text(D, Tail(parts), data)

\* what the template of a mux makes of a name and data: [ok, body, ct]
TemplateKind(c) == IF c.res = 0 THEN "none" ELSE IF c.tmpl # "" THEN c.tmpl ELSE "files"
Rendered(c, fs, n, data) ==
  CASE TemplateKind(c) = "own" -> [ok |-> n # "broken", body |-> "own|" \o n \o "|" \o data, ct |-> "text/plain; charset=utf-8"]
    [] TemplateKind(c) = "nil" -> [ok |-> TRUE, body |-> "", ct |-> "text/plain; charset=utf-8"]
    [] OTHER -> LET D == DefsOf(Found(c, fs)) IN
         IF Renderable(D, n, 5) THEN [ok |-> TRUE, body |-> Text(D, D[n], data), ct |-> "text/html; charset=utf-8"]
         ELSE [ok |-> FALSE, body |-> "", ct |-> "text/html; charset=utf-8"]

\* the debug endpoints and what each of them serves
Diagnostics ==
  <<<<"/debug/pprof/", "index">>, <<"/debug/pprof/allocs", "allocs">>, <<"/debug/pprof/block", "block">>, <<"/debug/pprof/goroutine", "goroutine">>,
    <<"/debug/pprof/heap", "heap">>, <<"/debug/pprof/mutex", "mutex">>, <<"/debug/pprof/threadcreate", "threadcreate">>,
    <<"/debug/pprof/cmdline", "cmdline">>, <<"/debug/pprof/profile", "profile">>, <<"/debug/pprof/symbol", "symbol">>,
    <<"/debug/pprof/trace", "trace">>, <<"/debug/vars", "vars">>>>
\* enabled: the prefixes of the muxes the endpoints were enabled on
Served(enabled, prefix, k, method) ==
  IF method = "GET" /\ JoinPaths(prefix, Diagnostics[k][1]) \in {JoinPaths(p, Diagnostics[k][1]) : p \in enabled} THEN Diagnostics[k][2] ELSE ""
=============================================================================
