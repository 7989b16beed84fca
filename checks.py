"""Which specification decides which property, with which bounds."""
import glob, json, os

CHECKS = {}
ASSUMPTIONS = {"*": ["TLC and the Go toolchain are correct", "the driver records what the code returned"]}


# how the specification is bound to the code, and what the result rests on (copied into MANIFEST.json)
TECHNIQUE, NOTE = {}, {}


def about(props, technique, note):
    for p in props.split():
        TECHNIQUE[p], NOTE[p] = technique, note


about("R01 R02 R03 R04 R05 R06 R07",
      "dispatch traces of the real mux validated against Routing.tla, tables and paths enumerated by TLC plus seeded tables",
      "Exhaustive over the enumerated small tables and paths, sampled (seeded) beyond; constraints are limited to the regular expressions the specification evaluates itself.")
about("A01 A02 A03 A04",
      "decisions of the real code validated against Auth.tla on inputs enumerated by TLC plus seeded ones",
      "Exhaustive over the enumerated scopes/texts, sampled (seeded) beyond.")
about("K01",
      "every operation sequence of Cache.tla replayed on a controlled clock, concurrent histories checked for linearizability against it, race detector",
      "Sequential behaviours exhaustive up to the bound; concurrent schedules are those real threads produced (the locking design itself is model checked in CacheDesign).")
about("S01",
      "every behaviour of Csrf.tla replayed on a controlled clock, concurrent presentations validated against all serial orders, race detector",
      "Behaviours exhaustive up to the bound; overlap of concurrent presentations is forced through a cache whose look-ups wait for each other.")

about("E01",
      "every stack of layers enumerated by TLC is built from the real middlewares with probes between the layers; each step up and down is validated against Stack.tla",
      "All stacks up to the bound with every handler outcome; concrete errors and panic values are drawn from a list by the seed.")

about("M01 M02",
      "every operation sequence of the mux tree specification replayed on real muxes, requests validated against MuxTree.tla",
      "All operation sequences and prefix chains up to the bound, longer ones drawn by the seed.")

about("O01",
      "every login history of the OAuth specification replayed on the real endpoints with a scripted provider and a controlled clock, validated against OAuth.tla",
      "All histories up to the bound (callbacks deviating in one way), longer ones and several sites drawn by the seed; the provider is a stand-in, the bundled ones are O02.")


def check(*props):
    def reg(f):
        for p in props:
            CHECKS[p] = f
        return f
    return reg


def traces(d, pat="*.ndjson"):
    return glob.glob(os.path.join(d, pat))


def count(files, regex):
    """how often something was observed (vacuity guards)"""
    import re
    rx = re.compile(regex)
    return sum(len(rx.findall(open(f, encoding="utf-8", errors="replace").read())) for f in files)


# ------------------------------------------------------------------ routing
@check("R01", "R02", "R03", "R04", "R05", "R06", "R07")
def routing(r):
    if r.prop in ("R01", "R02", "R03"):
        r.check_design("RoutingTrie", "RoutingTrie_q")
        r.check_design("RoutingTrie", "RoutingTrie_deep")
        r.check_design("RoutingTrie", "RoutingTrie_three")
        if r.thorough:
            r.check_design("RoutingTrie", "RoutingTrie_big", timeout=3000, mem="16g")
    r.generate("RoutingGen", "routing.json", dict(
        GenSegs={"a", "b", "{x}", "{y:^[0-9]+$}", "a*", "*", "**"}, GenLen=2,
        GenTexts={"a", "b", "1", "ab"}, GenPath=3))
    d = r.drive("routing")
    r.validate("RoutingTrace", traces(d), workers=2, jobs=4, invariants=("Accepted", "Consumed"))


# ------------------------------------------------------------ authorization
@check("A01", "A02", "A03", "A04")
def authorization(r):
    if r.prop in ("A01", "A02"):
        r.check_design("AuthDesign", "AuthDesign_deep" if r.thorough else "AuthDesign_q")
    if r.prop == "A03":
        r.check_design("AuthzDesign", "AuthzDesign_q")
        r.check_design_fails("AuthzDesign", "AuthzDesign_bad")
    r.generate("AuthGen", "auth.json", dict(TextLen=(5 if r.thorough else 4) if r.prop == "A04" else 1))
    d = r.drive("auth")
    r.validate("AuthTrace", traces(d), workers=3, jobs=3)


# -------------------------------------------------------------------- cache
@check("K01")
def cache(r):
    r.check_design("CacheDesign", "CacheDesign_deep" if r.thorough else "CacheDesign_q")
    r.behaviours("CacheGen", "cache.json", dict(Keys={"a", "b"}, Lives={0, 1, 2}, N=5 if r.thorough else 4))
    d = r.drive("cache")
    r.validate("CacheTrace", traces(d), workers=3, jobs=3)
    d = r.drive("cache", race=True, name="race")
    r.validate("CacheTrace", traces(d), workers=8, jobs=1)


# --------------------------------------------------------------------- csrf
@check("S01")
def csrf(r):
    r.check_design("CsrfDesign", "CsrfDesign_deep" if r.thorough else "CsrfDesign_q")
    r.behaviours("CsrfGen", "csrf.json", dict(N=5 if r.thorough else 4, Ttl=2))
    d = r.drive("csrf")
    r.validate("CsrfTrace", traces(d), workers=2, jobs=5)
    d = r.drive("csrf", race=True, name="race")
    r.validate("CsrfTrace", traces(d), workers=8, jobs=1)


# ---------------------------------------------------------- errors and panics
@check("E01")
def errors(r):
    r.check_design("StackDesign", "StackDesign_deep" if r.thorough else "StackDesign_q")
    r.generate("StackGen", "stacks.json", dict(MaxLen=4 if r.thorough else 3, MaxFaults=2))
    d = r.drive("stack", env={"GODEBUG": "panicnil=0"})
    r.validate("StackTrace", traces(d), workers=8, jobs=1)
    r.need("errors answered by the error middlewares", count(traces(d), r'"by":"(err|json)"[^}]*"e":"client"'), 300)
    r.need("panics recovered", count(traces(d), r'recover from panic'), 300)
    r.need("panics that escaped", count(traces(d), r'"t":"escaped"'), 50)
    d = r.drive("stack", name="panicnil", env={"GODEBUG": "panicnil=1"})
    r.validate("StackTrace", traces(d), workers=8, jobs=1)


# ----------------------------------------------------------------- mux trees
@check("M01", "M02")
def muxes(r):
    if r.prop == "M01":
        r.check_design("MuxTreeDesign", "MuxTreeDesign_deep" if r.thorough else "MuxTreeDesign_q")
        r.check_design_fails("MuxTreeDesign", "MuxTreeDesign_bad")
        r.behaviours("MuxGen", "mux.json", dict(N=5 if r.thorough else 4, MaxMuxes=3))
    else:
        r.generate("MuxChainGen", "chains.json", dict(MaxLen=4 if r.thorough else 3, Prefixes={"/a", "a", "/a/", "b/", "/", "/{v}"},
                                                      Paths={"/a", "b", "", "/", "/a/", "/*"}))
    d = r.drive("mux")
    r.validate("MuxTrace", traces(d), workers=4 if r.prop == "M02" else 8, jobs=2)
    r.need("requests that reached a handler", count(traces(d), r'"seq":\[-?[0-9]'), 2000)


# -------------------------------------------------------------------- set-up
about("M03",
      "traces of real muxes of every configuration TLC enumerates (defaults, template files, derived muxes, debug endpoints, log functions) validated against Setup.tla; design models of prefixed diagnostics and of escaping",
      "Exhaustive over the enumerated configurations, sampled (seeded) template files, data and derivations; data is escaped in the text context of HTML only.")


@check("M03")
def setup(r):
    r.check_design("SetupDesign", "SetupDesign_q")
    r.check_design_fails("SetupDesign", "SetupDesign_bad")
    r.generate("SetupGen", "setups.json")
    d = r.drive("setup")
    r.validate("SetupTrace", traces(d), workers=8, jobs=1)
    r.need("templates rendered", count(traces(d), r'"e":"render"'), 500)
    r.need("diagnostics served", count(traces(d), r'"got":"[a-z]'), 100)


# --------------------------------------------------------------- what handlers see
about("H01",
      "every stack of layers enumerated by TLC is built with probes between the layers, what the server around, each layer and the handler see of a request is validated against Flow.tla",
      "All stacks up to the bound, longer ones and the requests drawn by the seed; direct calls and real connections.")


@check("H01")
def flow(r):
    r.check_design("FlowDesign", "FlowDesign_q")
    r.check_design_fails("FlowDesign", "FlowDesign_bad")
    r.generate("FlowGen", "flow.json", dict(MaxLen=3 if r.thorough else 2))
    d = r.drive("flow")
    r.validate("FlowTrace", traces(d), workers=8, jobs=1)
    r.need("handlers reached", count(traces(d), r'"e":"handler"'), 300)


# --------------------------------------------------------------------- oauth
@check("O01")
def oauth(r):
    r.check_design("OAuthDesign", "OAuthDesign_deep" if r.thorough else "OAuthDesign_q")
    r.check_design_fails("OAuthDesign", "OAuthDesign_bad")
    r.behaviours("OAuthGen", "oauth.json", dict(N=4 if r.thorough else 3, Small=r.thorough))
    d = r.drive("oauth")
    r.validate("OAuthTrace", traces(d), workers=3, jobs=4)
    r.need("logins", count(traces(d), r'"ran":1'), 500)
    d = r.drive("oauth", race=True, name="race")
    r.validate("OAuthTrace", traces(d), workers=8, jobs=1)


# ----------------------------------------------------------------- providers
about("O02",
      "replies enumerated by TLC are served to the bundled providers over HTTP, the results and whole logins are validated against Provider.tla",
      "All combinations of status and kinds of the deciding fields, texts and the other fields drawn by the seed.")


@check("O02")
def provider(r):
    r.check_design("ProviderDesign", "ProviderDesign_q")
    r.check_design_fails("ProviderDesign", "ProviderDesign_bad")
    r.generate("ProviderGen", "replies.json", dict(Full=r.thorough))
    d = r.drive("provider")
    r.validate("ProviderTrace", traces(d), workers=2, jobs=4)
    r.need("tokens delivered", count(traces(d, "tokens*"), r'"res":"ok"'), 50)
    r.need("users delivered", count(traces(d, "users*"), r'"res":"ok"'), 100)
    r.need("replies refused", count(traces(d), r'"res":"err"'), 1000)
    d = r.drive("provider", race=True, name="race")
    r.validate("ProviderTrace", traces(d), workers=8, jobs=1)


# ---------------------------------------------------------------------- cors
about("S02",
      "the decision table of Cors.tla is evaluated on every enumerated configuration and request, and on seeded ones, against the real middleware",
      "Exhaustive over the enumerated table, sampled (seeded) beyond.")


@check("S02")
def cors(r):
    r.check_design("CorsDesign", "CorsDesign_q")
    r.check_design_fails("CorsDesign", "CorsDesign_bad")
    r.generate("CorsGen", "cors.json")
    d = r.drive("cors")
    r.validate("CorsTrace", traces(d), workers=2, jobs=4)
    r.need("requests served", count(traces(d), r'"status":200'), 2000)
    r.need("requests rejected", count(traces(d), r'"err":"denied"'), 2000)
    d = r.drive("cors", race=True, name="race")
    r.validate("CorsTrace", traces(d), workers=8, jobs=1)


# ----------------------------------------------------------------- responses
about("P01",
      "responses of every enumerated shape are served over HTTP/1.1 and HTTP/2 connections, what the client received is validated against Response.tla",
      "All combinations of kind, status, method, overrides and middleware additions; headers, cookies and payloads drawn by the seed.")


@check("P01")
def responses(r):
    r.generate("ResponseGen", "shapes.json", dict(
        Statuses={0, 200, 201, 204, 206, 299, 301, 302, 303, 304, 307, 400, 404, 418, 500, 503, 599, 600, 999, 42, 1000, 99} if r.thorough
        else {0, 200, 201, 204, 301, 302, 304, 404, 500, 999, 42, 1000}, Methods={"GET", "HEAD", "POST"}))
    d = r.drive("response")
    r.validate("ResponseTrace", traces(d), workers=8, jobs=1)
    r.need("responses with a body", count(traces(d), r'"res":"ok"'), 2000)


# ---------------------------------------------------------- security headers
about("S03",
      "responses of every kind are served behind every enumerated configuration over plain, TLS and proxied connections, what the client received is validated against SecHeaders.tla; first requests arrive together under the race detector",
      "All enumerated configurations (a seeded sample in the quick tier) with responses drawn by the seed; concurrency as the scheduler produces it (the caching design itself is model checked in SecDesign).")


@check("S03")
def security_headers(r):
    r.check_design("SecDesign", "SecDesign_q")
    r.check_design_fails("SecDesign", "SecDesign_bad")
    r.generate("SecGen", "configs.json", dict(Ages={0, 1, 31536000}, Uris={"https://a.example", "https://b.example/x"}))
    d = r.drive("sec")
    r.validate("SecTrace", traces(d), workers=2, jobs=4)
    r.need("responses", count(traces(d), r'"res":"ok"'), 2000)
    r.need("strict transport", count(traces(d), r'"k":"strict-transport-security"'), 300)
    d = r.drive("sec", race=True, name="race")
    r.validate("SecTrace", traces(d), workers=8, jobs=1)


# --------------------------------------------------------------- compression
about("P03",
      "responses of every kind and every sequence of writer operations of an adapted handler are served with and without compression; the decoded responses are validated against Response.tla and the writer model of CompressTrace.tla",
      "Writer operation sequences exhaustive up to the bound; kinds, payloads, levels and Accept-Encoding values drawn by the seed.")


@check("P03")
def compression(r):
    r.check_design("CompressDesign", "CompressDesign_q")
    r.check_design_fails("CompressDesign", "CompressDesign_bad")
    r.check_design_fails("CompressDesign", "CompressDesign_bad2")
    r.generate("CompressGen", "ops.json", dict(MaxLen=4 if r.thorough else 3))
    d = r.drive("compress")
    r.validate("CompressTrace", traces(d), workers=4, jobs=2)
    r.need("coded responses", count(traces(d), r'"dec":1'), 700)
    r.need("gzip", count(traces(d), r'"enc":"gzip"'), 400)
    r.need("deflate", count(traces(d), r'"enc":"deflate"'), 300)
    r.need("uncoded responses", count(traces(d), r'"enc":"","dec":0'), 400)
    d = r.drive("compress", race=True, name="race")
    r.validate("CompressTrace", traces(d), workers=8, jobs=1)


# -------------------------------------------------------------------- dumper
about("D01",
      "requests of every kind behind the dumper; what the client received and what was logged is validated against Response.tla and DumpTrace.tla, also for concurrent requests under the race detector",
      "Requests, responses and the changes a handler makes to its request drawn by the seed.")


@check("D01")
def dumper(r):
    r.check_design("DumpDesign", "DumpDesign_q")
    r.check_design_fails("DumpDesign", "DumpDesign_bad")
    d = r.drive("dump")
    r.validate("DumpTrace", traces(d), workers=8, jobs=1)
    r.need("documents", count(traces(d), r'"docs":\[\{"ok":1'), 1500)
    d = r.drive("dump", race=True, name="race")
    r.validate("DumpTrace", traces(d), workers=8, jobs=1)


# --------------------------------------------------------------------- pools
about("P02",
      "every history of the response lifecycle enumerated by TLC is replayed on real responses sharing the real pools, validated against PoolTrace.tla, long and concurrent ones under the race detector",
      "Histories exhaustive up to the bound (the kinds of the responses drawn by the seed), longer ones drawn by the seed; the pool protocol itself is model checked in PoolDesign.")


@check("P02")
def pools(r):
    r.check_design("PoolDesign", "PoolDesign_deep" if r.thorough else "PoolDesign_q")
    r.check_design_fails("PoolDesign", "PoolDesign_bad")
    r.check_design_fails("PoolDesign", "PoolDesign_bad2")
    r.behaviours("PoolGen", "histories.json", dict(N=5, R=3 if r.thorough else 2))
    d = r.drive("pool")
    r.validate("PoolTrace", traces(d), workers=4, jobs=2)
    r.need("responses written", count(traces(d), r'"e":"write"'), 20000)
    d = r.drive("pool", race=True, name="race")
    r.validate("PoolTrace", traces(d), workers=8, jobs=1)


# ------------------------------------------------------------- event streams
about("P04",
      "every schedule of event production, cancellation, end and stalled connection enumerated by TLC is replayed on the real event loop on a controlled clock, the received text parsed and validated by SseTrace.tla; streams over real HTTP/2 connections, also under the race detector",
      "Schedules exhaustive up to the bound and all combinations of the enumerated field values; longer schedules and real connections drawn by the seed.")


@check("P04")
def sse(r):
    r.check_design("SseDesign", "SseDesign_q")
    r.check_design_fails("SseDesign", "SseDesign_bad")
    r.check_design_fails("SseDesign", "SseDesign_bad2")
    r.behaviours("SseGen", "schedules.json", dict(N=6 if r.thorough else 5))
    r.generate("SseFields", "events.json", dict(Full=r.thorough))
    d = r.drive("sse")
    r.validate("SseTrace", traces(d), workers=2, jobs=4)
    r.need("events delivered", count(traces(d), r'"e":"emit"'), 3000)
    d = r.drive("sse", race=True, name="race")
    r.validate("SseTrace", traces(d), workers=8, jobs=1)


# -------------------------------------------------------------------- assets
about("T01",
      "requests for every enumerated path are sent as they are over connections to sites with several context and mapping paths over a scratch tree with files around it; every answer is validated against Assets.tla",
      "Paths exhaustive up to the bound over the enumerated segments (a part of them per site in the quick tier), longer ones drawn by the seed.")


@check("T01")
def assets(r):
    r.check_design("AssetsDesign", "AssetsDesign_q")
    r.check_design_fails("AssetsDesign", "AssetsDesign_bad")
    r.generate("AssetsGen", "paths.json", dict(MaxLen=4 if r.thorough else 3, Segs={"..", ".", "", "a.txt", "sub", "b.txt", "%2e%2e", "..%2fsecret.txt", "secret.txt",
        "assets-secret", "s.txt", "index.html", "assets"} - ({"index.html", "s.txt", ""} if r.thorough else set())))
    d = r.drive("assets")
    r.validate("AssetsTrace", traces(d), workers=2, jobs=4)
    r.need("files served", count(traces(d), r'"cls":"file"'), 500)
    r.need("not found", count(traces(d), r'"status":404'), 1000)


# ----------------------------------------------------------------- isolation
about("C01",
      "every history of overlapping and nested requests enumerated by TLC is replayed on a real mux with parked handlers and writers, every party looking at its request after every step, validated against IsolationTrace.tla; storms through all bundled middlewares over HTTP/1.1 and HTTP/2, also under the race detector",
      "Histories exhaustive up to the bound, longer ones drawn by the seed; storms run on real threads and show the schedules those produced.")


@check("C01")
def isolation(r):
    r.check_design("IsolationDesign", "IsolationDesign_deep" if r.thorough else "IsolationDesign_q")
    r.check_design_fails("IsolationDesign", "IsolationDesign_bad")
    r.check_design_fails("IsolationDesign", "IsolationDesign_bad2")
    r.behaviours("IsolationGen", "histories.json", dict(N=7 if r.thorough else 6, R=3))
    d = r.drive("isolation")
    r.validate("IsolationTrace", traces(d), workers=2, jobs=4)
    r.need("looks", count(traces(d), r'"e":"look"'), 50000)
    r.need("replies", count(traces(d), r'"e":"reply"'), 20000)
    d = r.drive("isolation", race=True, name="race")
    r.validate("IsolationTrace", traces(d), workers=8, jobs=1)
