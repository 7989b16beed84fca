"""corrupt.py PROP [N] [seed]: are the recorded observations really bound to the specification?

Runs the quick check, then changes one recorded value in each of N sessions per trace file and asks TLC which of the
changed sessions it still accepts. Prints, per field, how many changes were accepted. A field whose changes are always
accepted is either an input (changing it describes another, equally correct run) or an observation nobody looks at.
Development aid: nothing registered depends on it.
"""
import collections, glob, json, os, random, re, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import run
prop, N, seed = sys.argv[1], int((sys.argv[2:] or ["200"])[0]), int((sys.argv[3:] or ["1"])[0])
rnd = random.Random(seed)


def leaves(v, path=()):
    if isinstance(v, dict):
        for k in v: yield from leaves(v[k], path + (k,))
    elif isinstance(v, list):
        if v: yield path + ("[]",), v
        for i, x in enumerate(v): yield from leaves(x, path + (i,))
    else:
        yield path, v


def change(root, path):
    if path[-1] == "[]":
        x = root
        for p in path[:-1]: x = x[p]
        if rnd.random() < .5 or len(x) > 40: del x[rnd.randrange(len(x))]
        else: x.insert(rnd.randrange(len(x) + 1), json.loads(json.dumps(rnd.choice(x))))
        return
    x = root
    for p in path[:-1]: x = x[p]
    v = x[path[-1]]
    if isinstance(v, bool): n = not v
    elif isinstance(v, int): n = v + rnd.choice([-1, 1]) if v not in (0, 1) else 1 - v
    else: n = rnd.choice([v + "x", v[:-1] if v else "y", "zz"])
    x[path[-1]] = n


def example(s, p):
    """the event that was changed, and where"""
    x, q = s, list(p)
    while q and not (isinstance(x, list) and isinstance(q[0], int)): x = x[q.pop(0)] if q[0] != "[]" else q.clear() or x
    if q: x = x[q.pop(0)]
    return "%s %s" % (".".join(map(str, p)), json.dumps(x, ensure_ascii=False)[:int(os.environ.get("WIDTH", "300"))])


def field(path): return ".".join("*" if isinstance(p, int) else p for p in path)


jobs = []
class R(run.Run):
    def validate(self, module, files, constants=None, invariants=("Accepted",), **kw):
        for f in sorted(files): jobs.append((module, f, dict(constants or {}, PROP=self.prop, TraceFile=f), invariants))
import checks
os.environ["VERIF_KEEP"] = "1"
r = R(prop, "quick", seed)
checks.CHECKS[prop](r)
total = collections.defaultdict(lambda: [0, 0, ""])


def kind(s, p):
    x = s
    for q in p:
        if isinstance(x, dict) and isinstance(x.get("e"), str): return x["e"]
        if q == "[]": break
        x = x[q]
    return ""


def rejected(module, consts, invs, sessions, head=None):
    """the positions of the sessions TLC does not accept; those it cannot evaluate count as rejected"""
    if not sessions: return set()
    g = os.path.join(r.dir, "changed.ndjson")
    with open(g, "w", encoding="utf-8") as o:
        for s in (head or []) + sessions: o.write(json.dumps(s, ensure_ascii=False) + "\n")
    cfg = r.cfg("changed", dict(consts, TraceFile=g), "SPECIFICATION Spec\n" + "".join("INVARIANT %s\n" % i for i in invs) + "CHECK_DEADLOCK FALSE")
    rc, text, gen, dist = r.tlc(module, cfg, 8, 600, "6g", extra=("-continue",))
    if rc in (0, 12):
        return {int(x) - 1 for x in re.findall(r'\\"sid\\":\s*(\d+)', text) + re.findall(r'"sid":\s*(\d+)', text) + re.findall(r"^/\\ sid = (\d+)", text, re.M)}
    if len(sessions) == 1: return {0}
    m = len(sessions) // 2
    return rejected(module, consts, invs, sessions[:m], head) | {m + x for x in rejected(module, consts, invs, sessions[m:], head)}


if len(jobs) > 6: jobs = rnd.sample(jobs, 6)
for module, f, consts, invs in jobs:
    lines = [json.loads(l) for l in open(f, encoding="utf-8")]
    head = [] if "ev" in lines[0] else [lines.pop(0)]
    byfield = collections.defaultdict(list)
    for i in rnd.sample(range(len(lines)), min(len(lines), 300)):
        for p, _ in leaves(lines[i]): byfield[(kind(lines[i], p), field(p))].append((i, p))
    changed, what = [], []
    fs = [x for x in sorted(byfield) if not x[1].endswith(".e")]
    for k in range(N):
        fl = fs[k % len(fs)]
        i, p = rnd.choice(byfield[fl])
        s = json.loads(json.dumps(lines[i]))
        change(s, p)
        if s == lines[i]: continue
        changed.append(s); what.append((fl, i, p))
    bad = rejected(module, consts, invs, changed, head)
    for k, (fl, i, p) in enumerate(what):
        t = total[fl]
        t[0] += 1
        if k not in bad:
            t[1] += 1; t[2] = example(changed[k], p)
shutil.rmtree(r.dir, ignore_errors=True)
for (e, fl), (n, acc, ex) in sorted(total.items()):
    print("%-9s %-34s %3d/%-3d accepted  %s" % (e[:9], fl, acc, n, ex if acc else ""))
