"""sweep.py [-j N] [-t tier] [-p PROP,..] [-d DIR] [ID...]: runs the checks against planted bugs, in parallel, on copies.

Each slot has a copy of /verif (without build output) whose harness is built against a worktree of /repo with the
change. It is a development aid: the registered checks always run against /repo itself.
Results: /tmp/sweep/results.json {id: {prop: [exit, line]}}
"""
import argparse, json, os, queue, shutil, subprocess, threading
ap = argparse.ArgumentParser()
ap.add_argument("-j", type=int, default=4); ap.add_argument("-t", default="quick"); ap.add_argument("-p", default="")
ap.add_argument("-d", default="/verif/seeded"); ap.add_argument("ids", nargs="*")
a = ap.parse_args()
ROOT = "/tmp/sweep"
os.makedirs(ROOT, exist_ok=True)
ids = a.ids or sorted(os.listdir(a.d))
q = queue.Queue()
for i in ids: q.put(i)
res, lock = {}, threading.Lock()
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def slot(n):
    base = "%s/s%d" % (ROOT, n); wt, vf = base + "/repo", base + "/verif"
    with lock:
        sh("mkdir -p %s; git -C /repo worktree prune; test -d %s || git -C /repo worktree add --detach -f %s HEAD" % (base, wt, wt))
    sh("git -C %s checkout -q --detach $(git -C /repo rev-parse HEAD); git -C %s checkout -q -- .; git -C %s clean -fdq" % (wt, wt, wt))
    sh("rsync -a --delete --exclude build --exclude .git --exclude seeded --exclude evidence /verif/ %s/ 2>/dev/null || (rm -rf %s && cp -a /verif %s && rm -rf %s/build %s/.git %s/seeded)" % ((vf,) * 6))
    sh("sed -i 's#=> /repo#=> %s#' %s/harness/go.mod" % (wt, vf))
    while True:
        try: i = q.get_nowait()
        except queue.Empty: return
        d = os.path.join(a.d, i)
        sh("git -C %s checkout -q -- . && git -C %s clean -fdq" % (wt, wt))
        p = sh("git -C %s apply %s/patch.diff" % (wt, d))
        props = a.p.split(",") if a.p else [json.load(open(d + "/meta.json"))["property"]]
        out = {}
        for prop in props:
            if p.returncode: out[prop] = [3, p.stdout[-200:]]; continue
            r = sh("timeout 1500 python3 run.py %s %s" % (prop, a.t), cwd=vf)
            line = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "rror" in l][:1] or r.stdout.splitlines()[-1:]
            out[prop] = [r.returncode, (line or [""])[0][:300]]
        with lock:
            res.setdefault(i, {}).update(out)
            for prop in out: print("%-32s %s %s %s" % (i, prop, {1: "caught", 0: "MISSED"}.get(out[prop][0], "exit %s" % out[prop][0]), out[prop][1]), flush=True)
            json.dump(res, open(ROOT + "/results.json", "w"), indent=1)
ts = [threading.Thread(target=slot, args=(n,)) for n in range(min(a.j, len(ids)))]
for t in ts: t.start()
for t in ts: t.join()
for n in range(a.j): sh("git -C /repo worktree remove --force %s/s%d/repo" % (ROOT, n)); shutil.rmtree("%s/s%d" % (ROOT, n), ignore_errors=True)
