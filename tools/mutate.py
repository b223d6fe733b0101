#!/usr/bin/env python3
"""mutate.py OUTDIR FILE...   (see tools/mutator; no check uses it)
Phase 1: which mutants of the files build and pass the existing tests.
Phase 2: which of those the checks catch; the others are listed in OUTDIR/alive.
Works on copies of /repo under OUTDIR; resumes where it stopped.
Env: BUDGET (seconds per property, default 4), PAR (phase 1, default 6), PROPS."""
import sys, os, subprocess, json, shutil, threading, queue, time
out = sys.argv[1]; files = sys.argv[2:]
os.makedirs(out, exist_ok=True)
REPO = os.environ.get("REPO", "/repo"); VERIF = os.environ.get("VERIF", "/verif") # copies, if they are edited meanwhile
BUDGET = os.environ.get("BUDGET", "4"); PAR = int(os.environ.get("PAR", "6"))
WORKERS = os.environ.get("WORKERS", "8")
ALL = "D01 D02 D03 D04 D05 D06 D07 P01 G06 G03 G01 G02 G07 P02 P05 P03 P04 G08 G09 G05 G04 P06".split()
FIRST = {"generator.go": "G01 G02 G04 G09 G06 G05 G08 G03 G07 G10".split(),
 "device.go": "D06 P01 D01 D05 D03 D04 D02 G07 P02 P03 G06 G03".split(),
 "navigator": "D01 D05 D02 D04 P01 P03 P05 D03".split(), "types": "D03 P01 P03 P05 P04".split(),
 "curve": "D03 P01 P03 P05".split(), "gpx": ["P05", "P04"], "geojson": ["P05", "P04"], "io.go": ["P05", "P04"],
 "properties": ["P05", "P04"], "encoding.go": ["G08", "P04"]}
def sh(cmd, cwd=None, env=None, timeout=300):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, **(env or {})), capture_output=True, text=True, timeout=timeout, errors="replace")
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"
def load(n):
    r = {}
    if os.path.exists(f"{out}/{n}"):
        for l in open(f"{out}/{n}"):
            k, v = l.rstrip("\n").split("\t", 1); r[k] = v
    return r
tested, checked = load("tested"), load("checked")
muts = []
for f in files:
    rc, o = sh(f"/tmp/mutator {REPO}/{f}")
    for l in o.splitlines():
        n, line, kind, d = l.split("\t", 3)
        muts.append((f, int(n), int(line), kind, d))
lock = threading.Lock()
todo = queue.Queue()
for m in muts:
    if f"{m[0]}#{m[1]}" not in tested: todo.put(m)
def worker(i):
    repo = f"{out}/w{i}"
    shutil.rmtree(repo, ignore_errors=True)
    sh(f"cp -a {REPO} {repo}")
    while True:
        try: m = todo.get_nowait()
        except queue.Empty: break
        f, n = m[0], m[1]
        sh(f"git checkout -q -- .", repo)
        sh(f"/tmp/mutator {REPO}/{f} {n} > {repo}/{f}.new && (gofmt -l {repo}/{f}.new >/dev/null 2>&1; mv {repo}/{f}.new {repo}/{f})", repo)
        rc, o = sh("goimports -w %s 2>/dev/null; go build ./... && go test -vet=off -count=1 -timeout 12s ./... 2>&1 | grep -v 'no test files'" % f, repo, timeout=200)
        res = "nobuild" if "FAIL" not in o and rc != 0 and "ok" not in o else ("killed" if "FAIL" in o or "panic" in o or rc == 124 else "pass")
        with lock:
            tested[f"{f}#{n}"] = res
            open(f"{out}/tested", "a").write(f"{f}#{n}\t{res}\n")
    shutil.rmtree(repo, ignore_errors=True)
ths = [threading.Thread(target=worker, args=(i,)) for i in range(PAR)]
[t.start() for t in ths]; [t.join() for t in ths]
print("phase 1:", {r: list(tested.values()).count(r) for r in set(tested.values())}, flush=True)
if os.environ.get("PHASE1"): sys.exit()
repo = out + "/c"
shutil.rmtree(repo, ignore_errors=True); sh(f"cp -a {REPO} {repo}")
os.makedirs(out + "/v/evidence", exist_ok=True); os.makedirs(out + "/v/replays", exist_ok=True)
env = {"GPS_REPO": repo, "GPS_BUILD": out + "/build", "VERIF_ROOT": out + "/v"}
for m in muts:
    f, n, line, kind, d = m
    k = f"{f}#{n}"
    if tested.get(k) != "pass" or k in checked: continue
    sh("git checkout -q -- .", repo)
    sh(f"/tmp/mutator {REPO}/{f} {n} > {repo}/{f}.new && mv {repo}/{f}.new {repo}/{f} && goimports -w {f}", repo)
    first = next((v for p, v in FIRST.items() if f.startswith(p)), [])
    props = first + ([] if os.environ.get("ONLYFIRST") else [p for p in ALL if p not in first])
    if os.environ.get("PROPS"): props = os.environ["PROPS"].split(",")
    res = "alive"
    plain = [p for p in props if p != "G10"]
    if plain:
        rc, o = sh(f"bash {VERIF}/build.sh plain", VERIF, env)
        if rc != 0: res = "BUILD: " + " ".join(o.split())[:200]; plain = []
    for p in plain:
        rc, o = sh(f"{out}/build/harness check -prop {p} -noevidence -noshrink -workers {WORKERS} -seed 1 -budget {BUDGET}s", VERIF, env)
        if rc == 1 and "VIOLATION" in o:
            l = [x for x in o.splitlines() if x.strip() and not x.startswith("VIOLATION")]
            res = f"{p} {l[-1][:150] if l else ''}"; break
        if rc != 0: res = f"{p}: rc={rc} " + " ".join(o.split())[:150]; break
    if res == "alive" and "ock" in d and (f == "generator.go" or f == "device.go"):
        rc, o = sh(f"bash {VERIF}/build.sh race", VERIF, env)
        rc, o = sh(f"{out}/build/harness-race check -prop G10 -race -noevidence -noshrink -workers {WORKERS} -seed 1 -budget 12s", VERIF, env)
        if rc == 1: res = "G10 " + o.splitlines()[-2][:150]
        elif rc != 0: res = f"G10: rc={rc}"
    checked[k] = res
    open(f"{out}/checked", "a").write(f"{k}\t{res}\n")
    if res == "alive" or "rc=" in res or res.startswith("BUILD"): open(f"{out}/alive", "a").write(f"{k}\t{line}\t{kind}\t{d}\t{res}\n")
    shutil.rmtree(out + "/v/replays", ignore_errors=True); os.makedirs(out + "/v/replays", exist_ok=True)
print("done", flush=True)
