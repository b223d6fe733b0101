#!/usr/bin/env python3
# matrix.py OUT [--all] [BUG...]: run the checks against every planted bug and
# write which checks report it. Works on copies below /tmp.
import os, sys, json, subprocess, shutil
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
out = sys.argv[1]
every = "--all" in sys.argv
bugs = [a for a in sys.argv[2:] if not a.startswith("-")] or sorted(os.listdir(R + "/seeded"))
props = [c["property"] for c in json.load(open(R + "/MANIFEST.json"))["checks"]]
w = "/tmp/matrix"
for b in bugs:
    own = json.load(open(f"{R}/seeded/{b}/meta.json"))["property"]
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.run(f"cp -a /repo {w}/repo && cd {w}/repo && git apply {R}/seeded/{b}/patch.diff", shell=True, check=True)
    env = dict(os.environ, GPS_REPO=w + "/repo", GPS_BUILD=w + "/build", VERIF_ROOT=w)
    subprocess.run(f"bash {R}/build.sh plain && bash {R}/build.sh race", shell=True, env=env, check=True, capture_output=True)
    res = {}
    for p in [own] + [x for x in props if every and x != own]:
        race = p == "G10"
        exe = "harness-race" if race else "harness"
        r = subprocess.run(f"{w}/build/{exe} check -prop {p} {'-race' if race else ''} -noevidence -noshrink -seed 1 -budget {'20s' if p == own else '8s'}",
                           shell=True, env=env, capture_output=True, text=True)
        cls = r.stdout.strip().splitlines()[-2].split(":")[0] if r.returncode == 1 and r.stdout.strip() else ""
        res[p] = [r.returncode, cls]
    line = json.dumps({"bug": b, "own": own, "res": res})
    print(b, own, res[own], " ".join(f"{p}:{v[1] or v[0]}" for p, v in res.items() if p != own and v[0] != 0), flush=True)
    with open(out, "a") as f:
        f.write(line + "\n")
shutil.rmtree(w, ignore_errors=True)
