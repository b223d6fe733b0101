#!/usr/bin/env python3
"""refactor.py EDITFILE [--budget 5s] [--props ...]: applies behaviour-preserving
edits (EDITS = [(file, old, new)], optionally REGEX = [(file, pattern, repl)]) to a
scratch copy of /repo, runs the tests and all checks, which have to stay quiet."""
import sys, os, json, subprocess, shutil, argparse, re
ap = argparse.ArgumentParser(); ap.add_argument("file"); ap.add_argument("--budget", default="5s"); ap.add_argument("--props"); ap.add_argument("--seed", default="3")
a = ap.parse_args(); b = {}; exec(open(a.file).read(), b)
name = os.path.basename(a.file)[:-3]; work = f"/tmp/refactor-{name}"; shutil.rmtree(work, ignore_errors=True)
os.makedirs(work + "/v/evidence"); os.makedirs(work + "/v/replays"); repo = work + "/repo"
def sh(cmd, cwd=None, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, **(env or {})), capture_output=True, text=True); return p.returncode, p.stdout + p.stderr
sh(f"cp -a /repo {repo}"); sh("git checkout -q -- .", repo)
for f, old, new in b.get("EDITS", []):
    s = open(f"{repo}/{f}").read()
    if s.count(old) != 1: sys.exit(f"{f}: {s.count(old)} matches of {old[:80]!r}")
    open(f"{repo}/{f}", "w").write(s.replace(old, new))
for f, pat, rep in b.get("REGEX", []):
    s = open(f"{repo}/{f}").read(); s2, n = re.subn(pat, rep, s); print(f, n, "replacements"); open(f"{repo}/{f}", "w").write(s2)
rc, o = sh("goimports -w *.go geo/*.go geojson/*.go gpx/*.go generator.go device.go navigator/*.go types/*.go curve/*.go; go vet . ./navigator ./types ./curve 2>&1 | head; go test -count=1 -timeout 60s ./... 2>&1 | grep -v 'no test'", repo)
if "FAIL" in o or rc > 1: print(o[-3000:]); sys.exit("tests fail")
env = {"GPS_REPO": repo, "GPS_BUILD": work + "/build", "VERIF_ROOT": work + "/v"}
bad = 0
for kind in ("plain", "race"):
    rc, o = sh(f"bash /verif/build.sh {kind}", "/verif", env)
    if rc: print("BUILD", kind, o[-2000:]); bad = 1; continue
    props = a.props.split(",") if a.props else [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
    for p in props:
        if (p == "G10") != (kind == "race"): continue
        h = work + "/build/harness" + ("-race" if p == "G10" else "")
        rc, o = sh(f"{h} check -prop {p} -noevidence -seed {a.seed} {'-race' if p == 'G10' else ''} -budget {a.budget}", "/verif", env)
        if rc: bad = 1; print(p, rc, o[-700:], flush=True)
print(name, "ALARM" if bad else "quiet"); shutil.rmtree(work) if not bad else None
