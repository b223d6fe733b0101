#!/usr/bin/env python3
"""plant.py BUGFILE [--props P,Q] [--budget 20s] [--nocheck] [--full]
Plants one bug in a scratch copy of /repo, confirms it (builds, tests pass,
demonstration passes without and fails with it), runs checks against the copy
and, unless --nosave, saves it as /verif/seeded/<id>/.
BUGFILE is Python: ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...], DEMO (Go test source),
optionally RACE = True, PKG = '.'."""
import sys, os, subprocess, json, shutil, argparse, tempfile
ap = argparse.ArgumentParser()
ap.add_argument("bug"); ap.add_argument("--props"); ap.add_argument("--budget", default=""); ap.add_argument("--nocheck", action="store_true")
ap.add_argument("--seed", default="1")
a = ap.parse_args()
b = {}
exec(open(a.bug).read(), b)
ID = b["ID"]
work = f"/tmp/plant-{ID}"
shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
repo = work + "/repo"
def sh(cmd, cwd=None, env=None, quiet=False):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, **(env or {})), capture_output=True, text=True)
    return p.returncode, p.stdout + p.stderr
def die(m):
    print(f"{ID}: {m}"); shutil.rmtree(work, ignore_errors=True); sys.exit(1)
sh(f"cp -a /repo {repo}")
sh("git checkout -q -- .", repo)
for f, old, new in b["EDITS"]:
    p = f"{repo}/{f}"; s = open(p).read()
    if s.count(old) != 1: die(f"edit of {f} matches {s.count(old)} times: {old[:60]!r}")
    open(p, "w").write(s.replace(old, new))
sh("gofmt -l .", repo)
rc, diff = sh("git diff", repo)
# does it change lines of the original repository?
rc, o = sh("go build ./... && go vet . ./navigator ./types 2>&1 | head -5; go test -timeout 90s ./... 2>&1 | grep -v 'no test files'", repo)
if "FAIL" in o or "panic" in o: die("tests fail:\n" + o[-1500:] if len(o)<3000 else "\n".join([l for l in o.splitlines() if "---" in l or "Error" in l][:20]))
d = f"/verif/seeded/{ID}"
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo_test.go", "w").write(b["DEMO"])
race = "-race " if b.get("RACE") else ""
pkg = b.get("PKG", ".")
open(d + "/demo.sh", "w").write(f'''#!/usr/bin/env bash
# Runs demo_test.go as a test of the package in the current directory's tree.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
dir=$(cd {pkg} && pwd)
printf '{{"Replace":{{"%s/zz_demo_test.go":"%s/demo_test.go"}}}}' "$dir" "$here" >"$tmp/overlay.json"
exec_test() {{ go test -overlay "$tmp/overlay.json" {race}-vet=off -count=1 -timeout 200s -run '^TestDemo$' {pkg}; }}
exec_test
''')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": b["PROPERTY"], "needs": b["NEEDS"], "what_it_breaks": b["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
for i in range(3):
    rc, o = sh(f"bash {d}/demo.sh", "/repo")
    if rc != 0: die(f"demo fails on the unchanged tree:\n{o[-1500:] if len(o)<3000 else "\n".join([l for l in o.splitlines() if "---" in l or "Error" in l][:20])}")
    rc, o = sh(f"bash {d}/demo.sh", repo)
    if rc == 0: die("demo passes with the bug")
print(f"{ID}: confirmed; demo says: " + [l for l in o.splitlines() if l.strip()][1 if len(o.splitlines()) > 1 else 0].strip()[:150])
sys.stdout.flush()
if a.nocheck: shutil.rmtree(work); sys.exit(0)
props = a.props.split(",") if a.props else [b["PROPERTY"]]
for p in props:
    kind = "race" if p == "G10" else "plain"
    env = {"GPS_REPO": repo, "GPS_BUILD": work + "/build", "VERIF_ROOT": work}
    os.makedirs(work + "/evidence", exist_ok=True); os.makedirs(work + "/replays", exist_ok=True)
    rc, o = sh(f"bash /verif/build.sh {kind}", "/verif", env)
    if rc != 0: print(f"  {p}: BUILD FAILED\n{o[-2000:]}"); continue
    h = work + "/build/harness" + ("-race" if kind == "race" else "")
    rc, o = sh(f"{h} check -prop {p} -noevidence -seed {a.seed} {'-race' if kind=='race' else ''} {('-budget '+a.budget) if a.budget else ''}", "/verif", env)
    l = [x for x in o.splitlines() if x.strip()]
    det = [x for x in l if x.startswith(("VIOLATION",))]
    print(f"  {p}: exit {rc} " + (l[-2][:260] if det else " | ".join(l[-2:])[:400]))
    sys.stdout.flush()
shutil.rmtree(work)
