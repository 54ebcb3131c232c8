#!/usr/bin/env python3
"""Makes and confirms planted bugs. usage: seed.py FILE.py [id…]
FILE.py defines SEEDS = [dict(id, property, needs, what, edits=[(file, old, new)…], pkg, test)].
Writes /verif/seeded/<id>/ after confirming, in a scratch copy of /repo, that the demonstration
passes without the change, fails with it, and that the repository's own tests still pass."""
import sys, os, json, subprocess, shutil, runpy, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# cwd: the repository. Exit 0 when the property holds on this input, nonzero when it is broken.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh >/dev/null 2>&1
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/seed_demo_test.go\\":\\"$here/demo_test.go\\"}}" > "$tmp/o.json"
SCRATCH="$tmp" go test -mod=readonly -overlay "$tmp/o.json" -count=1 -timeout 120s -run '^TestSeedDemo$' ./%(pkg)s
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
ENV = ". /opt/vp/env.sh >/dev/null 2>&1; "
def tests(cwd):
    r = sh(ENV + "go test -json ./... 2>/dev/null", cwd)
    ok = set()
    for l in r.stdout.splitlines():
        try: d = json.loads(l)
        except Exception: continue
        if d.get("Action") == "pass" and d.get("Test"): ok.add((d["Package"], d["Test"]))
    return ok
def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    want = set(sys.argv[2:])
    wt = "/tmp/seedwt"
    base = None
    for s in seeds:
        if want and s["id"] not in want: continue
        if not want and os.path.exists(f"{V}/seeded/{s['id']}/patch.diff"): continue
        shutil.rmtree(wt, ignore_errors=True)
        subprocess.check_call(["cp", "-a", "/repo", wt])
        subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=wt)
        if base is None: base = tests(wt)
        d = tempfile.mkdtemp(prefix="seed")
        open(d + "/demo.sh", "w").write(s.get("demo", DEMO) % {"pkg": s["pkg"]})
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo_test.go", "w").write(s["test"])
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(d + "/meta.json", "w"), indent=1)
        r = sh(f"bash {d}/demo.sh", wt)
        if r.returncode != 0:
            print(s["id"], "DEMO FAILS UNPATCHED\n", r.stdout[-1500:]); continue
        bad = False
        for f, old, new in s["edits"]:
            t = open(f"{wt}/{f}").read()
            if t.count(old) != 1:
                print(s["id"], "edit does not match once:", f, t.count(old), repr(old[:60])); bad = True; break
            open(f"{wt}/{f}", "w").write(t.replace(old, new))
        if bad: continue
        p = sh("git diff", wt).stdout
        open(d + "/patch.diff", "w").write(p)
        r = sh(ENV + "go build ./... && go vet ./... 2>&1 | tail -3", wt)
        if "go build" in r.stdout or r.returncode != 0:
            print(s["id"], "build:", r.stdout[-800:])
        now = tests(wt)
        if base - now:
            print(s["id"], "TESTS BROKEN", base - now); continue
        r = sh(f"bash {d}/demo.sh", wt)
        if r.returncode == 0:
            print(s["id"], "DEMO PASSES PATCHED"); continue
        if "FAIL" not in r.stdout and "panic" not in r.stdout or "build failed" in r.stdout:
            print(s["id"], "demo output odd:", r.stdout[-800:]); continue
        dst = f"{V}/seeded/{s['id']}"
        shutil.rmtree(dst, ignore_errors=True)
        shutil.move(d, dst)
        os.chmod(dst, 0o755)
        print(s["id"], "kept")
    shutil.rmtree(wt, ignore_errors=True)
main()
