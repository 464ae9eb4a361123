#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ and confirms it in a scratch copy of /repo.

A definition is a python file that calls plant(...). usage: plant.py FILE.py [ID...]
"""
import json, os, subprocess, sys, re
MUT = "/tmp/mut"
SEEDED = "/verif/seeded"
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", CGO_ENABLED="1",
           GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
BASE = "28f81fb"
ONLY = set()
RESULTS = []

DEMO = '''#!/bin/bash
# runs the test beside this file inside package %(pkg)s
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
cp "$here/demo_test.go.txt" "$tmp/zz_demo_test.go"
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/zz_demo_test.go"}}' "$PWD" "$tmp" > "$tmp/o.json"
go test %(flags)s -overlay "$tmp/o.json" -vet=off -count=1 -timeout 120s -run '^TestZZDemo$' ./%(pkg)s
'''


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **kw)


def reset():
    run(["git", "-C", MUT, "checkout", "-q", "HEAD", "--", "."])
    run(["git", "-C", MUT, "clean", "-fdq"])


def prepare():
    head = run(["git", "-C", "/repo", "rev-parse", "HEAD"]).stdout.strip()
    if not os.path.isdir(MUT) or run(["git", "-C", MUT, "rev-parse", "HEAD"]).stdout.strip() != head:
        run(["rm", "-rf", "/tmp/mut"])
        run(["cp", "-a", "/repo", "/tmp/mut"])
    reset()


def stable():
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None


def tests():
    log = "/tmp/plant.log"
    with open(log, "w") as f:
        subprocess.run(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "10m", "./..."], cwd=MUT, env=ENV, stdout=f, stderr=subprocess.DEVNULL)
    run(["python3", "/opt/vp/results.py", "/tmp/plant.json", "gojson:" + log])
    b, r = json.load(open("/opt/vp/BASELINE.json")), json.load(open("/tmp/plant.json"))
    def passed(d):
        for k in ("passed", "pass", "stable", "tests"):
            if k in d:
                return set(d[k]) if not isinstance(d[k], dict) else {t for t, v in d[k].items() if v in (True, "pass", "passed")}
    return sorted(passed(b) - passed(r))


def plant(id, prop, edits, pkg, demo, needs, breaks, flags="", check=True):
    if ONLY and id not in ONLY:
        return
    prepare()
    for path, old, new in edits:
        p = os.path.join(MUT, path)
        s = open(p).read()
        assert s.count(old) == 1, (id, path, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = run(["git", "-C", MUT, "diff"]).stdout
    # lines taken away must be lines of the original
    orig = False
    for path in {e[0] for e in edits}:
        bl = run(["git", "-C", MUT, "blame", "-s", "HEAD", "--", path]).stdout.splitlines()
        old = {i + 1: l for i, l in enumerate(bl)}
        d = run(["git", "-C", MUT, "diff", "-U0", "--", path]).stdout
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
            a, n = int(m.group(1)), int(m.group(2) or 1)
            for k in range(a, a + n):
                if old[k].startswith("^" + BASE[:6]) or old[k].startswith(BASE):
                    orig = True
                else:
                    print("  NOTE", id, "touches a line of a later commit:", old[k][:100])
    d = os.path.join(SEEDED, id)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo_test.go.txt"), "w").write(demo)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % dict(pkg=pkg, flags=flags))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    probs = []
    if not orig:
        probs.append("no original line changed")
    r = run(["go", "build", "./..."], cwd=MUT)
    if r.returncode:
        probs.append("BUILD " + r.stdout[-500:])
    else:
        miss = tests()
        if miss:
            probs.append("TESTS %s" % miss[:6])
        r = run(["bash", os.path.join(d, "demo.sh")], cwd=MUT)
        if r.returncode == 0 or "build failed" in r.stdout:
            probs.append("DEMO passes with the patch / " + r.stdout[-600:])
    verdict = ""
    if not probs and check:
        e = dict(ENV, VERIF_REPO=MUT, VERIF_EVIDENCE="/tmp/ev", VERIF_TIER="quick")
        r = subprocess.run(["python3", "/verif/run.py", prop, "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd="/verif")
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + prop)]
        verdict = "CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d %s" % (r.returncode, r.stdout[-300:])
    reset()
    r = run(["bash", os.path.join(d, "demo.sh")], cwd=MUT)
    if r.returncode:
        probs.append("DEMO fails without the patch " + r.stdout[-1500:])
    print(id, prop, "; ".join(probs) or "valid", verdict, flush=True)
    RESULTS.append((id, prop, probs, verdict))


if __name__ == "__main__":
    ONLY = set(sys.argv[2:])
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))
