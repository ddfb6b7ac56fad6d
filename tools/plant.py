#!/usr/bin/env python3
"""Development tool: writes and confirms /verif/seeded/<id>/ from a list of planted bugs.
  plant.py LISTFILE [id-filter]      LISTFILE defines BUGS = [dict(id, prop, edits, pkg, demo, needs, breaks[, race]), ...]
Each bug is confirmed in a scratch copy of /repo: it compiles, the stable tests pass with it, the
demonstration passes without it and fails with it."""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]

DEMO_SH = '''#!/bin/bash
# Runs the demonstration test beside this script inside ./%(pkg)s of the current directory.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp "$here/demo_test.go" "$tmp/demo_test.go"
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$tmp/demo_test.go" >"$tmp/overlay.json"
cd ./%(pkg)s && go test -vet=off %(race)s-overlay "$tmp/overlay.json" -count=1 -run '^TestDemo$' -timeout 120s .
'''


def sh(cmd, cwd, t=600):
    r = subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=t, shell=isinstance(cmd, str))
    return r.returncode, r.stdout + r.stderr


def plant(b):
    base = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    try:
        repo = os.path.join(base, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        sh("git checkout -q -- . && git clean -fdq", repo)
        d = os.path.join(base, "demo")
        os.makedirs(d)
        open(os.path.join(d, "demo_test.go"), "w").write(b["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH % dict(pkg=b["pkg"], race="-race " if b.get("race") else ""))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1, ensure_ascii=False)
        for k in range(b.get("clean_runs", 2)):
            rc, out = sh(["bash", os.path.join(d, "demo.sh")], repo)
            if rc:
                return b["id"], "DEMO FAILS ON CLEAN\n" + out[-1500:]
        # which lines of the base version the edit removes
        for path, old, new in b["edits"]:
            p = os.path.join(repo, path)
            s = open(p, encoding="utf8").read()
            if s.count(old) != 1:
                return b["id"], "NO UNIQUE MATCH (%d) in %s: %r" % (s.count(old), path, old)
            open(p, "w", encoding="utf8").write(s.replace(old, new))
        rc, out = sh("gofmt -l $(git diff --name-only)", repo)
        if out.strip():
            sh("gofmt -w $(git diff --name-only)", repo)
        rc, diff = sh(["git", "diff"], repo)
        removed = original(repo)
        if not removed:
            return b["id"], "PATCH REMOVES NO ORIGINAL LINE"
        rc, out = sh("go build ./... && go vet ./... 2>&1 | head -5", repo)
        if rc:
            return b["id"], "BUILD FAILS\n" + out[-1500:]
        rc, out = sh(["go", "test", "-json", "-vet=off", "-count=1", "-p", "1", "./common/..."], repo)
        ok = set()
        for l in out.splitlines():
            try:
                e = json.loads(l)
            except ValueError:
                continue
            if e.get("Action") == "pass" and e.get("Test"):
                ok.add(e["Package"] + "/" + e["Test"])
        miss = [s for s in STABLE if s not in ok]
        if miss:
            return b["id"], "STABLE TESTS FAIL: %s" % miss
        for k in range(b.get("bug_runs", 2)):
            rc, out = sh(["bash", os.path.join(d, "demo.sh")], repo)
            if rc == 0:
                return b["id"], "DEMO PASSES WITH PATCH (run %d)" % k
            if "[build failed]" in out:
                return b["id"], "DEMO BUILD FAILS WITH PATCH\n" + out[-1500:]
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        dst = os.path.join(VERIF, "seeded", b["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        why = [l for l in out.splitlines() if "demo_test.go" in l or "DATA RACE" in l or "panic" in l][:1]
        return b["id"], "ok   %s" % (why or out[-300:])
    finally:
        shutil.rmtree(base, ignore_errors=True)


def original(repo):
    """lines removed by the working-tree diff that git blames on the base commit"""
    rc, root = sh("git rev-list --max-parents=0 HEAD", repo)
    n = 0
    rc, out = sh("git diff -U0", repo)
    path = None
    import re
    for l in out.splitlines():
        if l.startswith("--- a/"):
            path = l[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
        if m:
            a, c = int(m.group(1)), int(m.group(2) or 1)
            if c:
                rc, bl = sh(["git", "blame", "-s", "-L", "%d,%d" % (a, a + c - 1), "HEAD", "--", path], repo)
                n += sum(1 for x in bl.splitlines() if x.startswith("^"))
    return n


def main():
    ns = {}
    exec(open(sys.argv[1], encoding="utf8").read(), ns)
    bugs = [b for b in ns["BUGS"] if len(sys.argv) < 3 or sys.argv[2] in b["id"]]
    with cf.ThreadPoolExecutor(3) as ex:
        for i, msg in ex.map(plant, bugs):
            print(i, msg, flush=True)


main()
