#!/usr/bin/env python3
"""Sensitivity testing (development tool, not a registered check): applies one change at a time to a
scratch copy of /repo, and runs the given property's check from a scratch copy of /verif on it.
  mutants.py LISTFILE [filter]
LISTFILE is a Python file defining MUTANTS = [(prop, file, old, new), ...]."""
import os, re, shutil, subprocess, sys, tempfile, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(i, prop, path, old, new, base):
    d = os.path.join(base, "m%d" % i)
    repo, ver = os.path.join(d, "repo"), os.path.join(d, "verif")
    os.makedirs(d)
    shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git"))
    os.makedirs(ver)
    shutil.copytree(os.path.join(VERIF, "harness"), os.path.join(ver, "harness"))
    os.makedirs(os.path.join(ver, "tools"))
    shutil.copy(os.path.join(VERIF, "tools/registry.py"), os.path.join(ver, "tools"))
    shutil.copy(os.path.join(VERIF, "check.py"), ver)
    for f in ("go.mod",):
        p = os.path.join(ver, "harness", f)
        s = open(p).read().replace("=> /repo", "=> " + repo)
        open(p, "w").write(s)
    s = open(os.path.join(ver, "check.py")).read().replace("/repo/(common", re.escape(repo) + "/(common").replace('REPO = "/repo"', 'REPO = %r' % repo)
    open(os.path.join(ver, "check.py"), "w").write(s)
    try:
        if isinstance(path, str) and path.endswith(".diff"):
            r = subprocess.run(["git", "apply", path], cwd=repo, capture_output=True, text=True)
            if r.returncode:
                return i, prop, path, "PATCH-FAILED " + r.stderr[:200]
        elif isinstance(path, list):
            for f, a, b in path:
                p = os.path.join(repo, f)
                s = open(p, encoding="utf8").read() if os.path.exists(p) else ""
                if a not in s:
                    return i, prop, f, "NO-MATCH " + a
                open(p, "w", encoding="utf8").write(s.replace(a, b, 1))
            path = f
        else:
            p = os.path.join(repo, path)
            s = open(p, encoding="utf8").read()
            k = 1
            if isinstance(old, tuple):
                old, k = old
            if s.count(old) < k:
                return i, prop, path, "NO-MATCH"
            parts = s.split(old)
            s = old.join(parts[:k]) + new + old.join(parts[k:])
            open(p, "w", encoding="utf8").write(s)
        env = dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
        try:
            r = subprocess.run([sys.executable, os.path.join(ver, "check.py"), prop], env=env, capture_output=True, text=True, timeout=900, cwd=ver)
        except subprocess.TimeoutExpired:
            return i, prop, path, "TIMEOUT"
        tag = {0: "MISSED", 1: "caught", 2: "NO-ANSWER"}.get(r.returncode, "rc%s" % r.returncode)
        why = ""
        if tag == "caught":
            m = re.findall(r"^C\d\d: (.*)$", r.stdout, re.M)
            why = m[-1] if m else ""
            m = re.search(r"\[rapid\] (?:failed|panic) after \d+ tests: (.*)", r.stdout)
            why += " :: " + (m.group(1)[:140] if m else "")
        elif tag == "NO-ANSWER":
            why = (r.stderr or "")[-600:]
        return i, prop, path, tag + " " + why
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ms = ns["MUTANTS"]
    if len(sys.argv) > 2:
        ms = [m for m in ms if re.search(sys.argv[2], m[0])]
    base = tempfile.mkdtemp(prefix="mutants-")
    bad = 0
    with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
        for i, prop, path, res in ex.map(lambda a: run(a[0], *a[1], base), enumerate(ms)):
            old, new = ms[i][2], ms[i][3]
            print("%-3d %s %s | %r -> %r | %s" % (i, prop, os.path.basename(path), str(old)[:50], str(new)[:50], res) if old else "%-3d %s %s | %s" % (i, prop, os.path.basename(path), res), flush=True)
            bad += not res.startswith("caught")
    shutil.rmtree(base, ignore_errors=True)
    print("not caught:", bad, "of", len(ms))


main()
