#!/usr/bin/env python3
"""Runs one property's check: builds its Go test binary from /repo's working tree, runs it in
shards (as an unprivileged user, in scratch directories), judges the outcome and writes
evidence/<id>.json.

  check.py C07                    tier from VERIF_TIER (default quick), seed from VERIF_SEED
  check.py C07 --tier thorough
  check.py C07 --replay FILE      run the saved case again
Exit: 0 held, 1 violation (with a VIOLATION line), 2 no answer.
"""
import argparse, base64, glob, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
REPO = "/repo"
NOBODY = 65534

sys.path.insert(0, os.path.join(VERIF, "tools"))
from registry import CHECKS  # noqa: E402


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def no_answer(msg):
    log("ERROR (no answer):", msg)
    sys.exit(2)


def go_env():
    e = dict(os.environ)
    e.update(GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off", GONOSUMDB="*", GOFLAGS="-mod=readonly",
             GOWORK="off", CGO_ENABLED="1", HOME="/root")
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    for k in [k for k in e if k.startswith("RAPID_")]:
        del e[k]
    return e


def build(chk, work, race):
    out = os.path.join(work, "check-race.test" if race else "check.test")
    cmd = ["go", "test", "-c", "-o", out]
    if race:
        cmd.append("-race")
    cmd.append("./" + chk["pkg"])
    r = subprocess.run(cmd, cwd=HARNESS, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        log(r.stdout[-4000:])
        no_answer("the check does not build against this tree")
    os.chmod(out, 0o755)
    return out


def can_setuid():
    if os.geteuid() != 0:
        return False
    pid = os.fork()
    if pid == 0:
        try:
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
            os._exit(0)
        except BaseException:
            os._exit(1)
    return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) == 0


def start(binary, work, name, prop, seed, tier, drop, run=None, failfile=None, fast=None):
    d = os.path.join(work, name)
    scratch = os.path.join(fast or d, name if fast else "scratch")  # in memory where possible
    for p in (d, os.path.join(d, "cwd"), os.path.join(d, "tmp"), scratch):
        os.makedirs(p, exist_ok=True)
        os.chmod(p, 0o777)
    env = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": os.path.join(d, "tmp"), "TMPDIR": os.path.join(d, "tmp"),
           "VT_SCRATCH": scratch, "LANG": "C.UTF-8", "VT_OUT": os.path.join(d, "out.json"), "VT_TIER": tier,
           "VT_CONTAINED": "1" if drop else "0", "GOTRACEBACK": "all",
           "GORACE": "halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "TZ": "UTC"}
    for k in ("VT_SCALE",):
        if k in os.environ:
            env[k] = os.environ[k]
    cmd = [binary, "-test.run", run or ("^Test%s$" % prop), "-test.timeout", "6h", "-test.v",
           "-rapid.seed", str(seed), "-rapid.shrinktime", "20s" if tier == "quick" else "60s"]
    if failfile:
        cmd += ["-rapid.failfile", failfile]

    def pre():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if drop:
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
        os.umask(0o022)

    outf = open(os.path.join(d, "stdout"), "wb")
    p = subprocess.Popen(cmd, cwd=os.path.join(d, "cwd"), env=env, stdin=subprocess.DEVNULL,
                         stdout=outf, stderr=subprocess.STDOUT, preexec_fn=pre)
    return {"p": p, "d": d, "seed": seed, "name": name, "race": binary.endswith("-race.test")}


def reap(runs, deadline):
    timed_out = False
    for r in runs:
        try:
            r["rc"] = r["p"].wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            timed_out = True
            r["rc"] = None
    for r in runs:
        try:
            os.killpg(r["p"].pid, signal.SIGKILL)
        except OSError:
            pass
        r["p"].wait()
        with open(os.path.join(r["d"], "stdout"), "rb") as f:
            r["out"] = f.read().decode("utf-8", "replace")
        try:
            r["res"] = json.load(open(os.path.join(r["d"], "out.json")))
        except (OSError, ValueError):
            r["res"] = None
    return timed_out


REPO_FRAME = re.compile(r"github\.com/ahKevinXy/go-web-tools/|/repo/(common|gorm_tools|help)/")
ENVIRON = re.compile(r"no space left on device|cannot allocate memory|out of memory|resource temporarily unavailable"
                     r"|failed to create new OS thread|too many open files in system", re.I)


def judge(r):
    """-> (verdict, why); verdict in held / violation / error"""
    out, rc = r["out"], r["rc"]
    if rc is None:
        return "error", "the run did not finish within its time budget"
    if "VT-HARNESS-ERROR" in out:
        before, after = out.split("VT-HARNESS-ERROR", 1)
        if re.search(r"\[rapid\] failed after", before) and not ENVIRON.search(after):
            return "violation", "a generated case failed"  # an earlier sub-check had its answer
        return "error", "harness error: " + out.split("VT-HARNESS-ERROR", 1)[1][:500]
    if rc == 0:
        if not r["res"] or r["res"]["partial"] or not r["res"]["subs"]:
            return "error", "no result file"
        if any(s["evaluations"] == 0 for s in r["res"]["subs"]):
            return "error", "a sub-check evaluated nothing"
        return "held", ""
    if rc == 66 or "WARNING: DATA RACE" in out:
        rep = out[out.find("WARNING: DATA RACE"):]
        if REPO_FRAME.search(rep[:20000]):
            return "violation", "data race in the code under test"
        return "error", "data race inside the harness"
    if rc == 77 and "VT-HANG" in out:
        m = re.search(r"VT-HANG kind=(\S+)", out)
        return "violation", "a case did not terminate (%s)" % (m.group(1) if m else "?")
    if rc == 1 and re.search(r"\[rapid\] (failed|panic) after|\[rapid\] flaky test", out):
        return "violation", "a generated case failed"
    if rc == 1 and "VT-EXHAUSTIVE-FAIL" in out:
        return "violation", "an enumerated case failed"
    if rc == 1 and "[rapid]" in out and "only generated" in out:
        return "error", "the generator could not make enough cases"
    if "panic: test timed out" in out:
        return "error", "go test timeout"
    if rc == 2 and re.search(r"^(panic:|fatal error:|SIG)", out, re.M):
        if ENVIRON.search(out):
            return "error", "the process ran out of a resource"
        if REPO_FRAME.search(out[out.find("panic:") if "panic:" in out else 0:]):
            return "violation", "the process crashed in the code under test"
        return "error", "the process crashed in the harness"
    return "error", "unexpected exit status %s" % rc


def excerpt(out):
    i = max(out.find("WARNING: DATA RACE"), -1)
    if i < 0:
        for pat in ("[rapid] failed after", "[rapid] panic after", "[rapid] flaky", "VT-EXHAUSTIVE-FAIL", "VT-HANG", "panic:", "fatal error:"):
            i = out.find(pat)
            if i >= 0:
                break
    return out[max(0, i - 200):i + 12000] if i >= 0 else out[-12000:]


def save_replay(prop, r, why, tier):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    fails = glob.glob(os.path.join(r["d"], "cwd", "testdata", "rapid", "**", "*.fail"), recursive=True)
    rec = {"property": prop, "why": why, "seed": r["seed"], "tier": tier, "race": r["race"], "excerpt": excerpt(r["out"])}
    m = re.search(r"^\s*--- FAIL: (Test%s/\S+)" % prop, r["out"], re.M) or re.search(r"VT-HANG kind=\S+ sub=(.+)", r["out"])
    if m:
        rec["test"] = m.group(1) if m.group(1).startswith("Test") else "Test%s/%s" % (prop, m.group(1).strip().replace(" ", "_"))
    else:
        runs = re.findall(r"^=== RUN\s+(Test%s/\S+)" % prop, r["out"], re.M)
        if runs:
            rec["test"] = runs[-1]
    if fails:
        rec["failfile_name"] = os.path.basename(fails[0])
        rec["failfile_b64"] = base64.b64encode(open(fails[0], "rb").read()).decode()
    path = os.path.join(d, "%s-seed%s.json" % (prop, r["seed"]))
    with open(path, "w") as f:
        json.dump(rec, f, indent=1, ensure_ascii=False)
    return path


def evidence(prop, chk, tier, seed, runs, wall, violations, known):
    subs, prints = {}, {}
    for r in runs:
        for s in (r["res"] or {"subs": []})["subs"]:
            a = subs.setdefault(s["name"], {"name": s["name"], "rule": s["rule"], "evaluations": 0, "nontrivial": 0,
                                            "labels": {}, "samples": []})
            if s.get("exhaustive"):
                a["exhaustive"] = True
                a["evaluations"] = max(a["evaluations"], s["evaluations"])
                a["nontrivial"] = max(a["nontrivial"], s["nontrivial"])
            else:
                a["evaluations"] += s["evaluations"]
                a["nontrivial"] += s["nontrivial"]
            for k, v in s["labels"].items():
                a["labels"][k] = a["labels"].get(k, 0) + v
            a["samples"] += s["samples"] or []
            prints.setdefault(s["name"], set()).update(s.get("prints") or [])
    samples, table = [], []
    for n, a in subs.items():
        a["distinct_nontrivial"] = len(prints.get(n, ()))
        for x in a.pop("samples")[:2]:
            if len(samples) < 24:
                samples.append({"sub_check": n, "case": x[:600]})
        a["labels"] = dict(sorted(a["labels"].items(), key=lambda kv: -kv[1])[:25])
        table.append(a)
    cov = {
        "evaluations": sum(a["evaluations"] for a in table),
        "distinct_nontrivial": sum(a["distinct_nontrivial"] for a in table),
        "rule": " | ".join("%s: %s" % (a["name"], a.pop("rule")) for a in table) or "run ended before a case was counted",
        "samples": samples or ["run ended before a case was recorded"],
        "sub_checks": table,
        "shards": len(runs),
        "shards_with_race_detector": sum(r["race"] for r in runs),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": chk["assumes"], "wall_s": round(wall, 2), "violations": violations}
    if known:
        ev["coverage"]["known_findings"] = known
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    text = json.dumps(ev, indent=1, ensure_ascii=True)
    while len(text) > 60000 and cov["samples"]:
        cov["samples"].pop()
        text = json.dumps(ev, indent=1, ensure_ascii=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.%d.tmp" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        f.write(text)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    prop = a.property
    if prop not in CHECKS:
        no_answer("unknown property " + prop)
    chk = CHECKS[prop]
    try:
        seed = int(os.environ.get("VERIF_SEED") or "1")
    except ValueError:
        seed = 1
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vck-%s-" % prop)
    os.chmod(work, 0o755)
    fast = None
    try:
        if shutil.disk_usage("/dev/shm").free > 1 << 30:
            fast = tempfile.mkdtemp(prefix="vck-%s-" % prop, dir="/dev/shm")
            os.chmod(fast, 0o755)
    except OSError:
        pass
    rc = 2
    try:
        # what is checked under the race detector also runs without it: faster, other interleavings
        race = bool(chk.get("race"))
        if a.replay:
            rec = json.load(open(a.replay))
            race = rec.get("race", race)
        binary = build(chk, work, race)
        plain = build(chk, work, False) if race and not a.replay else None
        drop = can_setuid()
        log("%s: built in %.1fs" % (prop, time.time() - t0))
        if a.replay:
            ff = None
            if rec.get("failfile_b64"):
                ff = os.path.join(work, rec["failfile_name"])
                with open(ff, "wb") as f:
                    f.write(base64.b64decode(rec["failfile_b64"]))
                os.chmod(ff, 0o644)
            run = None
            if rec.get("test"):
                run = "/".join("^%s$" % re.escape(x) for x in rec["test"].split("/"))
            r = start(binary, work, "replay", prop, rec["seed"], rec.get("tier", "quick"), drop, run=run, failfile=ff, fast=fast)
            reap([r], time.time() + 3600)
            verdict, why = judge(r)
            print(excerpt(r["out"]))
            print("replay:", verdict, why)
            if verdict == "violation":
                print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            rc = {"held": 0, "violation": 1}.get(verdict, 2)
            return rc
        shards = chk.get("shards", 2) if a.tier == "quick" else chk.get("thorough_shards", 7)
        # seeds are a pure function of VERIF_SEED; 0 would mean "random" to rapid
        seeds = [(seed * 1000003 + 7919 * (k + 1)) % (2 ** 62) + 1 for k in range(shards)]
        budget = 700 if a.tier == "quick" else 5400
        with_plain = 0 if not plain else max(1, shards // 3)
        runs = [start(plain if k < with_plain else binary, work, "s%d" % k, prop, s, a.tier, drop, fast=fast)
                for k, s in enumerate(seeds)]
        reap(runs, t0 + budget)
        verdicts = [(judge(r), r) for r in runs]
        bad = [(v, r) for v, r in verdicts if v[0] == "violation"]
        err = [(v, r) for v, r in verdicts if v[0] == "error"]
        evidence(prop, chk, a.tier, seed, runs, time.time() - t0, len(bad), [])
        if bad:
            (v, why), r = bad[0]
            path = save_replay(prop, r, why, a.tier)
            print(excerpt(r["out"])[:6000])
            print("%s: %s (shard seed %d)" % (prop, why, r["seed"]))
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, VERIF)))
            rc = 1
        elif err:
            (v, why), r = err[0]
            log(r["out"][-4000:])
            log("ERROR (no answer):", why)
            rc = 2
        else:
            ev = json.load(open(os.path.join(VERIF, "evidence", prop + ".json")))["coverage"]
            print("%s held: %d cases, %d distinct non-trivial, %.1fs" %
                  (prop, ev["evaluations"], ev["distinct_nontrivial"], time.time() - t0))
            rc = 0
        return rc
    finally:
        if a.keep:
            log("kept", work)
        else:
            for p in (work, fast):
                if p:
                    shutil.rmtree(p, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
