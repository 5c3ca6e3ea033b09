#!/usr/bin/env python3
"""Builds the monitors of one property from /repo's working tree, runs them and judges what they observed.

check.py <property>      exit 0 held, exit 1 with VIOLATION lines, exit 2 no answer
check.py --setup         build every monitor once
"""
import concurrent.futures as cf
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
GOROOT = "/opt/veriftools/go1.25.14"


def goenv():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("GO", "CHORIA", "MCOLLECTIVE", "NATS"))}
    e.update(HOME="/root", USER="root", LANG="C.UTF-8", PATH=GOROOT + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", CGO_ENABLED="1", GOPATH="/root/go", GOCACHE="/root/.cache/go-build",
             GONOSUMDB="*", GONOSUMCHECK="1")
    return e


def overlay(work):
    rep = {}
    for d, _, files in os.walk(HARNESS):
        for f in files:
            if f.endswith(".go"):
                p = os.path.join(d, f)
                rep[os.path.join(REPO, os.path.relpath(p, HARNESS))] = p
    path = os.path.join(work, "overlay.json")
    with open(path, "w") as fh:
        json.dump({"Replace": rep}, fh)
    return path


def build(unit, ov, work):
    out = os.path.join(work, unit["pkg"].replace("/", "%") + (".race" if unit.get("race", False) else "") + ".test")
    if os.path.exists(out):
        return out, ""
    # the module files are read from a copy so that nothing can touch the repository's own
    mod = os.path.join(work, "go.mod")
    if not os.path.exists(mod):
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(work, "go.sum"))
        shutil.copy(os.path.join(REPO, "go.mod"), mod)
    cmd = ["go", "test", "-c", "-vet=off", "-overlay", ov, "-modfile", mod, "-o", out]
    if unit.get("race", False):
        cmd.append("-race")
    cmd += ["./" + unit["pkg"]]
    p = subprocess.run(cmd, cwd=REPO, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        return None, p.stdout
    return out, ""


FRAME = re.compile(r"^\t(\S+\.go):(\d+)")


def frames(lines):
    """[(func, file, line)] of a go stack dump"""
    res = []
    for i, l in enumerate(lines):
        m = FRAME.match(l)
        if not m:
            m = re.match(r"^\s+(/\S+\.go):(\d+)", l)
        if m and i > 0:
            fn = lines[i - 1].strip()
            fn = re.sub(r"\(0x[^)]*\)$|\(\.\.\.\)$|\(\{.*\)$|\(\)$", "", fn)
            fn = re.sub(r" in goroutine \d+$", "", fn)
            fn = re.sub(r"^created by ", "", fn)
            res.append((fn, m.group(1), int(m.group(2))))
    return res


def kind(path):
    if path.startswith(HARNESS) or path.endswith("_test.go") or "/internal/verif" in path:
        return "harness"
    if path.startswith(REPO + "/"):
        return "repo"
    return "lib"


def short(fn):
    return fn.replace("github.com/choria-io/go-choria/", "")


def judge_crash(out):
    """returns (key, detail) when repository code crashed, (None, detail) when something else did"""
    m = re.search(r"^(panic: .*|fatal error: .*|unexpected fault address.*)$", out, re.M)
    if not m:
        return None
    tail = out[m.start():]
    blocks = re.split(r"\n\n", tail)
    detail = tail[:5000]
    if "test timed out" in m.group(1):
        for b in blocks[1:]:
            h = re.match(r"goroutine \d+ (?:gp=\S+ )?(?:m=\S+ )?(?:mp=\S+ )?\[([^\],]+), (\d+) minutes", b)
            if not h or int(h.group(2)) < 3:
                continue
            fr = frames(b.split("\n"))
            ks = [f for f in fr if kind(f[1]) != "lib"]
            if not ks or kind(ks[0][1]) != "repo":
                continue
            # waiting minutes for a lock, or never coming back to a check that called it
            if re.match(r"sync\.(RW)?Mutex|semacquire", h.group(1)) or any(f[0].startswith("testing.tRunner") for f in fr):
                return ("hang:" + short(ks[0][0]), "waiting in %s for %s minutes\n%s" % (h.group(1), h.group(2), b[:3000]))
        return (None, "timed out: " + detail[:3000])
    for b in blocks[:3]:
        fr = frames(b.split("\n"))
        ks = [f for f in fr if kind(f[1]) != "lib"]
        if ks:
            # code of the repository that runs below the harness
            if kind(ks[0][1]) == "repo":
                return ("crash:" + short(ks[0][0]), detail)
            return (None, detail)
    # runtime detected a deadlock or a concurrent map access without own frames
    return (None, detail)


def judge_races(text):
    res = []
    for blk in re.findall(r"WARNING: DATA RACE\n(.*?)\n==================", text, re.S):
        parts = re.split(r"\n\n", blk)
        tops = []
        for p in parts[:2]:
            fr = frames(p.split("\n"))
            ks = [f for f in fr if kind(f[1]) != "lib"]
            tops.append(ks[0] if ks else None)
        if all(t is not None and kind(t[1]) == "repo" for t in tops):
            key = "race:" + "|".join(sorted(short(t[0]) for t in tops))
            res.append((key, blk[:5000]))
        else:
            res.append((None, blk[:3000]))
    return res


def run_unit(unit, binary, work, tier, seed):
    n = unit["name"]
    scratch = os.path.join(work, "run-" + re.sub(r"\W", "_", n))
    os.makedirs(os.path.join(scratch, "tmp"))
    os.makedirs(os.path.join(scratch, "home"))
    outf = os.path.join(scratch, "events.jsonl")
    e = goenv()
    e.update(VERIF_OUT=outf, VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_REPO=REPO, VERIF_DATA=os.path.join(VERIF, "data"), TMPDIR=os.path.join(scratch, "tmp"),
             HOME=os.path.join(scratch, "home"), MCOLLECTIVE_CERTNAME="rip.mcollective",
             GORACE="halt_on_error=0 exitcode=0 atexit_sleep_ms=50 log_path=%s" % os.path.join(scratch, "race"))
    tmo = unit.get("timeout", 480) if tier == "quick" else unit.get("timeout_thorough", 5400)
    cmd = [binary, "-test.run", unit.get("run", "."), "-test.timeout", "%ds" % tmo, "-test.v", "-test.count", "1"]
    t0 = time.time()
    logf = os.path.join(scratch, "log")
    with open(logf, "wb") as lf:
        p = subprocess.Popen(cmd, cwd=scratch, env=e, stdin=subprocess.DEVNULL, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            p.wait(timeout=tmo + 30)
        except subprocess.TimeoutExpired:
            pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    with open(logf, errors="replace") as lf:
        out = lf.read()
    events = []
    if os.path.exists(outf):
        for l in open(outf):
            try:
                events.append(json.loads(l))
            except ValueError:
                pass
    race = ""
    for f in os.listdir(scratch):
        if f.startswith("race."):
            race += open(os.path.join(scratch, f), errors="replace").read() + "\n"
    return dict(unit=unit, rc=p.returncode, out=out, events=events, race=race, wall=time.time() - t0)


def known():
    res = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"^known: property=(\S+) key=(\S+) (.*)$", l.strip())
            if m:
                res.append(m.groups())
    return res


def main():
    cfg = json.load(open(os.path.join(VERIF, "checks.json")))
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        return setup(cfg)
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    spec = cfg[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    os.chmod(work, 0o755)
    try:
        return check(prop, spec, tier, seed, work, t0)
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept " + work)
        else:
            subprocess.run(["chmod", "-R", "u+w", work], stderr=subprocess.DEVNULL)
            shutil.rmtree(work, ignore_errors=True)


def check(prop, spec, tier, seed, work, t0):
    ov = overlay(work)
    trouble, viols, cov, results = [], [], [], []
    bins = []
    for i, u in enumerate(spec["units"]):
        u.setdefault("name", u["pkg"] + "#%d" % i)
        b, err = build(u, ov, work)
        if not b:
            print("BUILD FAILED %s\n%s" % (u["pkg"], err[-4000:]))
            trouble.append("build of %s failed" % u["pkg"])
            continue
        bins.append((u, b))
    with cf.ThreadPoolExecutor(max_workers=spec.get("parallel", 4)) as ex:
        futs = [ex.submit(run_unit, u, b, work, tier, seed) for u, b in bins]
        for f in futs:
            results.append(f.result())
    races_seen = 0
    harness_races = []
    for r in results:
        own = [e for e in r["events"] if e.get("prop") == prop]
        for e in own:
            if e["t"] == "violation":
                viols.append((e["key"], e["detail"], e["test"]))
            elif e["t"] == "inconclusive":
                trouble.append("%s: %s" % (e["test"], e["detail"]))
            elif e["t"] == "coverage":
                cov.append(e)
        rs = judge_races(r["race"])
        for key, detail in rs:
            races_seen += 1
            if key:
                viols.append((key, detail, r["unit"]["name"]))
            else:
                harness_races.append(detail)
        crash = judge_crash(r["out"])
        if crash:
            if crash[0]:
                viols.append((crash[0], crash[1], r["unit"]["name"]))
            else:
                trouble.append("%s crashed: %s" % (r["unit"]["name"], crash[1]))
        elif r["rc"] != 0 and not any(e["t"] == "violation" for e in own) and not rs:
            trouble.append("%s exit %d: %s" % (r["unit"]["name"], r["rc"], r["out"][-3000:]))
        if not any(e["t"] == "coverage" for e in own) and not crash:
            trouble.append("%s observed nothing: %s" % (r["unit"]["name"], r["out"][-2000:]))
    kf = [k for k in known() if k[0] == prop]
    hits, fresh = {}, []
    for key, detail, test in viols:
        m = [k for k in kf if k[1] == key]
        if m:
            hits[m[0]] = hits.get(m[0], 0) + 1
        else:
            fresh.append((key, detail, test))
    for k in hits:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, f))
    seen = {}
    for key, detail, test in fresh:
        seen.setdefault(key, []).append((detail, test))
    for n, (key, ds) in enumerate(list(seen.items())[:20]):
        path = os.path.join(rdir, "%s-%d.json" % (prop, n))
        with open(path, "w") as fh:
            json.dump(dict(property=prop, key=key, seed=seed, tier=tier, test=ds[0][1], witnesses=[d for d, _ in ds[:3]],
                           replay="cd /verif && VERIF_SEED=%d VERIF_TIER=%s python3 bin/check.py %s" % (seed, tier, prop)), fh, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s: %s" % (key, ds[0][0][:1500].replace("\n", "\n    ")))
    evals = sum(c["evaluations"] for c in cov)
    counters, samples, rules, notes = {}, [], [], []
    for c in cov:
        for k, v in (c.get("counters") or {}).items():
            counters[k] = counters.get(k, 0) + v
        samples += [dict(monitor=c["test"], case=s) for s in (c.get("samples") or [])[:3]]
        rules.append("%s: %s" % (c["test"], c["rule"]))
        notes += c.get("notes") or []
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get("level", "exploration"),
              coverage=dict(evaluations=evals, distinct_nontrivial=sum(c["distinct"] for c in cov), rule="; ".join(rules) or "none", samples=samples[:24],
                            observed=counters, monitors=[dict(test=c["test"], evaluations=c["evaluations"], distinct=c["distinct"], wall_s=round(c["wall_s"], 2)) for c in cov],
                            race_detector=[r["unit"]["name"] for r in results if r["unit"].get("race", False)], race_reports=races_seen,
                            harness_only_races=len(harness_races), notes=notes[:20]),
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(seen))
    if trouble:
        ev["coverage"]["inconclusive"] = [t[:500] for t in trouble]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for d in harness_races[:2]:
        print("NOTE a race report without repository code on both sides:\n" + d[:1500])
    if seen:
        return 1
    if trouble:
        for t in trouble:
            print("INCONCLUSIVE " + t)
        return 2
    print("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs" % (prop, tier, seed, evals, ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    return 0


def setup(cfg):
    """compiles everything once, warming the build cache; a failure here is left for the checks to report"""
    work = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        ov = overlay(work)
        done = set()
        for prop in sorted(cfg):
            for u in cfg[prop]["units"]:
                k = (u["pkg"], u.get("race", False))
                if k in done:
                    continue
                done.add(k)
                b, err = build(u, ov, work)
                print("built %s" % u["pkg"] if b else "BUILD FAILED %s\n%s" % (u["pkg"], err[-2000:]), flush=True)
                if b:
                    os.unlink(b)
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
