#!/usr/bin/env python3
"""Driver of the checks: check.py <property> [--replay FILE]

Builds the generated-input tests of one property against the current working
tree of /repo (through a go build overlay, nothing is written there), runs them
in parallel, merges what they covered into evidence/<property>.json and reports
violations. Exit 0: held, 1: violated, 2: the check could not be carried out.
"""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
PKGS = ["grp", "bp", "vp", "mainpkg"]
CPUS = os.cpu_count() or 4
STOP = threading.Event()

TEST_RE = re.compile(r"((?://[^\n]*\n)*)func (Test(C\d\d)_\w+)\(t \*testing\.T\)")
OPT_RE = re.compile(r"//vh:(\w+) quick=(\d+) thorough=(\d+)")


def tests_of(prop):
    """All tests of a property: (package, test, {option: (quick, thorough)})."""
    out = []
    for pkg in PKGS:
        for path in sorted(glob.glob(os.path.join(HARNESS, pkg, "*_test.go"))):
            for m in TEST_RE.finditer(open(path, encoding="utf-8").read()):
                if m.group(3) == prop:
                    opts = {k: (int(q), int(t)) for k, q, t in OPT_RE.findall(m.group(1))}
                    out.append((pkg, m.group(2), opts))
    return out


def go_env():
    env = dict(os.environ)
    for d in ("/opt/veriftools/go1.27.3/bin",):
        if os.path.exists(os.path.join(d, "go")):
            env["PATH"] = d + ":" + env.get("PATH", "")
    env.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", GOSUMDB="off", GONOSUMDB="*",
               CGO_ENABLED=env.get("CGO_ENABLED", "1"))
    env.setdefault("HOME", "/root")
    return env


def prepare(scratch):
    """Module file with the test library, and the overlay."""
    mod = open(os.path.join(REPO, "go.mod"), encoding="utf-8").read()
    # The test library needs a newer go line than the repository has; the
    # repository's own language version is kept by -lang and godebug.
    lang = re.search(r"^go (\d+\.\d+)", mod, re.M).group(1)
    if tuple(map(int, lang.split("."))) < (1, 23):
        mod = re.sub(r"^go \d+\.\d+(\.\d+)?", "go 1.23", mod, count=1, flags=re.M)
        mod += "\ngodebug default=go%s\n" % lang
    if "pgregory.net/rapid" not in mod:
        mod += "\nrequire pgregory.net/rapid v1.3.0\n"
    with open(os.path.join(scratch, "go.mod"), "w") as f:
        f.write(mod)
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(scratch, "go.sum"))
    # Test files of the main package are set aside: main_test.go of the pinned
    # commit does not compile.
    repl = {p: "" for p in glob.glob(os.path.join(REPO, "*_test.go"))}
    for pkg in ["vh"] + PKGS:
        for path in glob.glob(os.path.join(HARNESS, pkg, "*.go")):
            name = os.path.basename(path)
            if pkg == "mainpkg":
                repl[os.path.join(REPO, "zz_verif_" + name)] = path
            else:
                repl[os.path.join(REPO, "zzverif", pkg, name)] = path
    # Stands in for the system's randomness; linked into the package on which
    # all others depend.
    repl[os.path.join(REPO, "zzverif", "rr", "rr.go")] = os.path.join(HARNESS, "rr", "rr.go")
    repl[os.path.join(REPO, "group", "zz_verif_rr.go")] = os.path.join(HARNESS, "rr", "group.go.txt")
    # The forgers are shared with the ballot checks: the same files make up a
    # package that can be imported.
    for pkg, names in (("bp", ("gen", "oracle", "forge")), ("vp", ("gen",))):
        for n in names:
            repl[os.path.join(REPO, "zzverif", pkg + "l", n + ".go")] = os.path.join(HARNESS, pkg, n + "_test.go")
        repl[os.path.join(REPO, "zzverif", pkg + "l", "export.go")] = os.path.join(HARNESS, pkg + "l", "export.go")
    with open(os.path.join(scratch, "overlay.json"), "w") as f:
        json.dump({"Replace": repl}, f)
    return lang


def build(scratch, lang, pkg, race):
    out = os.path.join(scratch, pkg + (".race" if race else "") + ".test")
    target = "." if pkg == "mainpkg" else "./zzverif/" + pkg
    cmd = ["go", "test", "-c", "-vet=off", "-modfile=" + os.path.join(scratch, "go.mod"),
           "-overlay=" + os.path.join(scratch, "overlay.json"), "-o", out]
    cmd.append("-gcflags=github.com/takakv/msc-poc/...=-lang=go" + lang)
    if race:
        cmd.append("-race")
    p = subprocess.run(cmd + [target], cwd=REPO, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return out, p.returncode, p.stdout


def run_one(job):
    """One test process."""
    exe, prop, test, shard, shards, seed, tier, scratch, deadline, failfile, env_extra = job
    if STOP.is_set():
        return dict(test=test, shard=shard, shards=shards, rc="skipped", out="", fail=None, wall=0)
    cwd = tempfile.mkdtemp(prefix="run-", dir=scratch)
    env = go_env()
    env.update(VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_SHARD=str(shard), VERIF_SHARDS=str(shards),
               VERIF_EV=os.path.join(scratch, "ev"), VERIF_DATA=os.path.join(HARNESS, "data"), GOTRACEBACK="single",
               VERIF_SHRINK=os.environ.get("VERIF_SHRINK", "20s" if tier == "quick" else "60s"))
    env.update(env_extra)
    env.setdefault("GOMAXPROCS", "2")
    cmd = [exe, "-test.run", "^%s$" % test, "-test.timeout", "0"]
    if failfile:
        cmd.append("-rapid.failfile=" + failfile)
    t0 = time.time()
    with open(os.path.join(cwd, "out"), "wb") as f:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout=max(1, deadline - t0))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = "timeout"
    with open(os.path.join(cwd, "out"), "rb") as f:
        f.seek(0, 2)
        size = f.tell()
        f.seek(max(0, size - 400000))
        out = f.read().decode("utf-8", "replace")
    fails = glob.glob(os.path.join(cwd, "testdata", "rapid", "*", "*.fail"))
    fail = open(fails[0], encoding="latin-1", newline="").read() if fails else None
    shutil.rmtree(cwd, ignore_errors=True)
    if isinstance(rc, int) and rc > 0 and "harness:" not in out:
        STOP.set()  # a violation: what has not begun is not needed any more
    return dict(test=test, shard=shard, shards=shards, rc=rc, out=out, fail=fail, wall=time.time() - t0)


def report(prop, seed, tier, pkg, race, r):
    """Writes the replay file of a failed test process and returns its path."""
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", "%s-%s-seed%s-shard%d.json" % (prop, r["test"], seed, r["shard"]))
    lines = [l for l in r["out"].splitlines() if not l.startswith(("Check 6", "Aborted"))]
    with open(path, "w") as f:
        json.dump(dict(property=prop, test=r["test"], package=pkg, race=race, seed=seed, tier=tier, shard=r["shard"],
                       shards=r["shards"], failfile=r["fail"], output=lines[-200:]), f, indent=1)
    return path


def show(r):
    lines = [l for l in r["out"].splitlines() if not l.startswith(("Check 6", "Aborted"))]
    keep = [l for l in lines if "[rapid]" in l or "panic" in l.lower() or "WATCHDOG" in l or "DATA RACE" in l][:12]
    for l in keep or lines[-12:]:
        print("   ", l[:400])


def main():
    args = sys.argv[1:]
    if not args:
        sys.exit("usage: check.py <property> [--replay FILE]")
    if args[0] == "--setup":
        sys.exit(setup())
    if args[0] == "--make-archive":
        sys.exit(make_archive())
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    only = os.environ.get("VERIF_ONLY")
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    try:
        sys.exit(check(prop, tier, seed, args, only, scratch, t0))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def setup():
    """Builds everything once, so that the build cache is warm."""
    scratch = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        lang = prepare(scratch)
        bad = 0
        for pkg in PKGS:
            for race in (False, True):
                _, rc, log = build(scratch, lang, pkg, race)
                if rc != 0:
                    print("build of %s failed:\n%s" % (pkg, log[-4000:]))
                    bad = 1
        return bad
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def make_archive():
    """Makes the archive of C29 anew from the current tree (never part of a check)."""
    scratch = tempfile.mkdtemp(prefix="verif-archive-")
    try:
        lang = prepare(scratch)
        for pkg in ("bp", "mainpkg"):
            exe, rc, log = build(scratch, lang, pkg, False)
            if rc != 0:
                print(log)
                return 2
            env = go_env()
            env.update(VERIF_ARCHIVE="make", VERIF_DATA=os.path.join(HARNESS, "data"))
            if subprocess.run([exe, "-test.run", "^TestArchive_Make$", "-test.v"], cwd=scratch, env=env).returncode != 0:
                return 2
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(prop, tier, seed, args, only, scratch, t0):
    os.makedirs(os.path.join(scratch, "ev"))
    tests = tests_of(prop)
    if not tests:
        print("no tests for", prop)
        return 2
    lang = prepare(scratch)
    replay = None
    if "--replay" in args:
        replay = json.load(open(args[args.index("--replay") + 1]))
        tests = [t for t in tests if t[1] == replay["test"]]
        tier, seed = replay["tier"], replay["seed"]
    elif only:
        tests = [t for t in tests if re.search(only, t[1])]
    ti = 0 if tier == "quick" else 1

    binaries, unbuilt = {}, []
    need = sorted({(pkg, bool(o.get("race", (0, 0))[ti])) for pkg, _, o in tests})
    with cf.ThreadPoolExecutor(max_workers=2) as ex:
        for key, (out, rc, log) in zip(need, ex.map(lambda k: build(scratch, lang, *k), need)):
            if rc != 0:
                print("build of %s failed:\n%s" % (key[0], log[-6000:]))
                unbuilt.append(key[0])
                continue
            binaries[key] = out
    if not binaries:
        return 2
    t_build = time.time() - t0

    # The whole run is bounded: 900 s in the quick tier.
    deadline = t0 + (840 if tier == "quick" else 6 * 3600)
    jobs, meta = [], {}
    for pkg, test, o in tests:
        shards = o.get("shards", (2, 8))[ti]
        race = bool(o.get("race", (0, 0))[ti])
        if (pkg, race) not in binaries:
            continue
        extra = {"GOMAXPROCS": str(o["procs"][ti])} if "procs" in o else {}
        if race:
            extra["GORACE"] = "halt_on_error=1 exitcode=66"
        meta[test] = (pkg, race)
        rng = range(shards)
        failfile = None
        if replay:
            shards = replay["shards"]
            rng = [replay["shard"]]
            if replay.get("failfile"):
                failfile = os.path.join(scratch, "replay.fail")
                open(failfile, "w", encoding="latin-1", newline="").write(replay["failfile"])
        for s in rng:
            jobs.append((binaries[(pkg, race)], prop, test, s, shards, seed, tier, scratch, deadline, failfile, extra))

    results = []
    with cf.ThreadPoolExecutor(max_workers=CPUS) as ex:
        for fut in cf.as_completed([ex.submit(run_one, j) for j in jobs]):
            results.append(fut.result())
    results.sort(key=lambda r: (r["test"], r["shard"]))

    # Merge the evidence.
    ev, hashes, digests, clash = {}, set(), {}, []
    for path in sorted(glob.glob(os.path.join(scratch, "ev", "*.json"))):
        e = json.load(open(path))
        d = ev.setdefault(e["test"], dict(cpu=0.0, evaluations=0, nontrivial=set(), rule=e["rule"], samples=[], labels={}, vacuous={}))
        d["evaluations"] += e["evaluations"]
        d["cpu"] = max(d["cpu"], e.get("max_case_cpu", 0))
        d["nontrivial"].update(e["hashes"] or [])
        d["samples"] += (e["samples"] or [])[:max(0, 3 - len(d["samples"]))]
        for k in ("labels", "vacuous"):
            for n, c in (e[k] or {}).items():
                d[k][n] = d[k].get(n, 0) + c
        for n, v in (e["digests"] or {}).items():
            if digests.setdefault(n, v) != v:
                clash.append((e["test"], n))

    violations, errors = 0, 0
    for r in results:
        if r["rc"] in (0, "skipped"):
            continue
        pkg, race = meta[r["test"]]
        if r["rc"] == "timeout" or (isinstance(r["rc"], int) and r["rc"] < 0):
            print("check could not finish: %s shard %d: %s" % (r["test"], r["shard"], r["rc"]))
            show(r)
            errors += 1
            continue
        if "harness:" in r["out"] and not r["fail"]:
            print("harness error in %s shard %d" % (r["test"], r["shard"]))
            show(r)
            errors += 1
            continue
        violations += 1
        path = report(prop, seed, tier, pkg, race, r)
        print("%s shard %d failed:" % (r["test"], r["shard"]))
        show(r)
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for test, name in sorted(set(clash)):
        violations += 1
        r = dict(test=test, shard=0, shards=1, out="processes disagree on " + name, fail=None)
        path = report(prop, seed, tier, meta[test][0], meta[test][1], r)
        print("%s: separate processes disagree on %s" % (test, name))
        print("VIOLATION property=%s replay=%s" % (prop, path))

    if replay:
        print("replay:", "reproduced" if violations else "not reproduced")
    else:
        write_evidence(prop, tier, seed, ev, t0, t_build, violations, len(results), unbuilt)
    total = sum(d["evaluations"] for d in ev.values())
    print("%s %s seed=%d: %d tests, %d processes, %d cases, %d violations, %.1fs (build %.1fs)"
          % (prop, tier, seed, len(tests), len(results), total, violations, time.time() - t0, t_build))
    if os.environ.get("VERIF_VERBOSE"):
        for t in sorted(ev):
            d = ev[t]
            print("  %-44s cases=%d nontrivial=%d wall=%.1f maxcase=%.1f labels=%s vacuous=%s" % (
                t, d["evaluations"], len(d["nontrivial"]), max([r["wall"] for r in results if r["test"] == t] or [0]), d["cpu"],
                d["labels"], d["vacuous"]))
    if violations:
        return 1
    return 2 if errors else 0


def write_evidence(prop, tier, seed, ev, t0, t_build, violations, procs, unbuilt):
    cov = dict(
        evaluations=sum(d["evaluations"] for d in ev.values()),
        distinct_nontrivial=sum(len(d["nontrivial"]) for d in ev.values()),
        rule="; ".join("%s: %s" % (t, ev[t]["rule"]) for t in sorted(ev)),
        samples=[dict(test=t, case=s) for t in sorted(ev) for s in ev[t]["samples"]],
        tests={t: dict(cases=ev[t]["evaluations"], distinct_nontrivial=len(ev[t]["nontrivial"]), labels=ev[t]["labels"],
                       not_applicable=ev[t]["vacuous"]) for t in sorted(ev)},
        processes=procs, build_s=round(t_build, 1))
    if unbuilt:
        cov["not_built"] = unbuilt
    doc = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(time.time() - t0, 2),
               violations=violations,
               assumptions=["SHA-256 and discrete logarithms are not broken by the generated inputs",
                            "reference arithmetic and the exponent-transparent group in /verif/harness are correct"])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1, sort_keys=True)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))


if __name__ == "__main__":
    sys.stdout.reconfigure(errors="replace")
    try:
        main()
    except Exception:  # a fault of the driver is no verdict
        traceback.print_exc()
        sys.exit(2)
