#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]: decide one property by generated-input search.

Builds the harness and the mock from /repo's working tree into .build/, runs the
property's test in several shard processes (seeds derived from VERIF_SEED), and
merges what they report into evidence/PROPERTY.json.

exit 0: the property held on everything explored; exit 1 with a VIOLATION line:
it is broken; exit 2: the check itself could not do its work.
"""
import argparse, fcntl, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
HARNESS = os.path.join(VERIF, "harness")

# kind: bb (black box, child process), in (in-package codec tests)
# quick/thorough: generated cases per shard; shards: processes at once if not 8 (more
# where the cases mostly sleep); race: needs the race-built child
PROPS = {
    "C01": dict(kind="bb", quick=2400, thorough=40000),
    "C02": dict(kind="bb", quick=1100, thorough=40000),
    "C03": dict(kind="bb", quick=1000, thorough=25000),
    "C04": dict(kind="bb", quick=75, thorough=1400, shards=24),
    "C05": dict(kind="bb", quick=1200, thorough=25000),
    "C06": dict(kind="bb", quick=4000, thorough=80000),
    "C07": dict(kind="bb", quick=3500, thorough=60000),
    "C08": dict(kind="bb", quick=4000, thorough=80000),
    "C09": dict(kind="bb", quick=3500, thorough=60000),
    "C10": dict(kind="bb", quick=170, thorough=4500, shards=16),
    "C11": dict(kind="bb", quick=350, thorough=6000),
    "C12": dict(kind="bb", quick=25, thorough=350, shards=24),
    "C13": dict(kind="in", quick=16000, thorough=300000),
    "C14": dict(kind="in", quick=16000, thorough=300000),
    "C15": dict(kind="in", quick=12000, thorough=200000),
    "C16": dict(kind="bb", quick=800, thorough=12000, race=True),
    "C17": dict(kind="bb", quick=1700, thorough=40000),
    "C18": dict(kind="bb", quick=80, thorough=1200, shards=24),
    "C19": dict(kind="bb", quick=2000, thorough=40000),
    "C20": dict(kind="bb", quick=700, thorough=9000),
    "C21": dict(kind="bb", quick=150, thorough=2500, shards=16),
    "C22": dict(kind="bb", quick=40, thorough=600),
}
SHARDS = 8
BUDGET = {"quick": 150, "thorough": 650}  # seconds of generation per shard

GOENV = dict(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOSUMDB="off", GOWORK="off", HOME="/root")


def fail(msg):
    print("check error: " + msg, file=sys.stderr)
    sys.exit(2)


def go(args, cgo="0"):
    env = dict(os.environ, **GOENV, CGO_ENABLED=cgo)
    env["PATH"] = "/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:" + env.get("PATH", "")
    p = subprocess.run(["go"] + args, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        fail("go %s failed:\n%s" % (" ".join(args), p.stdout[-4000:]))


def build(what, bindir):
    """what: set of plain, race, bb, in"""
    os.makedirs(bindir, exist_ok=True)
    out = lambda n: os.path.join(bindir, n)
    if "plain" in what:
        go(["build", "-o", out("kmserver"), "./cmd/kmserver"])
    if "race" in what:
        go(["build", "-race", "-o", out("kmserver_race"), "./cmd/kmserver"], cgo="1")
    if "bb" in what:
        go(["test", "-vet=off", "-c", "-o", out("bb.test"), "./bb"])
    if "in" in what:
        ov = {"Replace": {}}
        d = os.path.join(HARNESS, "inpkg")
        for f in sorted(os.listdir(d)):
            if f.endswith(".go.txt"):
                ov["Replace"]["%s/vp_%s_test.go" % (REPO, f[:-len(".go.txt")])] = os.path.join(d, f)
        # the package's own tests are left out
        for f in os.listdir(REPO):
            if f.endswith("_test.go"):
                ov["Replace"].setdefault(os.path.join(REPO, f), "")
        with open(out("overlay.json"), "w") as fh:
            json.dump(ov, fh)
        go(["test", "-vet=off", "-overlay", out("overlay.json"), "-c", "-o", out("in.test"), "github.com/jimsnab/kafka-mock-go"])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int, help="cases per shard instead of the tier's number")
    ap.add_argument("--shards", type=int)
    ap.add_argument("--tier", choices=["quick", "thorough"], help="default: VERIF_TIER, or quick")
    a = ap.parse_args()
    if a.prop == "--build" or a.prop == "build":
        build({"plain", "race", "bb", "in"}, BUILD)
        return
    if a.prop not in PROPS:
        fail("unknown property " + a.prop)
    cfg = PROPS[a.prop]
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        fail("VERIF_TIER is %r" % tier)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        fail("VERIF_SEED is not a number")
    t0 = time.time()

    what = {cfg["kind"]}
    if cfg["kind"] == "bb":
        what.add("plain")
    if cfg.get("race"):
        what.add("race")
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        build(what, BUILD)
        # run from a private copy, so that a later build cannot pull it away
        work = tempfile.mkdtemp(prefix="run-", dir=BUILD)
        for f in os.listdir(BUILD):
            if f in ("kmserver", "kmserver_race", "bb.test", "in.test"):
                try:
                    os.link(os.path.join(BUILD, f), os.path.join(work, f))
                except OSError:
                    shutil.copy2(os.path.join(BUILD, f), os.path.join(work, f))
                # a rebuild must not write through the link
        for f in ("kmserver", "kmserver_race", "bb.test", "in.test"):
            p = os.path.join(BUILD, f)
            if os.path.exists(p):
                os.unlink(p)
    try:
        sys.exit(run(a, cfg, tier, seed, work, t0))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(a, cfg, tier, seed, work, t0):
    prop = a.prop
    corpus = os.path.join(VERIF, "corpus", prop)
    shards = 1 if a.replay else a.shards or cfg.get("shards", SHARDS)
    cases = a.cases or cfg[tier]
    binary = os.path.join(work, cfg["kind"] + ".test")
    procs = []
    for i in range(shards):
        out = os.path.join(work, "shard%d.json" % i)
        env = dict(os.environ)
        for k in ("VP_REPLAY", "VP_CORPUS"):
            env.pop(k, None)
        env.update(VP_OUT=out, VP_SHARD=str(i), VP_BUDGET_S=str(BUDGET[tier]), VP_TIER=tier,
                   KMSERVER=os.path.join(work, "kmserver"), KMSERVER_RACE=os.path.join(work, "kmserver_race"),
                   GOTRACEBACK="single")
        if a.replay:
            env["VP_REPLAY"] = os.path.abspath(a.replay)
        elif i == 0 and os.path.isdir(corpus):
            env["VP_CORPUS"] = corpus
        rseed = (seed * 1000003 + i * 7919 + 17) & 0x7FFFFFFF or 1
        cmd = [binary, "-test.run", "^Test%s$" % prop, "-test.timeout", "%ds" % (BUDGET[tier] + 170),
               "-rapid.seed", str(rseed), "-rapid.checks", str(cases), "-rapid.nofailfile",
               "-rapid.shrinktime", "15s" if tier == "quick" else "60s"]
        log = open(os.path.join(work, "shard%d.log" % i), "w")
        pre = None
        if cfg["kind"] == "in":
            def pre():
                resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        procs.append((i, out, log.name, subprocess.Popen(cmd, cwd=work, env=env, stdin=subprocess.DEVNULL, stdout=log,
                                                         stderr=subprocess.STDOUT, preexec_fn=pre)))
    # once a shard has failed the others get a little longer to finish, then they are stopped
    violation_at = None
    live = list(procs)
    while live:
        time.sleep(0.05)
        for x in list(live):
            if x[3].poll() is not None:
                live.remove(x)
                if x[3].returncode and violation_at is None:
                    violation_at = time.time()
        if live and violation_at and time.time() - violation_at > 25:
            for x in live:
                x[3].kill()
            for x in live:
                x[3].wait()
            break
    cut = {x[0] for x in live}

    merged = dict(evaluations=0, skipped=0, retried=0, corpus_cases=0)
    hashes, classes, samples, rule = set(), {}, [], ""
    violations, errors = [], []
    for i, out, logname, p in procs:
        text = open(logname, errors="replace").read()
        sh = None
        if os.path.exists(out):
            try:
                sh = json.load(open(out))
            except ValueError:
                pass
        if sh is None:
            if i in cut:
                continue
            cur = out + ".cur"
            fatal = re.search(r"^(fatal error: .*|panic: .*|runtime: goroutine stack exceeds.*)$", text, re.M)
            if cfg["kind"] == "in" and fatal and os.path.exists(cur):
                # the code under test took the test process down
                violations.append(dict(property=prop, error="the process died: " + text[fatal.start():][:1500],
                                       case=json.load(open(cur))))
            else:
                errors.append("shard %d ended with %s and no result: %s" % (i, p.returncode, text[-1500:]))
            continue
        for k in merged:
            merged[k] += sh.get(k) or 0
        hashes.update(sh.get("nontrivial") or [])
        for k, v in (sh.get("classes") or {}).items():
            classes[k] = classes.get(k, 0) + v
        samples += (sh.get("samples") or [])[:1 if shards > 1 else 3]
        rule = sh.get("rule") or rule
        if sh.get("violation"):
            violations.append(sh["violation"])
        elif sh.get("harness_error"):
            errors.append("shard %d: %s" % (i, sh["harness_error"]))
        elif p.returncode and i not in cut:
            errors.append("shard %d ended with %d: %s" % (i, p.returncode, text[-1500:]))

    listed = known(prop)
    fresh, hits = [], []
    for v in violations:
        k = [x for x in listed if re.search(x, v["error"])]
        (hits.extend(k) if k else fresh.append(v))
    for k in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))

    code = 0
    if fresh:
        fresh.sort(key=lambda v: len(json.dumps(v["case"])))
        v = fresh[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        blob = json.dumps(v["case"], sort_keys=True)
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, hashlib.sha256(blob.encode()).hexdigest()[:12]))
        with open(path, "w") as fh:
            json.dump(v, fh, indent=1)
        print("".join(c if c in "\n\t" or " " <= c <= "~" else "\\x%02x" % ord(c) for c in v["error"][:2500]))
        print("replay: python3 check.py %s --replay %s" % (prop, os.path.relpath(path, VERIF)))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, VERIF)))
        code = 1
    elif errors:
        for e in errors[:2]:
            print("check error: " + e, file=sys.stderr)
        code = 2
    if a.replay:
        if code == 0:
            print("replay holds")
        return code

    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=merged["evaluations"], distinct_nontrivial=len(hashes), rule=rule,
                            samples=samples[:6], classes=dict(sorted(classes.items())),
                            corpus_cases=merged["corpus_cases"], cases_over_budget=merged["skipped"],
                            repeated_after_timeout=merged["retried"], shards=shards),
              assumptions=ASSUME, wall_s=round(time.time() - t0, 1), violations=len(fresh))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s %s: %d cases, %d distinct non-trivial, %.0f s" % (prop, tier, merged["evaluations"], len(hashes), ev["wall_s"]))
    if code == 0 and not a.cases and len(hashes) == 0:
        print("check error: no non-trivial case was run", file=sys.stderr)
        return 2
    return code


ASSUME = ["the Go runtime, the loopback network of the kernel, and the reference models and codecs in harness/ (written from the Kafka protocol, sharing no code with the mock)",
          "only the generated cases are covered; seeds are fixed by VERIF_SEED"]


def known(prop):
    """Patterns of listed findings that were not repaired (known_findings.txt)."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out


main()
