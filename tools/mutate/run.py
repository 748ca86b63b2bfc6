#!/usr/bin/env python3
"""run.py MUTANTS.jsonl RESULTS.jsonl WORKERS [--full]: which mutants the checks notice.

Works in copies of /repo and /verif under /tmp/mut, each worker in a network
namespace of its own."""
import json, os, re, shutil, subprocess, sys, threading, queue, time

mutants = [json.loads(l) for l in open(sys.argv[1])]
results, workers = sys.argv[2], int(sys.argv[3])
full = "--full" in sys.argv
done = set()
if os.path.exists(results):
    done = {json.loads(l)["ID"] for l in open(results)}
todo = queue.Queue()
for m in mutants:
    if m["ID"] not in done:
        todo.put(m)

CODEC = ["C13", "C14", "C15"]
PLAN = {  # first the cheap and likely ones
    "codec": [("C13", 600), ("C14", 600), ("C15", 600), ("C19", 60), ("C05", 60), ("C06", 60), ("C18", 2)],
    "rest": [("C19", 60), ("C17", 60), ("C01", 60), ("C02", 60), ("C06", 80), ("C07", 80), ("C08", 80), ("C09", 80),
             ("C10", 12), ("C03", 60), ("C05", 60), ("C20", 40), ("C11", 12), ("C16", 20), ("C21", 5), ("C04", 4), ("C18", 3), ("C12", 3)],
}
FULL = ["C19", "C01", "C02", "C03", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C04", "C12", "C16", "C17", "C18", "C20", "C21", "C13", "C14", "C15"]
lock = threading.Lock()


def setup(i):
    d = "/tmp/mut/w%d" % i
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    os.makedirs(d + "/verif")
    for x in ("check.py", "harness", "corpus", "known_findings.txt"):
        subprocess.check_call(["cp", "-a", "/verif/" + x, d + "/verif/" + x])
    p = d + "/verif/check.py"
    s = open(p).read().replace('REPO = "/repo"', 'REPO = "%s/repo"' % d)
    s = s.replace('"15s" if', '"1s" if').replace("violation_at > 25", "violation_at > 1").replace("12 << 30", "4 << 30")
    open(p, "w").write(s)
    for f in ("/verif/harness/go.mod",):
        s = open(d + f).read().replace("=> /repo", "=> %s/repo" % d)
        open(d + f, "w").write(s)
    return d


def work(i):
    d = setup(i)
    while True:
        try:
            m = todo.get_nowait()
        except queue.Empty:
            break
        path = d + "/repo/" + m["File"]
        src = open("/repo/" + m["File"], "rb").read()
        open(path, "wb").write(src[:m["From"]] + m["Text"].encode() + src[m["To"]:])
        t0 = time.time()
        res = dict(m, verdict="survived")
        env = dict(os.environ, GOFLAGS="-mod=mod", GOTOOLCHAIN="local", GOPROXY="off", CGO_ENABLED="0")
        b = subprocess.run(["go", "build", "-o", "/dev/null", "."], cwd=d + "/repo", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if b.returncode:
            res["verdict"] = "nobuild"
        else:
            plan = [(p, None) for p in FULL] if full else PLAN["codec" if m["File"] in ("decoder.go", "encoder.go") else "rest"]
            for prop, cases in plan:
                cmd = ["unshare", "-Urn", "sh", "-c", "ip link set lo up; exec python3 check.py %s %s" % (
                    prop, "" if cases is None else "--cases %d --shards 2" % cases)]
                try:
                    p = subprocess.run(cmd, cwd=d + "/verif", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
                    rc, out = p.returncode, p.stdout
                except subprocess.TimeoutExpired:
                    rc, out = 99, ""
                    subprocess.run(["pkill", "-f", d + "/verif"])
                if rc:
                    res["verdict"] = "killed" if rc == 1 else "rc%d" % rc
                    res["by"] = prop
                    res["out"] = out[:300] if rc == 1 else out[-600:]
                    break
        res["s"] = round(time.time() - t0, 1)
        open(path, "wb").write(src)
        with lock:
            with open(results, "a") as fh:
                fh.write(json.dumps(res) + "\n")
    shutil.rmtree(d, ignore_errors=True)


ts = [threading.Thread(target=work, args=(i,)) for i in range(workers)]
for t in ts: t.start()
for t in ts: t.join()
