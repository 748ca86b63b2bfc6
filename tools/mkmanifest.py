#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table in check.py."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(V, "check.py")).read()
props = eval(re.search(r"^PROPS = (\{.*?^\})", src, re.S | re.M).group(1))
TECH = {
    "C01": "stateful model-based property testing (rapid): random histories over the wire against a reference log",
    "C02": "stateful model-based property testing (rapid): random multi-partition fetches against a reference log",
    "C03": "model-based property testing (rapid) with byte limits drawn around exact record sizes",
    "C04": "property testing (rapid) of timed histories: blocked fetches, late posts, stops while blocked",
    "C05": "property testing (rapid): strict independent parser and differential against kafka-go's verifying client",
    "C06": "model-based property testing (rapid) with adversarial timestamps",
    "C07": "stateful model-based property testing (rapid) against a reference offset map",
    "C08": "stateful model-based property testing (rapid) against a reference store",
    "C09": "stateful model-based property testing (rapid): assignment parsed and compared with a reference store",
    "C10": "metamorphic property testing (rapid): chunked/pipelined sending against one-at-a-time sending",
    "C11": "property testing (rapid) with injected disconnect faults at generated byte positions, bystander oracle",
    "C12": "stateful property testing (rapid) of lifecycle call sequences with concurrent stops",
    "C13": "property testing (rapid) over randomly built types: round trip and differential against a reference encoder",
    "C14": "property testing / structured fuzzing (rapid) of the decoder with prefixes, mutations and arbitrary bytes",
    "C15": "round-trip property testing (rapid) of tagged fields against a reference encoder",
    "C16": "randomised concurrent workloads (rapid) on a race-detector build, with invariants over the history",
    "C17": "property testing (rapid): every listed and unlisted key/version probed at random points of a history",
    "C18": "stateful property testing (rapid) with the real kafka-go consumer against a reference log",
    "C19": "schema-driven generation (rapid) of valid requests, strict response parser",
    "C20": "stateful property testing (rapid) of several mocks in one process against separate reference models",
    "C21": "property testing (rapid) of connect/disconnect histories with socket and goroutine counting",
    "C22": "property testing (rapid) of repeated traffic with the heap in use counted after each repetition",
}
NOTE = {
    "C16": "Exploration of schedules by stress: the race detector reports races on the executions that occurred; interleavings are not enumerated.",
    "C04": "Exploration with real time: lower bounds on waiting are exact (monotonic clock), upper bounds are generous (seconds) or the minimum of several measurements, and must fail twice.",
}
DEFAULT = "Exploration of generated cases with shrinking; nothing is proved outside them. Trusts the reference model/codec in harness/, the Go runtime and loopback TCP."
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in props:
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": "exploration",
                       "level_note": NOTE.get(i, DEFAULT)})
    else:
        na.append({"property": i, "reason": "the check for it is not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks drive the public API and the wire from a child process, and the codec through in-package tests placed by go build's -overlay. The commits in /repo are repairs (fix:), see known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
