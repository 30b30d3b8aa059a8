#!/usr/bin/env python3
"""Are the contracts vacuous anywhere?  (a tool for the author; no check runs it)

In every block of every extracted body, at its start and in front of its last statement, and in every match arm:
`if vx_probe(N) { assert(false) }` with an N of its own.  Verus must refute each one.  A probe that is accepted marks code
that nothing reaches as far as the contracts say: a contradictory precondition, invariant or assumed std contract."""
import json, os, re, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
w = sys.argv[1] if len(sys.argv) > 1 else "/tmp/vx_probes"
os.makedirs(w, exist_ok=True)
subprocess.check_call(["cargo", "build", "--offline", "-q"], cwd=HERE + "/extract")
subprocess.check_call([HERE + "/extract/target/debug/extract", os.environ.get("VERIF_REPO", "/repo") + "/src/lib.rs", HERE + "/contracts", w + "/out.rs", w + "/rep.json", "--external-unknown", "--probes"])
rep = json.load(open(w + "/rep.json"))
src = open(w + "/out.rs").read().split("\n")
hit = set()
for extra in ([], ["--verify-root", "--verify-function", "escape", "--rlimit", "200"]):    # escape: 18 probes in one loop
    p = subprocess.run(["verus", "out.rs", "--num-threads", "8", "--triggers-mode", "silent", "--multiple-errors", "60"] + extra, cwd=w, capture_output=True, text=True)
    for m in re.finditer(r"--> out.rs:(\d+):(\d+)", p.stderr + p.stdout):
        k = re.findall(r"vx_probe\((\d+)\) \{ (?:assert\()?$", src[int(m.group(1)) - 1][:int(m.group(2)) - 1])
        if k:
            hit.add(int(k[-1]))
missing = [x for x in rep["probes"] if x[0] not in hit]
print("%d probes, %d refuted" % (len(rep["probes"]), len(hit)))
for n, key, line in missing:
    print("NOT REFUTED", key, "line", line)
sys.exit(1 if missing else 0)
