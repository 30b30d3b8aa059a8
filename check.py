#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of /repo's current tree (see DESIGN.md).

1. extract: copy /repo/src/lib.rs mechanically into one Verus file with the contracts of contracts/ spliced in
2. Verus discharges every obligation (all functions, all inputs)
3. Engine B (replay/): a bounded search on the real compiled crate; it turns a failed obligation into a failing
   input, and stands in (labelled bounded) for functions the verifier cannot take in their current form
"""
import fnmatch, glob, json, os, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
WORK = os.path.join(HERE, "work")
EVID = os.path.join(HERE, "evidence")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           RUSTFLAGS="-W pub_use_of_private_extern_crate",
           PATH=os.environ.get("PATH", "") + ":/root/.cargo/bin:/usr/local/cargo/bin")
ENV.pop("CARGO_TARGET_DIR", None)

sys.path.insert(0, HERE)
from props import PROPS, SAFETY_ONLY  # noqa: E402
import kani_run  # noqa: E402


class Internal(Exception):
    pass


def sh(cmd, timeout=None, env=None, cwd=None, mem_gb=None):
    def pre():
        os.setpgid(0, 0)
        if mem_gb:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         env=env or ENV, cwd=cwd or HERE, preexec_fn=pre)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        o, e = p.communicate()
        return None, o, e


# ---------------------------------------------------------------- builds
def build_extract():
    rc, o, e = sh(["cargo", "build", "--offline", "-q"], cwd=os.path.join(HERE, "extract"))
    if rc != 0:
        raise Internal("the extractor does not build:\n" + e[-3000:])
    return os.path.join(HERE, "extract/target/debug/extract")


REPLAY_LEFT_OUT = []    # cases the current tree's macros do not compile with


def build_replay():
    first = ""
    # without the macro cases where the current macros do not take them; the other cases do not depend on macros
    for f in ([], ["--no-default-features", "--features", "macros"], ["--no-default-features"]):
        rc, o, e = sh(["cargo", "build", "--offline", "-q", *f], cwd=os.path.join(HERE, "replay"))
        if rc == 0:
            REPLAY_LEFT_OUT[:] = {0: [], 3: ["macro operands of unusual shape; macro calls by arity"], 1: ["all macro cases"]}[len(f)]
            break
        first = first or e
    if rc != 0:
        raise Internal("Engine B does not build against the current tree:\n" + first[-3000:])
    return os.path.join(HERE, "replay/target/debug/replay")


# ---------------------------------------------------------------- literals of the current source
def literals():
    strs, ints = set(), set()
    for f in [os.path.join(REPO, "src/lib.rs")]:
        t = open(f, encoding="utf-8").read()
        i = t.find("#[cfg(test)]")
        if i > 0:
            t = t[:i]
        t = re.sub(r"//[^\n]*", "", t)
        for m in re.finditer(r'"((?:[^"\\]|\\.)*)"', t):
            s = m.group(1)
            s = re.sub(r"\\u\{([0-9a-fA-F_]+)\}", lambda k: chr(int(k.group(1), 16)), s)
            for a, b in (("\\n", "\n"), ("\\r", "\r"), ("\\t", "\t"), ("\\0", "\0"), ('\\"', '"'), ("\\'", "'"), ("\\\\", "\\")):
                s = s.replace(a, b)
            if len(s) <= 40:
                strs.add(s)
        for m in re.finditer(r"'((?:[^'\\\n]|\\[^\n]|\\u\{[0-9a-fA-F_]+\}|\\x[0-9a-fA-F]{2}))'", t):
            s = m.group(1)
            k = re.match(r"\\u\{([0-9a-fA-F_]+)\}", s) or re.match(r"\\x([0-9a-fA-F]{2})", s)
            if k:
                s = chr(int(k.group(1).replace("_", ""), 16))
            elif s.startswith("\\"):
                s = {"n": "\n", "r": "\r", "t": "\t", "0": "\0"}.get(s[1], s[1])
            strs.add(s)
        for m in re.finditer(r"\b(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:[iu](?:8|16|32|64|128|size))?\b", t):
            try:
                ints.add(int(m.group(1).replace("_", ""), 0 if m.group(1)[:1] == "0" and len(m.group(1)) > 1 and m.group(1)[1].isalpha() else 10))
            except ValueError:
                pass
    return sorted(strs), sorted(i for i in ints if i < 1 << 127)


def write_lits(path):
    strs, ints = literals()
    base = json.load(open(os.path.join(HERE, "base_lits.json")))
    d = {"strs": strs, "ints": [str(i) for i in ints],
         "hot_strs": [s for s in strs if s not in set(base["strs"])],
         "hot_ints": [str(i) for i in ints if i not in set(base["ints"])]}
    json.dump(d, open(path, "w"))


# ---------------------------------------------------------------- the deductive run
SAFETY_MSG = ("overflow", "underflow", "precondition not satisfied", "decreases", "termination", "division by zero", "index out of bounds", "recursion", "arithmetic")


def diag_of(err):
    ds = []
    for l in err.splitlines():
        if l.startswith("{"):
            try:
                ds.append(json.loads(l))
            except ValueError:
                pass
    return ds


class Verus:
    """extraction + verification of the current source; retries with functions marked external when their current
    form is outside the verifier's reach (lost anchors, unsupported constructs)"""

    def __init__(self, extractor, root):
        self.extractor, self.root = extractor, root
        self.external = {}      # key -> reason
        self.failed = {}        # key -> list of (message, detail)
        self.undecided = {}     # key -> reason
        self.lemma_failed = {}  # theory module -> messages: a theorem over the specification that is not proved on this tree
        self.skip = {}          # theory module left out of the text -> reason
        self.verified = 0
        self.smt_ms = 0
        self.rounds = 0
        self.log = ""
        self.rep = None
        self.moved = {}         # macro contracts in which an operand is used twice
        self.whole = None       # reason the verifier cannot run on this tree at all
        self.times = []
        self.cmd = ""
        self.settled = None     # true once a failing input is known

    def extract(self):
        out, rep = os.path.join(self.root, "verified.rs"), os.path.join(self.root, "report.json")
        cmd = [self.extractor, os.path.join(REPO, "src/lib.rs"), os.path.join(HERE, "contracts"), out, rep, "--external-unknown"]
        for k in self.external:
            cmd += ["--external", k]
        for k in self.skip:
            cmd += ["--skip-module", k]
        rc, o, e = sh(cmd, timeout=60)
        if rc != 0:
            self.whole = "extraction failed: " + (e or o)[-500:]
            return None
        self.rep = json.load(open(rep))
        return out

    def at(self, line):
        best = None
        for f in self.rep["functions"]:
            if f["start"] <= line <= f["end"] and (best is None or f["end"] - f["start"] < best["end"] - best["start"]):
                best = f
        return best["key"] if best else None

    def where(self, d):
        """function key an error belongs to: the location where it shows, else where the contract is"""
        def line(s):
            # inside a macro body: the place where the macro is invoked
            while self.at(s["line_start"]) is None and s.get("expansion"):
                s = s["expansion"]["span"]
            return s["line_start"]
        prim = [line(s) for s in d["spans"] if s["is_primary"]]
        sec = [line(s) for s in d["spans"] if not s["is_primary"]]
        for l in sec + prim if "postcondition" in d["message"] else prim + sec:
            k = self.at(l)
            if k:
                return k
        for l in prim + sec:
            for m in self.rep["modules"]:
                if m["start"] <= l <= m["end"]:
                    return "module " + m["file"]
        return None

    def run_verus(self, out, extra=()):
        cmd = ["verus", out, "--num-threads", "8", "--triggers-mode", "silent", "--error-format=json", "--output-json", "--time-expanded", *extra]
        self.cmd = " ".join(["verus", "verified.rs"] + cmd[2:])
        rc, o, e = sh(cmd, timeout=600, cwd=self.root)
        if rc is None:
            return None, [], "timeout"
        try:
            js = json.loads(o[o.index("{"):])
        except ValueError:
            js = None
        return js, diag_of(e), e

    def go(self):
        for rnd in range(24):
            self.rounds = rnd + 1
            out = self.extract()
            if out is None:
                return
            known = {f["key"] for f in self.rep["functions"]}
            new = {}
            for l in self.rep["lost"]:
                k, why = l.split(": ", 1)
                if k in known and k not in self.external:
                    new[k] = "the contract's anchors do not fit the current code: " + why
            if new:
                self.external.update(new)
                continue
            js, ds, raw = self.run_verus(out)
            if raw == "timeout":
                self.whole = "the verifier did not finish"
                return
            errs = [d for d in ds if d["level"] == "error" and not d["message"].startswith("aborting due to")]
            vr = js and js.get("verification-results")
            hard = [d for d in errs if d.get("code") or not vr or vr.get("encountered-vir-error") or not is_proof_error(d["message"])]
            if hard or not vr:
                new = {}
                drop = {self.where(d): d["message"].splitlines()[0] for d in hard}
                if drop and all(k and k.startswith("module ") and k[7:] in THEORY and k[7:] not in self.skip for k in drop):
                    # theorems that use theorems go with them
                    first = min(k[7:] for k in drop)
                    self.skip.update({m: "; ".join(drop.values())[:300] for m in THEORY if m >= first})
                    continue
                for d in hard:
                    k = self.where(d)
                    if k and "!/" in k and (d.get("code") or {}).get("code") == "E0382":
                        # the contract of a macro hands over each operand once: ownership is the obligation
                        self.moved.setdefault(k, []).append(("an operand is used more than once: " + d["message"].splitlines()[0], d.get("rendered") or ""))
                    if k and not k.startswith("module ") and k not in self.external:
                        new[k] = "outside the verifier's reach in its current form: " + d["message"].splitlines()[0]
                        for s in known:
                            # instances of one macro
                            if kani_run.numeric(k) and kani_run.numeric(s) and kani_run.shape(k) == kani_run.shape(s) and s not in self.external:
                                new[s] = new[k]
                if not new:
                    self.whole = "the verifier rejects the extracted text: " + "; ".join(d["message"].splitlines()[0] for d in hard)[:600]
                    self.log = "\n".join(d.get("rendered") or d["message"] for d in hard)[:6000]
                    return
                self.external.update(new)
                continue
            self.collect(js, errs)
            if (self.failed or self.lemma_failed) and not (self.settled and self.settled()):
                self.retry(out)
            self.failed.update(self.moved)
            return
        self.whole = "extraction did not stabilise"

    def collect(self, js, errs):
        vr = js["verification-results"]
        self.verified, self.nerr = vr["verified"], vr["errors"]
        tm = js.get("times-ms", {}).get("verification") or js.get("times-ms", {})
        t = js.get("times-ms", {})
        smt = t.get("smt") or (t.get("verification") or {}).get("smt") or {}
        self.smt_ms = smt.get("smt-run", 0) if isinstance(smt, dict) else 0
        self.breakdown = {}
        for m in (smt.get("smt-run-module-times") or []) if isinstance(smt, dict) else []:
            for f in m.get("function-breakdown", []):
                self.breakdown[f["function"]] = self.breakdown.get(f["function"], 0) + f["time-micros"]
        for d in errs:
            k = self.where(d)
            msg = d["message"].splitlines()[0]
            if k is None or k.startswith("module "):
                # the canary must fail; nothing else outside the functions may
                text = "".join(t["text"] for s in d["spans"] for t in s["text"])
                if "vx_canary" in text:
                    self.canary = True
                    continue
                self.lemma_failed.setdefault((k or "module ?")[7:], []).append(msg)
                continue
            if "rlimit" in msg.lower() or "resource limit" in msg.lower():
                self.undecided[k] = "the solver gave up: " + msg
            else:
                self.failed.setdefault(k, []).append((msg, d.get("rendered") or ""))
        self.log = "\n".join(d.get("rendered") or "" for d in errs)

    def retry(self, out):
        """a proof found with another solver seed is a proof: try the failed functions again"""
        for seed in (7, 23):
            js, ds, raw = self.run_verus(out, ["--rlimit", "40", "--smt-option", "smt.random_seed=%d" % seed])
            if not js:
                return
            bad = {self.where(d) for d in ds if d["level"] == "error" and not d["message"].startswith("aborting")}
            for k in list(self.failed):
                if k not in bad:
                    del self.failed[k]
            for k in list(self.undecided):
                if k not in bad:
                    del self.undecided[k]
            for k in list(self.lemma_failed):
                if k and "module " + k not in bad:
                    del self.lemma_failed[k]
            if not self.failed and not self.lemma_failed:
                return


# theorems over the specification alone, in the order in which they build on each other
THEORY = ["50_path_theory.rs", "60_grammar.rs", "70_roundtrip.rs", "80_conv_theory.rs"]
PROOF_ERRS = ("not satisfied", "assertion failed", "invariant", "overflow", "underflow", "decreases", "recommendation", "termination",
              "resource limit", "rlimit", "division", "possible", "could not prove", "unable to prove", "might", "failed", "out of bounds", "must be")


def is_proof_error(m):
    m = m.lower()
    return any(x in m for x in PROOF_ERRS) and "not supported" not in m and "cannot find" not in m


# ---------------------------------------------------------------- Engine B
def search(binary, prop, secs, root, seed=None):
    lits = os.path.join(root, "lits.json")
    if not os.path.exists(lits):
        write_lits(lits)
    out = os.path.join(root, "case-%s.json" % prop)
    if os.path.exists(out):
        os.remove(out)
    rc, o, e = sh([binary, "search", prop, str(secs), str(SEED if seed is None else seed), lits, out], timeout=secs + 90, mem_gb=24)
    r = {"rc": rc, "count": 0, "exhaustive": 0, "complete": False, "found": None, "case": None, "err": e[-1500:]}
    m = re.search(r"COUNT (\d+) exhaustive (\d+)(?: complete (\w+))?", o)
    if m:
        r["count"], r["exhaustive"], r["complete"] = int(m.group(1)), int(m.group(2)), m.group(3) == "true"
    m = re.search(r"^SAMPLE (.*)$", o, re.M)
    r["samples"] = re.findall(r"^SAMPLE (.*)$", o, re.M)
    m = re.search(r"DISTINCT (\d+)", o)
    r["distinct"] = int(m.group(1)) if m else 0
    m = re.search(r"^FOUND (.*)$", o, re.M)
    if m:
        r["found"], r["case"] = m.group(1), out
    elif rc != 0:
        # the process died (stack overflow, abort, out of memory): find the case with a traced run
        tr = os.path.join(root, "trace-%s.json" % prop)
        rc2, o2, e2 = sh([binary, "search", prop, str(min(secs * 4, 120)), str(SEED if seed is None else seed), lits, out],
                         timeout=200, env=dict(ENV, TRACE=tr), mem_gb=24)
        m = re.search(r"^FOUND (.*)$", o2, re.M)
        if m:
            r["found"], r["case"] = m.group(1), out
        elif rc2 not in (0, 3) and os.path.exists(tr):
            for _ in range(3):
                rc3, _, e3 = sh([binary, "replay", tr], timeout=60, mem_gb=24)
                if rc3 not in (0, 1):
                    r["found"], r["case"] = "the process running this call is killed (%s): %s" % (rc3, e3.strip()[-200:].replace("\n", " ")), tr
                    break
    return r


def confirm(binary, case):
    for _ in range(20):
        rc, o, e = sh([binary, "replay", case], timeout=60, mem_gb=24)
        if rc != 0:
            return True
    return False


# ---------------------------------------------------------------- deciding
def match(pats, keys):
    return [k for k in keys if any(fnmatch.fnmatchcase(k, p) or k == p for p in pats)]


def known_findings(prop):
    p = os.path.join(HERE, "known_findings.txt")
    return [l.strip() for l in open(p)] if os.path.exists(p) else []


def main():
    prop = sys.argv[1]
    cfg = PROPS[prop]
    t0 = time.time()
    root = os.path.join(WORK, prop)
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    os.makedirs(EVID, exist_ok=True)
    replay_out = os.path.join(EVID, prop + ".replay.json")
    if os.path.exists(replay_out):
        os.remove(replay_out)
    box = {}

    def engine_b():
        try:
            box["bin"] = build_replay() if not cfg.get("engine") else None
            if box["bin"]:
                rc, o, e = sh([box["bin"], "stdcheck"], timeout=60)
                if rc != 0:
                    raise Internal("an assumed contract of std is wrong:\n" + o[:2000] + e[-500:])
                box["std"] = {l.split(" ", 1)[1].rsplit(" ", 1)[0]: int(l.rsplit(" ", 1)[1]) for l in o.splitlines() if l.startswith("ASSUMED ")}
            secs = cfg.get("secs", 15) if TIER == "quick" else cfg.get("thorough_secs", 240)
            if cfg.get("engine"):
                box["b"] = cfg["engine"](sys.modules[__name__], root, secs)
            else:
                box["b"] = search(box["bin"], prop, secs, root)
        except Exception as ex:  # noqa
            box["b_err"] = ex

    th = threading.Thread(target=engine_b)
    th.start()
    v = None
    pre = None
    try:
        v = Verus(build_extract(), root)
        v.canary = False
        v.settled = lambda: bool(box.get("b", {}).get("found"))
        v.go()
        if cfg.get("extra"):
            pre = cfg["extra"](sys.modules[__name__], root, v)
    finally:
        th.join()
    if "b_err" in box:
        raise box["b_err"]
    b = box["b"]

    # ---- classify
    lines = []
    keys = [f["key"] for f in v.rep["functions"]] if v.rep else []
    cone = match(cfg["cone"], keys)
    base = {l.split("\t")[0] for l in open(os.path.join(HERE, "contracts/names.txt"))}
    gone = sorted(set(match(cfg["cone"], base)) - set(keys))
    unknown = {f["key"] for f in v.rep["functions"] if f["key"] not in base and not f["contract"]} if v.rep else set()
    failed, standin = {}, dict()
    if v.whole:
        standin = {k: v.whole for k in cone}
    else:
        for k in cone:
            st = next(f for f in v.rep["functions"] if f["key"] == k)
            if k in v.moved:
                failed[k] = v.moved[k]
            elif k in v.external:
                standin[k] = v.external[k]
            elif not st["contract"]:
                standin[k] = "no contract on this function"
            elif k in v.undecided:
                standin[k] = v.undecided[k]
            elif k in v.failed:
                fl = v.failed[k]
                safe = [x for x in fl if any(s in x[0].lower() for s in SAFETY_MSG) or "invariant" in x[0].lower()]
                if prop in SAFETY_ONLY and not safe:
                    continue
                news = sorted(n for n in unknown if calls_name(v.rep["calls"].get(k, []), n))
                if news:
                    standin[k] = "calls code without a contract: " + ", ".join(news)
                elif any(x == k for x, _ in v.rep["expanded"]):
                    standin[k] = "calls code without a contract (expanded here): " + ", ".join(sorted({n for x, n in v.rep["expanded"] if x == k}))
                elif v.rep["bare_closures"].get(k):
                    standin[k] = "has a closure without a contract"
                else:
                    failed[k] = fl
        for k in [k for k in failed if "!/n " in k and k not in v.moved]:
            # the parts of a macro may agree otherwise (the arities decide): not an alarm of its own
            if not any(x.startswith(k[:k.index("/n ")] + "/") and "!/n " not in x for x in failed):
                standin[k] = "this part does not keep the invariant of the contract: " + failed.pop(k)[0][0]
        lost = {m: why for m, why in list(v.lemma_failed.items()) + list(v.skip.items())}
        core = [m for m in lost if m not in THEORY]
        if core:
            raise Internal("lemmas that do not depend on /repo failed: %s\n%s" % (lost, v.log[:3000]))
        mine = sorted({m for m, _, _ in cfg.get("theorems", [])} & set(lost))
        if mine:
            for k in cone:
                if k not in failed:
                    standin.setdefault(k, "the theorems of %s are not proved on this tree: %s" % (", ".join(mine), str(lost[mine[0]])[:200]))
        if not v.canary:
            raise Internal("the canary obligation (false) was accepted: the axioms are inconsistent")
        for k in gone:
            standin[k] = "no longer in the source"
    # numeric conversions: Kani decides them for every input, however the casts are written
    num = [k for k in list(failed) + list(standin) if kani_run.numeric(k) and k in cone]
    if num:
        for k in list(pre["rescued"] if pre and "rescued" in pre else kani_run.rescue(sys.modules[__name__], root, num)):
            failed.pop(k, None)
            standin.pop(k, None)
    if pre and pre.get("failed"):
        failed.update(pre["failed"])
    if pre and pre.get("standin"):
        standin.update(pre["standin"])

    found = b["found"]
    if not found and pre and pre.get("case"):
        cf = os.path.join(root, "kani-case.json")
        json.dump({"property": prop, "case": pre["case"]}, open(cf, "w"))
        rc, o, e = sh([box["bin"], "replay", cf], timeout=60)
        if rc == 1:
            found = o.strip()
            b = dict(b, found=found, case=cf)
    if found and b["case"] and not cfg.get("engine") and not confirm(box["bin"], b["case"]):
        b2 = search(box["bin"], prop, 30, root, seed=SEED + 1)
        if not (b2["found"] and confirm(box["bin"], b2["case"])):
            raise Internal("a failing case does not replay: %s" % found)
        found, b = b2["found"], b2
    if b["rc"] not in (0, 1) and not found:
        raise Internal("Engine B ended with %s: %s" % (b["rc"], b["err"]))
    extra_n = 0
    if (failed or standin_changed(standin)) and not found and not cfg.get("engine"):
        secs = 150 if failed else 60
        for s in range(3):
            b3 = search(box["bin"], prop, secs / 3, root, seed=SEED + 100 + s)
            extra_n += b3["count"]
            if b3["found"] and confirm(box["bin"], b3["case"]):
                found, b = b3["found"], dict(b3, count=b["count"] + extra_n)
                break
    violation = None
    if found:
        d = json.load(open(b["case"]))
        d["what"] = found
        d["how_to_replay"] = cfg.get("how", "cd /verif/replay && cargo run --offline -- replay <this file>")
        if failed:
            d["failed_obligations"] = {k: [m for m, _ in x] for k, x in failed.items()}
        json.dump(d, open(replay_out, "w"), indent=1)
        violation = "VIOLATION property=%s replay=%s" % (prop, replay_out)
    elif failed:
        d = {"property": prop, "failed_obligations": {k: [m for m, _ in x] for k, x in failed.items()},
             "verifier_output": "\n".join(r for x in failed.values() for _, r in x)[:20000], "verifier": v.cmd,
             "searched": "%d cases without a failing input" % (b["count"] + extra_n)}
        json.dump(d, open(replay_out, "w"), indent=1)
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay_out)

    # ---- evidence
    proved = [k for k in cone if k not in standin and k not in failed]
    proven = [] if v.whole or found else [t for t in cfg.get("theorems", []) if t[0] not in v.lemma_failed and t[0] not in v.skip]
    lem = ["%s (%s): %s" % (n, m, what) for m, n, what in proven]
    base_ob = 0 if v.whole else len(cone) - len([k for k in standin if k in cone]) + len(cfg.get("theorems", []))
    pre_ob = (pre or {}).get("obligations", 0)
    pre_di = (pre or {}).get("discharged", 0)
    cov = {
        "obligations": base_ob + pre_ob, "discharged": len(proved) + len(proven) + pre_di,
        "checker_cmd": v.cmd + ((" ; " + pre["cmd"]) if pre and pre.get("cmd") else ""),
        "trusted_base": trusted(v),
        "functions_under_contract": proved,
        "failed_obligations": {k: [m for m, _ in x] for k, x in failed.items()},
        "not_proved_bounded_stand_in": standin,
        "verus_obligation_groups_whole_crate": v.verified,
        "backend": "Verus (Z3)" + (("; " + pre["backend"]) if pre and pre.get("backend") else ""),
        "solver_ms": v.smt_ms, "verus_rounds": v.rounds,
        "text_dropped_by_extraction": v.rep["dropped"] if v.rep else [],
        "rewrites_by_extraction": len(v.rep["rewrites"]) if v.rep else 0,
        "rewrites_sample": (v.rep["rewrites"][:6] if v.rep else []),
        "theorems_over_the_specification": lem,
        "search_cases_left_out": REPLAY_LEFT_OUT,
        "assumed_std_contracts_compared_with_std": {"label": "bounded, discharges nothing", "arguments": box.get("std", {})},
        "bounded_search": {"label": "bounded, not counted as proved", "evaluations": b["count"] + extra_n, "enumerated": b["exhaustive"],
                           "enumeration_complete": b["complete"], "bound": cfg.get("bound", ""), "samples": b.get("samples", [])},
        "evaluations": b["count"] + extra_n,
    }
    if pre and pre.get("coverage"):
        cov.update(pre["coverage"])
    if cfg["level"] == "translation_validation":
        cov["disagreements_checked"], cov["samples"] = b["count"], b.get("samples", [])
    json.dump({"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": cfg["level"], "coverage": cov,
               "assumptions": cfg.get("assumptions", []) + ASSUME, "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0},
              open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    print("%s: %d of %d functions in the cone discharged by Verus (%d obligation groups in the crate, %d ms solver), %d cases on the real crate, %.0f s"
          % (prop, len(proved), len(cone), v.verified, v.smt_ms, b["count"] + extra_n, time.time() - t0))
    why = {}
    for k, w in standin.items():
        why.setdefault(w, []).append(k)
    for w, ks in why.items():
        print("  bounded stand-in: %s%s: %s" % (", ".join(ks[:5]), " and %d more" % (len(ks) - 5) if len(ks) > 5 else "", w))
    for k, x in list(failed.items())[:8]:
        for m, _ in x[:4]:
            print("  failed obligation: %s: %s" % (k, m[:300]))
    if len(failed) > 8:
        print("  and %d more" % (len(failed) - 8))
    if found:
        print("  failing input: %s" % found)
    shutil.rmtree(root, ignore_errors=True)
    if violation:
        print(violation)
        return 1
    return 0


def calls_name(calls, key):
    short = key.split("::")[-1]
    return any(c == key or c == short or c in ("." + short, "Self::" + short) for c in calls)


def standin_changed(standin):
    return any(not w.startswith("no contract") for w in standin.values())


ASSUME = [
    "usize is 64 bits; strings and vectors are shorter than isize::MAX",
    "the specifications of std items in contracts/10_std.rs (String, str, char, Vec, LinkedList, HashMap, f64) hold",
]


def trusted(v):
    base = ["Verus, Z3, rustc", "extract/ (mechanical copy with the closed list of rewrites reported above)"]
    t = open(os.path.join(HERE, "contracts/10_std.rs"), encoding="utf-8").read()
    names = re.findall(r"assume_specification\s*(?:<[^\[]*>)?\s*\[\s*([^\]]+?)\s*\]", t)
    # 11_std_more.rs: functions the source the contracts were written for does not call; trusted only where one is called
    called = {c for cs in v.rep["calls"].values() for c in cs}
    more = open(os.path.join(HERE, "contracts/11_std_more.rs"), encoding="utf-8").read()
    for n in re.findall(r"assume_specification\s*(?:<[^\[]*>)?\s*\[\s*([^\]]+?)\s*\]", more):
        short = n.split("::")[-1]
        if any(c == "." + short or c.split("::")[-1] == short for c in called):
            names.append(n)
    for f in sorted(glob.glob(os.path.join(HERE, "contracts/*.rs"))):
        if not f.endswith(("10_std.rs", "11_std_more.rs")):
            t += open(f, encoding="utf-8").read()
    ext = re.findall(r"external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(?:broadcast\s+)?(?:exec\s+|proof\s+)?(?:fn|struct)\s+(\w+)", t)
    ax = re.findall(r"axiom fn (\w+)", t)
    return base + ["assumed std contract: " + " ".join(n.split()) for n in names] + [("assumed axiom: " if e.startswith("axiom") else "assumed wrapper or type: ") + e for e in ext] + ["axiom: " + a for a in ax]


if __name__ == "__main__":
    try:
        rc = main()
    except Internal as ex:
        print("ERROR: %s" % ex)
        rc = 2
    sys.exit(rc)
