"""C13: the numeric conversions of the real crate, decided by Kani for every input (kani/src/lib.rs)."""
import json, os, re

TYPES = "u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64".split()
KINDS = ("enc", "dec", "rt", "other")


def harnesses():
    return [k + "_" + t for t in TYPES for k in KINDS if not (t == "f64" and k == "rt")]


def keys_of(h):
    k, t = h.split("_")
    return {"enc": ["<%s as ToJson>::to_json" % t, "<&%s as ToJson>::to_json" % t], "dec": ["<%s as FromJson>::from_json" % t],
            "rt": ["<%s as FromJson>::from_json" % t, "<%s as ToJson>::to_json" % t], "other": ["<%s as FromJson>::from_json" % t]}[k]


def env(m):
    e = dict(m.ENV, RUSTC_WRAPPER=os.path.join(m.HERE, "kani/rustc-wrap.sh"))
    e.pop("RUSTFLAGS", None)
    return e


CMD = ["cargo", "kani", "-Z", "stubbing", "-Z", "unstable-options", "--harness-timeout", "100s"]


def build(m):
    return m.sh(CMD + ["--only-codegen"], cwd=os.path.join(m.HERE, "kani"), env=env(m), timeout=600)


def case(h, text):
    """the replay case of the counterexample printed by concrete playback"""
    k, t = h.split("_")
    if k == "other":
        return ["num", t, "-|%016x" % 0]
    b = re.search(r"vec!\[([0-9, ]+)\],\s*\n", text)
    if not b:
        return None
    v = int.from_bytes(bytes(int(x) for x in b.group(1).split(",")), "little")
    if k == "dec" or t[0] == "f":
        return ["num", t, "-|%016x" % v]
    if t[0] == "i":
        bits = 64 if t == "isize" else int(t[1:])
        v = v - (1 << bits) if v >= 1 << (bits - 1) else v
    return ["num", t, "%d|%016x" % (v, 0)]


def run(m, root, hs=None, replay=None):
    """dict: failed {harness: text}, undecided {harness: why}, passed [harness], case"""
    hs = hs or harnesses()
    d = os.path.join(m.HERE, "kani")
    sel = [] if len(hs) == len(harnesses()) else [x for h in hs for x in ("--exact", "--harness", h)][0:0] + [x for h in hs for x in ("--harness", h)] + ["--exact"]
    cmd = CMD + ["-j", "8", "--output-format", "terse"] + sel
    rc, o, e = m.sh(cmd, cwd=d, env=env(m), timeout=800, mem_gb=None)
    r = {"failed": {}, "undecided": {}, "passed": [], "case": None, "cmd": " ".join(cmd), "smt_s": round(sum(float(x) for x in re.findall(r"Verification Time: ([0-9.]+)s", o)), 1)}
    if rc is None or "Complete - " not in o:
        r["undecided"] = {h: "Kani did not run: " + (e or "timeout").strip()[-300:].replace("\n", " ") for h in hs}
        return r
    bad = set(re.findall(r"Verification failed for - (?:\w+::)*(\w+)", o))
    r["passed"] = [h for h in hs if h not in bad]
    m2 = re.search(r"Complete - (\d+) successfully verified harnesses, (\d+) failures", o)
    if int(m2.group(1)) != len(r["passed"]):
        r["undecided"] = {h: "Kani did not report every harness" for h in hs}
        r["passed"] = []
        return r
    for i, h in enumerate(sorted(bad)):
        if i >= 4 and r["case"]:
            r["failed"][h] = "failed"
            continue
        rc, o, e = m.sh(CMD + ["-Z", "concrete-playback", "--concrete-playback=print", "--exact", "--harness", h], cwd=d, env=env(m), timeout=300)
        fl = re.findall(r"Failed Checks: (.*)", o or "")
        if rc is None or not fl or all(re.search("unwinding|not currently supported|unsupported|recursion", x) for x in fl):
            r["undecided"][h] = "Kani cannot decide it: " + ("; ".join(fl) or "timeout")
            continue
        r["failed"][h] = "; ".join(fl)
        if not r["case"]:
            r["case"] = case(h, o)
    return r


def extra(m, root, v):
    r = run(m, root)
    out = {"failed": {}, "standin": {}, "obligations": len(harnesses()), "discharged": len(r["passed"]), "cmd": "(cd kani; RUSTC_WRAPPER=./rustc-wrap.sh %s)" % r["cmd"],
           "backend": "Kani 0.68 (CBMC)", "coverage": {"kani_harnesses": len(harnesses()), "kani_discharged": r["passed"], "kani_solver_s": r["smt_s"], "kani_bound": "none: the functions have no loops"}}
    for h, t in r["failed"].items():
        out["failed"]["Kani " + h] = [("contract of %s: %s" % (", ".join(keys_of(h)), t), t)]
    for h, t in r["undecided"].items():
        out["standin"]["Kani " + h] = t
    ok = set(r["passed"])
    out["rescued"] = {"<%s as FromJson>::from_json" % t for t in TYPES if {"dec_" + t, "other_" + t} <= ok} | {p % t for t in TYPES if "enc_" + t in ok for p in ("<%s as ToJson>::to_json", "<&%s as ToJson>::to_json")}
    out["case"] = r["case"]
    return out


def rescue(m, root, keys):
    """which of these numeric functions Kani proves even though the Verus proof does not go through"""
    ts = {re.match(r"<&?(\w+) as", k).group(1) for k in keys}
    hs = [h for h in harnesses() if h.split("_")[1] in ts and not h.startswith("rt")]
    r = run(m, root, hs)
    ok = set(r["passed"])
    return {k for k in keys for t in [re.match(r"<&?(\w+) as", k).group(1)] if (("enc_" + t in ok) if "ToJson" in k else {"dec_" + t, "other_" + t} <= ok)}


def numeric(k):
    return re.match(r"<&?(%s) as (ToJson|FromJson)>::" % "|".join(TYPES), k) is not None


def shape(k):
    return k[1] == "&", "ToJson" in k, k.split("<")[1].split(" ")[0].lstrip("&")[0] == "f"
