"""C15, C16: the derived encoders and decoders.

Translation validation: for every definition of derive/gen.py the derive of the current tree generates its code; Verus
proves that code against the contract of that definition (every field value, every JSON value); the compiler decides
that it compiles; a bounded run compares it with expected values."""
import json, os, re, shutil, sys, threading

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "derive"))
import gen  # noqa: E402

QUICK, THOROUGH = 60, 500
HEAD = """mod %s {
use super::*; use super::vx_derived::*; use crate as json;
use crate::vx_std::*; use crate::vx_spec::*; use crate::vx_lemmas::*;
use vstd::prelude::*;
verus!{
broadcast use {vstd::std_specs::control_flow::spec_from_blanket_identity, group_vx_std, group_vx, group_vx_path, vstd::std_specs::hash::group_hash_axioms};
%s
}
}
"""
WHICH = {"C15": "enc", "C16": "dec"}


def defs(m):
    ds = gen.definitions(QUICK if m.TIER == "quick" else THOROUGH, m.SEED)
    return ds


def cargo(m, d, cmd, timeout=700):
    return m.sh(["cargo", cmd, "--offline", "-q", "--message-format=json"], cwd=d, timeout=timeout,
                env=dict(m.ENV, CARGO_TARGET_DIR=os.path.join(m.HERE, "derive/target")))


def write(p, t):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "w", encoding="utf-8").write(t)


def errors(out):
    """{file stem: first error message} of a cargo run; None: an error that belongs to no definition"""
    r = {}
    for l in out.splitlines():
        if not l.startswith("{"):
            continue
        j = json.loads(l).get("message")
        if not isinstance(j, dict) or j.get("level") != "error" or j["message"].startswith(("aborting due", "could not compile")):
            continue
        for s in j["spans"] + [x for c in j.get("children", []) for x in c["spans"]]:
            while s.get("expansion") and not re.search(r"src/[ce]?d\d+\.rs$", s["file_name"]):
                s = s["expansion"]["span"]
            k = re.search(r"src/([ce]?d\d+)\.rs$", s["file_name"])
            if k:
                r.setdefault(k.group(1), j["message"].splitlines()[0] + " " + "; ".join(c["message"].splitlines()[0] for c in j.get("children", [])[:2]))
                break
        else:
            r.setdefault(None, j.get("rendered") or j["message"])
    return r


def sources(m, enc=True, dec=True):
    """{module: (definition text, module text, has a test)}"""
    r = {}
    for i, d in enumerate(defs(m)):
        e, c = d.enc, d.dec
        d.enc, d.dec = e and enc, c and dec
        r["d%d" % i] = (d.rust(), d.rust() + "\n" + d.test() + "\n", True)
        d.enc, d.dec = e, c
    dv = [x for x, y in (("json::JsonEncode", enc), ("json::JsonDecode", dec)) if y]
    for i, t in enumerate(gen.COMPILE + gen.COMPILE_ENC):
        v = dv if i < len(gen.COMPILE) else [x for x in dv if x.endswith("Encode")]
        a = "#[derive(%s)]" % ", ".join(v)
        t = t.replace("DERIVE", a) if "DERIVE" in t else a + " " + t
        d, s, w = gen.general(t)
        f = ""
        if any(x.endswith("Encode") for x in v):
            f += "fn vx_enc%s(x: &%s) -> json::Json %s { json::ToJson::to_json(x) }\n" % (d, s, w)
        if any(x.endswith("Decode") for x in v):
            f += "fn vx_dec%s(x: &json::Json) -> std::result::Result<%s, json::Error> %s { json::FromJson::from_json(x) }\n" % (d, s, w)
        r["cd%d" % i] = (t, t + "\n" + f, False)
    return r


def project(root, name, src, prelude=gen.PRELUDE):
    d = os.path.join(root, name)
    shutil.rmtree(d, ignore_errors=True)
    write(d + "/Cargo.toml", '[package]\nname = "vx_derived"\nversion = "0.1.0"\nedition = "2018"\n[workspace]\n[dependencies]\njson = { path = "%s" }\nvx_helper = { path = "../vx_helper" }\n[profile.dev]\ndebug = 0\nincremental = false\n' % os.environ.get("VERIF_REPO", "/repo"))
    # another derive, with attributes of its own
    write(os.path.join(root, "vx_helper/Cargo.toml"), '[package]\nname = "vx_helper"\nversion = "0.1.0"\nedition = "2018"\n[lib]\nproc-macro = true\n[workspace]\n')
    write(os.path.join(root, "vx_helper/src/lib.rs"), "extern crate proc_macro;\n#[proc_macro_derive(Helper, attributes(helper, serde))]\npub fn helper(_: proc_macro::TokenStream) -> proc_macro::TokenStream { proc_macro::TokenStream::new() }\n")
    for k, (_, t, _) in src.items():
        write("%s/src/%s.rs" % (d, k), "use super::*;\n" + t)
    main = prelude + "".join("mod %s;\n" % k for k in src)
    main += "fn main() {\n let mut n = 0; let mut bad = 0;\n"
    for k, (_, _, has) in src.items():
        if has:
            i = int(k[1:])
            main += " { let mut t = T_ { i: %d, n: 0, bad: 0 }; if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| %s::run(&mut t))).is_err() { println!(\"FAIL %d both the derived code panics\"); bad += 1; } n += t.n; bad += t.bad; }\n" % (i, k, i)
    write(d + "/src/main.rs", main + " println!(\"COUNT {} {}\", n, bad);\n}\n")
    return d


def bad_modules(m, root, name, src):
    """({module: message}, project) of the definitions that do not compile, removing them one round after the other"""
    bad, src, prelude = {}, dict(src), gen.PRELUDE
    for _ in range(8):
        d = project(root, name, src, prelude)
        rc, o, e = cargo(m, d, "build")
        if rc == 0:
            return bad, d, src, prelude
        er = errors(o)
        own = {k: t for k, t in er.items() if k in src}
        if None in er and prelude != gen.PLAIN:
            prelude = gen.PLAIN
            continue
        if not own:
            raise m.Internal("the corpus of struct definitions does not build against the current tree:\n" + (str(er.get(None) or "") + e)[-2500:])
        bad.update(own)
        src = {k: s for k, s in src.items() if k not in own}
    raise m.Internal("the corpus of struct definitions does not settle: %s" % bad)


def engine(prop):
    def run(m, root, secs):
        own = WHICH[prop]
        src = sources(m)
        bad, d, good, prelude = bad_modules(m, root, "exec", src)
        r = {"rc": 0, "count": 0, "exhaustive": len(src), "complete": False, "found": None, "case": None, "err": "", "samples": [src["d%d" % i][0] for i in (0, len(src) // 2)]}
        if bad:
            one = {k: bad_modules(m, root, "exec1", {j: s for j, s in sources(m, k == "enc", k == "dec").items() if j in bad})[0] for k in ("enc", "dec")}
            none = bad_modules(m, root, "exec1", {j: (s[0], re.sub(r"(?m)^#\[key = .*\]$", "", re.sub(r"#\[derive\(json::[^)]*\)\]", "#[derive(vx_helper::Helper)]" if "#[helper" in s[0] or "#[serde" in s[0] else "", s[0])), False) for j, s in src.items() if j in bad})[0]
            if len(none) > len(src) // 4:
                raise m.Internal("definitions that do not compile even without a derive: %s" % {k: src[k][0] + " // " + t for k, t in none.items()})
            bad = {k: t for k, t in bad.items() if k not in none}   # no Rust program, whatever the derive does
            mine = {k: t for k, t in bad.items() if k in one[own] or k not in one["enc"] and k not in one["dec"]}
            if mine:
                k = sorted(mine, key=lambda k: len(src[k][0]))[0]
                return fail(r, prop, root, src[k][0], "%d of %d definitions no longer compile; this one: %s" % (len(mine), len(src), mine[k]))
            cargo(m, project(root, "exec", good, prelude), "build")   # the builds above replaced the program
        rc, o, e = m.sh([os.path.join(m.HERE, "derive/target/debug/vx_derived")], timeout=120)
        c = re.search(r"^COUNT (\d+) (\d+)$", o, re.M)
        if not c:
            return fail(r, prop, root, "", "the run of the derived code ended with %s: %s" % (rc, (e or o)[-400:]))
        r["count"] = int(c.group(1)) + len(src)
        want = {"C15": "JsonEncode", "C16": "JsonDecode"}[prop]
        fl = [x for x in re.findall(r"^FAIL (\d+) (\w+) (.*)$", o, re.M) if x[1] in (want, "both")]
        if fl:
            i, _, t = min(fl, key=lambda x: len(src["d" + x[0]][0]))
            return fail(r, prop, root, src["d" + i][1], t)
        return r
    return run


def fail(r, prop, root, definition, what):
    r["found"], r["case"] = what, os.path.join(root, "derive-case.json")
    json.dump({"property": prop, "definition": definition}, open(r["case"], "w"))
    return r


# ---------------------------------------------------------------- the generated code under contract
def texts(m, root):
    """{i: (encoder text or None, decoder text or None)} as the derives of the current tree generate them"""
    repo = os.environ.get("VERIF_REPO", "/repo")
    vxd = os.path.join(root, "vxd")
    shutil.rmtree(vxd, ignore_errors=True)
    shutil.copytree(os.path.join(repo, "json_derive/src"), vxd + "/src")
    toml = open(os.path.join(repo, "json_derive/Cargo.toml")).read()
    toml = re.sub(r'(path\s*=\s*")(\.{1,2}/[^"]*|[a-z][^"/]*)(")', lambda k: k.group(0) if k.group(2).startswith("src") else k.group(1) + os.path.normpath(os.path.join(repo, "json_derive", k.group(2))) + k.group(3), toml)
    toml = re.sub(r'(?m)^name\s*=.*$', 'name = "vxd"', toml, count=1)
    write(vxd + "/Cargo.toml", toml + "\n[workspace]\n")
    lib = open(vxd + "/src/lib.rs", encoding="utf-8").read()
    fns = {}
    for k in ("JsonEncode", "JsonDecode"):
        j = re.search(r"#\[proc_macro_derive\(\s*%s\b" % k, lib)
        fns[k] = re.search(r"\bfn\s+(\w+)", lib[j.start():]).group(1) if j else None
    if None in fns.values():
        return None
    write(vxd + "/src/lib.rs", lib + """
fn vx_text(f: fn(proc_macro::TokenStream) -> proc_macro::TokenStream, item: proc_macro::TokenStream) -> String {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(item).to_string())) {
        Ok(t) => format!("Ok({:?})", t),
        Err(_) => "Err(\\"panic\\")".to_string(),
    }
}
#[proc_macro]
pub fn vx_texts(item: proc_macro::TokenStream) -> proc_macro::TokenStream {
    std::panic::set_hook(Box::new(|_| ()));
    format!("({}, {})", vx_text(%s, item.clone()), vx_text(%s, item)).parse().unwrap()
}
""" % (fns["JsonEncode"], fns["JsonDecode"]))
    d = os.path.join(root, "texts")
    shutil.rmtree(d, ignore_errors=True)
    write(d + "/Cargo.toml", '[package]\nname = "vx_texts"\nversion = "0.1.0"\nedition = "2018"\n[workspace]\n[dependencies]\nvxd = { path = "../vxd" }\n[profile.dev]\ndebug = 0\nincremental = false\n')
    ds = defs(m)
    main = "fn p(i: usize, x: (Result<&str, &str>, Result<&str, &str>)) { println!(\"T {} {:?} {:?}\", i, x.0, x.1); }\nfn main() {\n"
    for i, x in enumerate(ds):
        main += "p(%d, vxd::vx_texts!{ %s });\n" % (i, x.rust(derives=False))
    write(d + "/src/main.rs", main + "}\n")
    rc, o, e = cargo(m, d, "build")
    if rc != 0:
        return None
    rc, o, e = m.sh([os.path.join(m.HERE, "derive/target/debug/vx_texts")], timeout=60)
    r = {}
    for l in o.splitlines():
        k = re.match(r'T (\d+) (Ok|Err)\("((?:[^"\\]|\\.)*)"\) (Ok|Err)\("((?:[^"\\]|\\.)*)"\)$', l)
        if k:
            x = ds[int(k.group(1))]
            r[int(k.group(1))] = (unescape(k.group(3)) if k.group(2) == "Ok" and x.enc else None, unescape(k.group(5)) if k.group(4) == "Ok" and x.dec else None)
    return r if len(r) == len(ds) else None


def unproved_form(t, unknown):
    """why a failed proof of this generated code says nothing: it has parts that only a contract of their own could describe"""
    if re.search(r"\b(while|loop)\b|\bfor\b[^<{};]*?\bin\b", t):
        return "the generated code has a loop"
    if len(re.findall(r"\bfn\s+\w", t)) > len(re.findall(r"\bfn\s+(?:to_json|from_json)\b", t)):
        return "the generated code has functions of its own"
    if re.search(r"[(,=]\s*(?:move\s*)?\|", t):
        return "the generated code has closures"
    called = set(re.findall(r"\b(\w+)\s*(?:::\s*<[^()]*>\s*)?\(", t)) & unknown
    return "calls code without a contract: " + ", ".join(sorted(called)) if called else None


def unescape(s):
    def f(k):
        c = k.group(1)
        if c.startswith("u{"):
            return chr(int(c[2:-1], 16))
        return {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(c, c)
    return re.sub(r"\\(u\{[0-9a-fA-F]+\}|.)", f, s)


def extra(prop):
    def run(m, root, v):
        out = {"failed": {}, "standin": {}, "obligations": 0, "discharged": 0, "backend": "Verus (Z3), one module per definition", "coverage": {}}
        if v.whole:
            out["standin"]["derived code"] = v.whole
            return out
        ts = texts(m, root)
        if ts is None:
            out["standin"]["derived code"] = "the generated code cannot be looked at: json_derive does not build in this form"
            return out
        ds = defs(m)
        base = open(os.path.join(root, "verified.rs"), encoding="utf-8").read()
        cut = base.rindex("fn main()")
        base, tail = base[:cut], base[cut:]
        mods, skip, nv = {}, {}, []
        own = WHICH[prop]
        for i, d in enumerate(ds):
            te, td = ts[i]
            t = te if own == "enc" else td
            if not (d.enc if own == "enc" else d.dec):
                continue
            if d.nv:
                nv.append(i)
                continue
            if t is None:
                skip[i] = "the derive does not accept it"
                continue
            try:
                both = own == "dec" and te is not None
                mods[i] = d.plain() + "\n" + d.lits() + "\n" + d.contract(te if own == "enc" or both else None, td if own == "dec" else None)
            except (AttributeError, ValueError) as ex:
                skip[i] = "the generated code has no recognisable %s: %s" % ("to_json" if own == "enc" else "from_json", ex)
        failed, seen = {}, {}
        for rnd in range(12):
            can = next((i for i in mods if ds[i].label == "as in the readme"), min(mods, default=None))
            if can is None:
                out["standin"]["derived code"] = "no definition is within the verifier's reach: " + "; ".join(sorted(set(skip.values())))[:500]
                return out
            d = ds[can]
            canary = d.plain() + "\n" + d.lits() + "\n" + d.contract(ts[can][0] if own == "enc" else None, ts[can][1] if own == "dec" else None, wrong=True)
            text, lines = base + gen.VPRELUDE + "}\nuse vx_derived::W;\n", []
            for k, t in list((("d%d" % i, t) for i, t in mods.items())) + [("vx_wrong", canary)]:
                a = text.count("\n") + 1
                text += HEAD % (k, t)
                lines.append((a, text.count("\n"), k))
            f = os.path.join(root, "derived.rs")
            write(f, text + tail)
            names = [k for _, _, k in lines] + ["vx_derived"]
            cmd = ["verus", f, "--num-threads", "8", "--triggers-mode", "silent", "--error-format=json", "--output-json", "--time-expanded", "--verify-only-module", names[0]]
            cmd += [x for k in names[1:] for x in ("--verify-module", k)]
            rc, o, e = m.sh(cmd, timeout=780 if m.TIER == "quick" else 3600, cwd=root)
            out["cmd"] = "verus derived.rs --verify-module <one per definition>"
            if rc is None:
                out["standin"]["derived code"] = "the verifier did not finish"
                return out
            try:
                js = json.loads(o[o.index("{"):])
            except ValueError:
                js = None

            def where(dg):
                for pr in (True, False):
                    for s in dg["spans"]:
                        if s["is_primary"] == pr:
                            while s.get("expansion") and not any(a <= s["line_start"] <= b for a, b, _ in lines):
                                s = s["expansion"]["span"]
                            for a, b, k in lines:
                                if s["file_name"].endswith("derived.rs") and a <= s["line_start"] <= b:
                                    return k
                return None
            errs = [x for x in m.diag_of(e) if x["level"] == "error" and not x["message"].startswith("aborting due to")]
            vr = js and js.get("verification-results")
            hard = [x for x in errs if x.get("code") or not vr or vr.get("encountered-vir-error") or not m.is_proof_error(x["message"])]
            if hard or not vr:
                new = {where(x): x["message"].splitlines()[0] for x in hard}
                gone = [k for k in new if k and k != "vx_wrong"]
                if not gone and "vx_wrong" in new:
                    gone = ["d%d" % can]
                    new[gone[0]] = new["vx_wrong"]
                if not gone:
                    raise m.Internal("the verifier rejects the modules around the derived code: " + "\n".join(x.get("rendered") or x["message"] for x in hard)[:2500])
                for w in set(new.values()):
                    seen[w] = seen.get(w, 0) + 1
                    if seen[w] >= 3:
                        out["standin"]["derived code"] = "outside the verifier's reach in its current form: " + w
                        return out
                for k in gone:
                    skip[int(k[1:])] = "outside the verifier's reach: " + new[k]
                    del mods[int(k[1:])]
                continue
            failed, caught = {}, False
            for x in errs:
                k = where(x)
                if k == "vx_wrong":
                    caught = True
                elif k is None:
                    raise m.Internal("an obligation outside the derived code failed: " + (x.get("rendered") or x["message"])[:2000])
                else:
                    failed.setdefault(int(k[1:]), []).append((x["message"].splitlines()[0], x.get("rendered") or ""))
            if not caught and vr.get("encountered-error") and not vr.get("verified"):
                out["standin"]["derived code"] = "the verifier stopped without an answer"
                return out
            if not caught:
                raise m.Internal("the contract with the wrong key was accepted: the contracts say nothing")
            break
        else:
            out["standin"]["derived code"] = "the definitions do not settle"
            return out
        if failed:
            # a proof found with another seed is a proof
            for seed in (7, 23):
                ks = ["d%d" % i for i in failed]
                cmd2 = cmd[:cmd.index("--verify-only-module")] + ["--rlimit", "60", "--smt-option", "smt.random_seed=%d" % seed, "--verify-only-module", ks[0]] + [x for k in ks[1:] for x in ("--verify-module", k)]
                rc, o, e = m.sh(cmd2, timeout=200, cwd=root)
                if rc is None or '"verification-results"' not in o:
                    break
                bad = {where(x) for x in m.diag_of(e) if x["level"] == "error"}
                failed = {i: x for i, x in failed.items() if "d%d" % i in bad}
                if not failed:
                    break
        unk = {f["key"].split("::")[-1] for f in v.rep["functions"] if not f["contract"]}
        for i in list(failed):
            t = " ".join(x for x in ts[i] if x)
            why = unproved_form(t, unk)
            if why:
                skip[i] = why
                del failed[i]
                del mods[i]
        gaveup = {i: x for i, x in failed.items() if all("rlimit" in a.lower() or "resource limit" in a.lower() for a, _ in x)}
        for i in gaveup:
            skip[i] = "the solver gave up"
        out["obligations"], out["discharged"] = len(mods) - len(gaveup), len(mods) - len(failed)
        for i, x in failed.items():
            if i in gaveup:
                continue
            out["failed"]["derived code of definition %d" % i] = [("%s, in the code generated for: %s" % (x[0][0], ds[i].rust().replace("\n", " ")), x[0][1])]
        for i, w in skip.items():
            out["standin"]["definition %d" % i] = w
        out["coverage"] = {"programs": len(ds) + len(gen.COMPILE) + len(gen.COMPILE_ENC), "programs_proved_for_all_values": len(mods) - len(failed), "programs_only_compiled_and_run": len(skip) + len(nv),
                           "why_only_run": "trait objects, function pointers, projections and array defaults in a field type are outside the verifier's reach", "programs_only_compiled": len(gen.COMPILE) + len(gen.COMPILE_ENC)}
        return out
    return run
