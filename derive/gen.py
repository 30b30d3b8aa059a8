"""Struct definitions for C15/C16: a fixed list covering every feature the derives support, plus random combinations.

For each definition: the Rust text with the derives, a test of the derived code on sample values (bounded), and the
contract of the derived functions for every field value (Verus)."""
import random, re


class Ty:
    def __init__(s, rust, vals=(), default=None, bad=None, enc=True, dec=True, nv=False, need="", cmp="{a} == {b}"):
        s.rust, s.vals, s.default, s.bad, s.enc, s.dec, s.nv, s.need, s.cmp = rust, list(vals), default, bad, enc, dec, nv, need, cmp


CE = "ConvertError"
I32 = [("-5", "n(-5.0)"), ("0", "n(0.0)"), ("2147483647", "n(2147483647.0)")]
STR = [('"a\\"b".to_string()', 's("a\\"b")'), ("String::new()", 's("")'), ('"\\u{1F600}".to_string()', 's("\\u{1F600}")')]
T_ = {}


def ty(name, *a, **k):
    T_[name] = Ty(name, *a, **k)


ty("i32", I32, "0", ("s(\"x\")", CE))
ty("u8", [("200", "n(200.0)"), ("0", "n(0.0)")], "0", ("null()", CE))
ty("f64", [("1.5", "n(1.5)"), ("-0.25", "n(-0.25)")], "0.0", ("b(true)", CE))
ty("usize", [("3", "n(3.0)")], "0", ("a(vec![])", CE))
ty("bool", [("true", "b(true)"), ("false", "b(false)")], "false", ("n(1.0)", CE))
ty("String", STR, "String::new()", ("n(1.0)", CE))
ty("::std::string::String", STR, "String::new()", ("n(1.0)", CE))
ty("std::vec::Vec<i32>", [("vec![1, 2]", "a(vec![n(1.0), n(2.0)])"), ("vec![]", "a(vec![])")], "vec![]", ("o(vec![])", CE))
ty("Vec<Vec<u8>>", [("vec![vec![1], vec![]]", "a(vec![a(vec![n(1.0)]), a(vec![])])")], "Vec::<Vec<u8>>::new()", ("a(vec![null()])", CE))
ty("Option<i32>", [("Some(4)", "n(4.0)"), ("None", "null()")], "None", ("s(\"\")", CE))
ty("Option<Vec<String>>", [("Some(vec![\"x\".to_string()])", "a(vec![s(\"x\")])"), ("None", "null()")], "None", ("n(0.0)", CE))
ty("std::collections::HashMap<String, i32>", [("vec![(\"k\".to_string(), 1)].into_iter().collect()", "o(vec![(\"k\", n(1.0))])")],
   "std::collections::HashMap::new()", ("a(vec![])", CE))
ty("Vec<(String, bool)>", [("vec![(\"k\".to_string(), true)]", "o(vec![(\"k\", b(true))])"), ("vec![]", "o(vec![])")], "vec![]", ("n(1.0)", CE))
ty("json::Json", [("n(3.0)", "n(3.0)"), ("o(vec![(\"q\", null())])", "o(vec![(\"q\", null())])")], None, None)
ty("Mine", [("Mine(5)", "a(vec![n(5.0)])"), ("Mine(-1)", "a(vec![n(-1.0)])")], "Mine(77)", ("n(5.0)", "IndexOutOfRange"))
ty("Option<Mine>", [("Some(Mine(5))", "a(vec![n(5.0)])"), ("None", "null()")], "None", ("n(5.0)", "IndexOutOfRange"))
ty("Vec<Mine>", [("vec![Mine(1), Mine(2)]", "a(vec![a(vec![n(1.0)]), a(vec![n(2.0)])])")], "vec![]", ("a(vec![a(vec![n(1.0)]), null()])", "IndexOutOfRange"))
ty("super::W<super::W<i32>>", [("super::W(super::W(9))", "n(9.0)")], "super::W(super::W(0))", ("null()", CE))
ty("&'static Mine", [("&Mine(5)", "n(5.0)"), ("&Mine(6)", "n(6.0)")], None, ("s(\"\")", "IndexOutOfRange"), nv=True)
ty("Option<&'static Mine>", [("Some(&Mine(6))", "n(6.0)"), ("None", "null()")], "None", ("s(\"\")", "IndexOutOfRange"), nv=True)
ty("Kinds", [("Kinds(9)", "n(9.0)"), ("Kinds(0)", "n(0.0)")], "Kinds(0)", ("a(vec![])", "IndexOutOfRange"), nv=True)
ty("Inner", [("Inner { a: Kinds(3), c: 4 }", 'o(vec![("a", n(3.0)), ("1", n(4.0))])')], "Inner { a: Kinds(0), c: 0 }", ("o(vec![])", "MissingKey"), nv=True)
ty("Option<Outer>", [("None", "null()"), ("Some(Outer { b: vec![Inner { a: Kinds(3), c: 4 }], o: None })", 'o(vec![("a", null()), ("b", a(vec![o(vec![("a", n(3.0)), ("1", n(4.0))])]))])')], "None", ("o(vec![])", "MissingKey"), nv=True)
ty("W<Option<String>>", [("W(Some(\"\".to_string()))", 's("")'), ("W(None)", "null()")], "W(None)", ("n(9.0)", CE))
ty("<Vec<i32> as IntoIterator>::Item", I32, "0", ("s(\"x\")", CE), nv=True)
ty("Box<dyn Shape>", [("Box::new(3u8) as Box<dyn Shape>", "n(3.0)")], "Box::new(9u8) as Box<dyn Shape>", ("null()", "InvalidValueKind"), nv=True, cmp="({a}).side() == ({b}).side()")
# type parameters
ty("T", I32, "0", ("s(\"x\")", CE), need="T")
ty("Vec<T>", [("vec![1, 2]", "a(vec![n(1.0), n(2.0)])"), ("vec![]", "a(vec![])")], "vec![]", ("o(vec![])", CE), need="T")
ty("Option<W<T>>", [("Some(W(4))", "n(4.0)"), ("None", "null()")], "None", ("s(\"\")", CE), need="T")
ty("U", STR, "String::new()", ("n(1.0)", CE), need="U")
ty("W<U>", [("W(%s)" % x, j) for x, j in STR], "W(String::new())", ("n(1.0)", CE), need="U")
ty("Vec<(String, U)>", [("vec![(\"k\".to_string(), \"v\".to_string())]", "o(vec![(\"k\", s(\"v\"))])")], "vec![]", ("n(1.0)", CE), need="U")
ty("Arr<N>", [("Arr([7; 3])", "a(vec![n(7.0), n(7.0), n(7.0)])")], "Arr([0; 3])", ("a(vec![])", "IndexOutOfRange"), need="N")
# only encodable
ty("&'static str", [('"x"', 's("x")'), ('""', 's("")')], '""', enc=True, dec=False)
ty("&'a str", [('"x"', 's("x")'), ('""', 's("")')], '""', dec=False, need="a")
ty("W<&'a str>", [('W("x")', 's("x")')], 'W("")', dec=False, need="a")
ty("Option<&'b str>", [('Some("x")', 's("x")'), ("None", "null()")], "None", dec=False, need="b")
# only ignorable
IG = dict(enc=False, dec=False)
ty("std::marker::PhantomData<T>", [("std::marker::PhantomData", "")], "std::marker::PhantomData", need="T", **IG)
ty("std::marker::PhantomData<(T, fn(T) -> T)>", [("std::marker::PhantomData", "")], "std::marker::PhantomData", need="T", nv=True, **IG)
ty("std::marker::PhantomData<U>", [("std::marker::PhantomData", "")], "std::marker::PhantomData", need="U", **IG)
ty("std::marker::PhantomData<&'a str>", [("std::marker::PhantomData", "")], "std::marker::PhantomData", need="a", **IG)
ty("std::marker::PhantomData<&'b ()>", [("std::marker::PhantomData", "")], "std::marker::PhantomData", need="b", **IG)
ty("std::marker::PhantomData<[u8; N]>", [("std::marker::PhantomData", "")], "std::marker::PhantomData", need="N", **IG)
ty("Option<fn(i32) -> i32>", [("None", ""), ("Some(|x| x)", "")], "None", nv=True, cmp="({a}).is_some() == None::<u8>.is_some()", **IG)
ty("Option<Box<dyn Fn(i32) -> Vec<u8> + Send + 'static>>", [("None", ""), ("Some(Box::new(|_| vec![]))", "")], "None", nv=True, cmp="({a}).is_none()", **IG)
ty("(i32, String)", [("(1, String::new())", "")], "(0, String::new())", **IG)
ty("()", [("()", "")], "()", **IG)
ty("[u8; 4]", [("[1; 4]", "")], "[0; 4]", nv=True, **IG)
ty("Option<&'a [u8]>", [("None", ""), ("Some(&[1])", "")], "None", need="a", **IG)
ty("Option<&'static str>", [("Some(\"\")", "")], "None", **IG)
ty("Option<std::marker::PhantomData<dyn Fn(u8) -> bool>>", [("None", "")], "None", nv=True, **IG)


class F:
    def __init__(s, name, t, key=None, ignore=False, vis="", pre="", post=""):
        s.name, s.t, s.key, s.ignore, s.vis, s.pre, s.post = name, T_[t] if isinstance(t, str) else t, key, ignore, vis, pre, post

    kv = None

    def keyval(s):
        return s.kv if s.kv else s.key[1] if s.key else (s.name[2:] if s.name.startswith("r#") else s.name)

    def rust(s, plain=False):
        if plain:
            return "%s%s: %s" % (s.vis + " " if s.vis else "", s.name, s.t.rust)
        at = []
        if s.key:
            at.append("#[key = %s]" % s.key[0])
        if s.ignore:
            at.append("#[ignore]")
        if s.pre:
            at.insert(0, s.pre)
        if s.post:
            at.append(s.post)
        return "\n".join(at + ["%s%s: %s" % (s.vis + " " if s.vis else "", s.name, s.t.rust)])


class G:
    """generic parameters: as declared, as an impl declares them, as arguments, where clause, instance for the tests"""
    def __init__(s, decl="", impl=None, args="", where="", inst="", has="", nv=False, dflt=False):
        s.dflt = dflt
        s.decl, s.impl, s.args, s.where, s.inst, s.has, s.nv = decl, decl if impl is None else impl, args, where, inst, set(has), nv


EX = "json::ToJson + json::FromJson"
GENS = [
    G(), G(), G(),
    G("<T: %s>" % EX, None, "<T>", "", "<i32>", "T"),
    G("<T: %s,>" % EX, None, "<T>", "", "<i32>", "T"),
    G("<T>", None, "<T>", "where T: %s" % EX, "<i32>", "T"),
    G("<T>", None, "<T>", "where T: json::ToJson, T: json::FromJson + Clone,", "<i32>", "T"),
    G("<'a>", None, "<'a>", "", "<'static>", "a"),
    G("<'a, T: 'a + %s>" % EX, None, "<'a, T>", "", "<'static, i32>", "aT"),
    G("<'a, 'b: 'a, T: %s + 'b>" % EX, None, "<'a, 'b, T>", "", "<'static, 'static, i32>", "abT"),
    G("<'a, 'b>", None, "<'a, 'b>", "where 'b: 'a", "<'static, 'static>", "ab"),
    G("<T: Clone + Tr<u8>, U>", None, "<T, U>", "where T: %s, U: %s + Tr<Vec<(T, i32)>> + 'static" % (EX, EX), "<i32, String>", "TU"),
    G("<U, T>", None, "<U, T>", "where U: %s, T: %s + Tr<U>" % (EX, EX), "<String, i32>", "TU"),
    G("<const N: usize>", None, "<N>", "", "<3>", "N"),
    G("<'a, T: %s, const N: usize>" % EX, None, "<'a, T, N>", "where T: Tr<&'a str>", "<'static, i32, 3>", "aTN"),
    G("<T: %s = i32>" % EX, "<T: %s>" % EX, "<T>", "", "<i32>", "T"),
    G("<T = Vec<i32>, U = String>", "<T, U>", "<T, U>", "where T: %s, U: %s" % (EX, EX), "<i32, String>", "TU"),
    G("<T: %s + Tr<&'static str> + Tr<&'static (u8, &'static str)>>" % EX, None, "<T>", "", "<i32>", "T"),
    G("<'a, T: %s + Tr<Option<&'a [u8]>>>" % EX, None, "<'a, T>", "", "<'static, i32>", "aT"),
    G("<T: std::clone::Clone + %s, U: self::Tr<T> + %s>" % (EX, EX), None, "<T, U>", "", "<i32, String>", "TU"),
    G("<T: %s + Sized>" % EX, None, "<T>", "where T: Tr<[u8; 3]> + Tr<(u8, u8)>,", "<i32>", "T"),
]
GENS += [
    G("<'a, 'b, T>", None, "<'a, 'b, T>", "where T: 'a + 'b + %s, T: Tr<&'a [&'b str]>, 'b: 'a, T: Tr<u8>" % EX, "<'static, 'static, i32>", "abT"),
    G("<'a, 'b: 'a, T: %s + 'b + 'a, U: Tr<T> + 'b>" % EX, None, "<'a, 'b, T, U>", "where T: Tr<u8>, U: json::ToJson, U: json::FromJson, T: Tr<(&'a str, u8)>, U: Tr<[T; 2]>", "<'static, 'static, i32, String>", "abTU"),
]
ED = EX + " + std::default::Default"
GENS += [G(g.decl.replace(EX, ED), g.impl.replace(EX, ED), g.args, g.where.replace(EX, ED), g.inst, g.has, g.nv, True) for g in (GENS[3], GENS[5], GENS[8], GENS[11], GENS[15])]
BARE = {"T", "U", "W<U>"}
NEEDS = {"T": "std::marker::PhantomData<T>", "U": "std::marker::PhantomData<U>", "a": "std::marker::PhantomData<&'a str>", "b": "std::marker::PhantomData<&'b ()>"}

KEYS = [('"id"', "id"), ('"a b"', "a b"), ('r"raw\\x"', "raw\\x"), ('r#"q"q"#', 'q"q'), ('"\\"q\\""', '"q"'), ('"\\u{e9}\\n"', "\u00e9\n"),
        ('""', ""), ('"{}"', "{}"), ('"a\\\\"', "a\\"), ('"//x"', "//x"), ('"ignore"', "ignore"), ('"Type"', "Type"), ('r##"r#"##', "r#"), ("\"it's\"", "it's"), ('"r#x"', "r#x")]
IDENTS = ["type_", "_type", "__a", "a__", "_0", "_1_", "a_b_c_", "x1y2", "ID", "userID", "UserName", "MAX_LEN", "r", "r_", "rr", "r#rb", "r#a", "r#try", "r#_b", "r#async", "raw", "r0", "\u00e9t\u00e9", "\u540d\u524d", "\u03c0r",
          "key", "ignore", "default", "none", "null", "other", "s", "e", "k", "i", "it", "obj_", "json_", "len", "clone", "item", "result", "error", "string", "vec", "is_ok", "id", "i_d", "very_long_field_name_that_goes_on_and_on_for_more_than_sixty_four_characters_in_all",
          "auto", "union", "dyn_", "self_", "crate_", "super_", "data", "value", "inner", "u8", "i32_", "bool_", "macro_rules", "raw_", "safe", "f", "fmt", "from_json", "to_json", "new", "e1", "E", "n0", "O", "l"]
NAMES = ["a", "b", "c", "name", "_id", "r#type", "map", "js", "obj", "v", "other", "json", "camelCase", "x1", "ignore", "key", "self_", "to_json"]
DOC = ["", "", "", "/// doc \"quoted\\\"", "#[allow(dead_code)]", "/** block 'doc' */", "#[allow(dead_code)]\n/// it's `key = \"zz\"` or #[ignore]", "#[doc = \"ignore\"]", "#[allow(unused, dead_code)]", "#[deprecated]", "#[deprecated = \"key = 1\"]", "#[deprecated(note = \"ignore\", since = \"1.0.0\")]"]
# attributes that belong to another derive
HELP = ['#[helper(a = -3)]', '#[helper(a = 3, b = 1.5, c = true)]', '#[helper = "x"]', '#[helper(3)]', '#[helper(-3)]', '#[helper(-1.5f32, 2)]', '#[helper(b"x", b\'x\', br"x", br#"x"#)]',
        '#[helper("lit", r"raw", r#"q"q"#, r##"z"##)]', '#[helper(1u8, 2i8, 3u16, 4i16, 5u32, 6i32, 7u64, 8i64, 9u128, 10i128, 11usize, 12isize, 1.5f64)]',
        '#[helper(nested(x, y = "z", w(q, -1)), key = "zz", ignore)]', '#[helper(key("zz"), ignore = true)]', '#[helper[a, b]]', '#[helper{a, b}]', '#[helper(a = "x",)]', '#[helper(key: "x", n: -3, q: 2.5)]',
        '#[helper(true, false)]', '#[helper]', '#[serde(rename = "zz", skip, default = "f")]', '#[serde(bound(serialize = "T: X", deserialize = "T: Y"))]',
        '#[helper(ignore)]\n#[helper(key = "x")]', '#[helper(r#type = "x", r#fn)]', '#[helper(a, a, a)]', '#[helper = "key"]\n#[serde = "ignore"]']
VIS = ["", "", "pub", "pub(crate)", "pub(super)", "pub(in crate)"]
ATTR = ["", "", "", "#[allow(dead_code)]", "/// doc \"x\" { } ; struct\n#[repr(C)]", "#[derive(Clone)]" if 0 else "#[must_use = \"x y\"]", "#[allow(dead_code)]\n#[doc(hidden)]", "#[non_exhaustive]", "#[deprecated(since = \"1\", note = \"ignore\")]", "#[repr(C, align(16))]", "#[doc(alias = \"key\", alias = \"ignore\")]"]


class D:
    def __init__(s, fields, gen=None, vis="", attrs="", name="S", enc=True, dec=True, trail=True, wstyle=" ", label=""):
        s.fields, s.g, s.vis, s.attrs, s.name, s.trail, s.label = fields, gen or GENS[0], vis, attrs, name, trail, label
        s.enc = enc and all(f.ignore or f.t.enc for f in fields)
        s.dec = dec and all((f.t.default is not None) if f.ignore else f.t.dec for f in fields)
        s.nv = s.g.nv or any(f.t.nv or not f.name.isascii() for f in fields)

    def head(s, plain=False):
        w = "\n" + s.g.where if s.g.where else ""
        return "%sstruct %s%s%s" % (s.vis + " " if s.vis and not plain else "", s.name, s.g.decl, w)

    def rust(s, derives=True):
        body = ",\n".join(f.rust() for f in s.fields) + ("," if s.trail else "")
        d = ", ".join((["json::JsonEncode"] if s.enc else []) + (["json::JsonDecode"] if s.dec else []) + (["vx_helper::Helper"] if re.search(r"#\[(helper|serde)\b", s.attrs + body) else []))
        return "%s%s\n%s {\n%s\n}" % ("#[derive(%s)]\n" % d if derives else "", s.attrs, s.head(), body)

    def general(s):
        """functions that compile only if the impls apply to every instance of the struct"""
        o, st = [], "%s%s" % (s.name, s.g.args)
        if s.enc:
            o.append("fn vx_enc%s(x: &%s) -> json::Json %s { json::ToJson::to_json(x) }" % (s.g.impl, st, s.g.where))
        if s.dec:
            o.append("fn vx_dec%s(x: &json::Json) -> std::result::Result<%s, json::Error> %s { json::FromJson::from_json(x) }" % (s.g.impl, st, s.g.where))
        return "\n".join(o) + "\n"

    def decoys(s, f):
        """names a decoder could mistake for the key of the field"""
        k, keys = f.keyval(), {g.keyval() for g in s.fields if not g.ignore}
        n = f.name[2:] if f.name.startswith("r#") else f.name
        camel = re.sub(r"_(\w)", lambda m: m.group(1).upper(), n)
        ds = [n, f.name, k.upper(), k.lower(), k.capitalize(), k + " ", " " + k, k.strip(), k.strip("_"), camel, rs(k), rs(k)[1:-1], k[:-1], k + "\0", "r#" + k, k.replace(" ", ""), k.replace("-", "_"), k * 2]
        return [d for d in dict.fromkeys(ds) if d not in keys][:14]

    # ---- bounded test on the compiled crate
    def test(s):
        o = [s.general(), "pub fn run(t: &mut T_) {"]
        inc = [f for f in s.fields if not f.ignore]
        ks = {f: rs(f.keyval()) for f in inc}
        for q in range(3):
            vals = {f: f.t.vals[(q + i) % len(f.t.vals)] for i, f in enumerate(s.fields)}
            lit = "%s { %s }" % (s.name, ", ".join("%s: %s" % (f.name, vals[f][0]) for f in s.fields))
            want = "o(vec![%s])" % ", ".join("(%s, %s)" % (ks[f], vals[f][1]) for f in inc)
            if s.enc:
                o.append(" { let x: %s%s = %s; t.enc(%s, json::ToJson::to_json(&x), %s); }" % (s.name, s.g.inst, lit, rs(lit), want))
            if s.dec:
                bad = "null()"
                full = "op(vec![%s%s(\"zz unrelated\", vec![], n(1.0))])" % ("".join("(%s, vec![], %s), " % (rs(k), ("null()", "s(\"decoy\")", vals[f][1])[q]) for f in inc for k in s.decoys(f)) if q else "", "".join(
                    "(%s, vec![%s], %s), " % (ks[f], ", ".join([(f.t.bad[0] if f.t.bad else bad)] * ((q + i) % 3)), vals[f][1]) for i, f in enumerate(inc)))
                checks = " && ".join("({})".format(f.t.cmp.format(a="x." + f.name, b=(f.t.default if f.ignore else vals[f][0]))) for f in s.fields)
                o.append(" { let j = %s; match <%s%s as json::FromJson>::from_json(&j) { Ok(x) => t.ok(%s, \"other field values\", &j), Err(e) => t.ok(false, &e.to_string(), &j) } }"
                         % (full, s.name, s.g.inst, checks))
        if s.dec:
            base = {f: f.t.vals[0][1] for f in inc}
            for f in inc if len(inc) < 14 else [inc[i * (len(inc) - 1) // 7] for i in range(8)]:
                for drop in ([f], inc) if len(inc) > 1 else ([f],):
                    j = "o(vec![%s])" % ", ".join("(%s, %s)" % (ks[g], base[g]) for g in inc if g not in drop)
                    o.append(" { let j = %s; t.missing(&[%s], <%s%s as json::FromJson>::from_json(&j).map(|_| ()), &j); }"
                             % (j, ", ".join(ks[g] for g in drop), s.name, s.g.inst))
                pairs = ", ".join("(%s, %s)" % (ks[g], base[g] if g is not f else "v.clone()") for g in inc)
                o.append(" { for v in cands() { let j = o(vec![%s]); t.same(<%s as json::FromJson>::from_json(&v).map(|_| ()), <%s%s as json::FromJson>::from_json(&j).map(|_| ()), &j); } }"
                         % (pairs, subst_ty(f.t.rust, s), s.name, s.g.inst))
                if s.decoys(f):
                    j = "o(vec![%s])" % ", ".join(["(%s, %s)" % (ks[g], base[g]) for g in inc if g is not f] + ["(%s, %s)" % (rs(k), base[f]) for k in s.decoys(f)])
                    o.append(" { let j = %s; t.missing(&[%s], <%s%s as json::FromJson>::from_json(&j).map(|_| ()), &j); }" % (j, ks[f], s.name, s.g.inst))
                if f.t.bad:
                    j = "o(vec![%s])" % ", ".join("(%s, %s)" % (ks[g], base[g] if g is not f else f.t.bad[0]) for g in inc)
                    o.append(" { let j = %s; t.err(\"%s\", <%s as json::FromJson>::from_json(&(%s)).map(|_| ()), <%s%s as json::FromJson>::from_json(&j).map(|_| ()), &j); }"
                             % (j, f.t.bad[1], subst_ty(f.t.rust, s), f.t.bad[0], s.name, s.g.inst))
            for j in ("null()", "b(true)", "n(1.0)", "s(\"x\")", "a(vec![])"):
                o.append(" { let j = %s; t.kind(\"ConvertError\", <%s%s as json::FromJson>::from_json(&j).map(|_| ()), &j); }" % (j, s.name, s.g.inst))
        # a function per case: the frame of a single one would hold every temporary
        o[2:] = [" #[inline(never)] fn q%d(t: &mut T_)%s q%d(t);" % (i, x, i) for i, x in enumerate(o[2:])]
        o.append("}")
        return "\n".join(o)

    # ---- contracts
    def plain(s):
        return "%s {\n%s,\n}" % (s.head(True).replace("struct", "pub struct", 1), ",\n".join(re.sub(r"^pub\([^)]*\)", "pub", f.rust(True)) for f in s.fields))

    def lits(s):
        """distinct keys are distinct texts"""
        ks = [f.keyval() for f in s.fields if not f.ignore]
        ens, body = [], ["reveal_strlit(%s);" % rs(k) for k in ks]
        for i in range(len(ks)):
            for j in range(i):
                a, b = ks[j], ks[i]
                ens.append("%s@ != %s@" % (rs(a), rs(b)))
                if len(a) == len(b):
                    p = next(p for p in range(len(a)) if a[p] != b[p])
                    body.append("assert(%s@[%d] != %s@[%d]);" % (rs(a), p, rs(b), p))
                else:
                    body.append("assert(%s@.len() != %s@.len());" % (rs(a), rs(b)))
        return "proof fn vx_keys()%s { %s }" % (" ensures " + ", ".join(ens) if ens else "", " ".join(body))

    def where(s):
        return s.g.where.rstrip(",") + " " if s.g.where else ""

    def contract(s, text_enc, text_dec, wrong=False):
        """(encoder module items, decoder module items): the generated text with its contract; wrong: a contract that does not hold"""
        inc = [f for f in s.fields if not f.ignore]
        W = s.where()
        out = []
        st = "%s%s" % (s.name, s.g.args)
        if text_enc is not None:
            xs = ["x%d" % i for i in range(len(inc))]
            conj = ["#[trigger] <%s as ToJson>::enc(&s.%s, %s)" % (f.t.rust, f.name, x) for f, x in zip(inc, xs)]
            m = "Map::<Seq<char>, Seq<JV>>::empty()" + "".join(".insert(%s@, seq![%s])" % (rs(f.keyval() + ("!" if wrong else "")), x) for f, x in zip(inc, xs))
            e = " && ".join(conj + ["v == JV::Obj(%s)" % m])
            if xs:
                e = "exists|%s| %s" % (", ".join(x + ": JV" for x in xs), e)
            out.append("pub closed spec fn vx_enc%s(s: &%s, v: JV) -> bool %s{ %s }" % (s.g.impl, st, W, e))
            spec = "open spec fn enc(&self, v: JV) -> bool { vx_enc(self, v) }\n"
            out.append(splice(text_enc, "to_json", spec))
        if text_dec is not None:
            ok = []
            for f in s.fields:
                if f.ignore:
                    ok.append("call_ensures(<%s as std::default::Default>::default, (), s.%s)" % (f.t.rust, f.name))
                else:
                    k = rs(f.keyval() + ("!" if wrong else ""))
                    ok.append("m.dom().contains(%s@) && <%s as FromJson>::dec(m[%s@].last(), Ok(s.%s))" % (k, f.t.rust, k, f.name))
            er = []
            for f in inc:
                k = rs(f.keyval() + ("!" if wrong else ""))
                er.append("(!m.dom().contains(%s@) && e.kind is MissingKey) || (m.dom().contains(%s@) && <%s as FromJson>::dec(m[%s@].last(), Err(e)))" % (k, k, f.t.rust, k))
            out.append("pub closed spec fn vx_dec%s(v: JV, r: Result<%s, Error>) -> bool %s{ match v { JV::Obj(m) => match r { Ok(s) => %s, Err(e) => %s }, _ => conv_err(r) } }"
                       % (s.g.impl, st, W, " && ".join(ok) or "true", " || ".join(er) or "false"))
            spec = "open spec fn dec(v: JV, r: Result<Self, Error>) -> bool { vx_dec(v, r) }\n"
            out.append(splice(text_dec, "from_json", spec))
        if text_enc is not None and text_dec is not None and len(inc) == len(s.fields) and not wrong:
            hyp = ["(forall|x: JV, q: Result<%s, Error>| #[trigger] <%s as ToJson>::enc(&s.%s, x) && #[trigger] <%s as FromJson>::dec(x, q) ==> q == Ok::<_, Error>(s.%s))"
                   % (f.t.rust, f.t.rust, f.name, f.t.rust, f.name) for f in inc]
            out.append("/// if every field survives its own round trip, the struct does\nproof fn vx_roundtrip%s(s: &%s, v: JV, r: Result<%s, Error>) %s\n requires vx_enc(s, v), vx_dec(v, r), %s\n ensures r matches Ok(t) && %s\n{ vx_keys(); }"
                       % (s.g.impl, st, st, W, ", ".join(hyp), " && ".join("t.%s == s.%s" % (f.name, f.name) for f in inc)))
        return "\n".join(out)


def subst_ty(t, d):
    """the type of a field in the instance the tests use"""
    for p, c in (("T", "i32"), ("U", "String"), ("N", "3")):
        t = re.sub(r"\b%s\b" % p, c, t) if p in d.g.has else t
    return re.sub(r"'[ab]\b", "'static", t)


def splice(text, fn, spec):
    i = re.search(r"\bfn\s+%s\b" % fn, text).start()
    j = text.index("{", i) + 1
    return text[:i] + spec + text[i:j] + " proof { vx_keys(); } " + text[j:]


def rs(s):
    """a Rust string literal"""
    return '"' + "".join({'"': '\\"', "\\": "\\\\", "\n": "\\n"}.get(c, c) for c in s) + '"'


def key(i):
    return KEYS[i]


def fixed():
    g = {x.decl + x.where: x for x in GENS}
    ds = [
        D([F("_id", "i32", key=KEYS[0], vis="pub"), F("name", "String", vis="pub"), F("vec", "Vec<Vec<u8>>", vis="pub"), F("opt", "Option<&'static str>", ignore=True)], vis="pub", name="Item", label="as in the readme"),
        D([F("a", "i32")], trail=False, label="one field"),
        D([F("a", "i32"), F("b", "bool")], trail=False),
    ]
    # every key literal, alone and next to a plain field
    for i in range(0, len(KEYS), 3):
        ks = KEYS[i:i + 3]
        ds.append(D([F("f%d" % j, "i32", key=k) for j, k in enumerate(ks)] + [F("z", "String")], label="key literals"))
    ds.append(D([F("r#type", "i32"), F("r#match", "bool", key=KEYS[1]), F("r#fn", "String")], label="raw identifiers"))
    ds.append(D([F(n, "i32") for n in ("map", "js", "json", "obj", "v", "other", "x")], label="fields named like the variables of the generated code"))
    for n in ("Json", "Error", "Result", "Option", "Vec", "HashMap", "ToJson", "FromJson", "ErrorKind", "Ok", "Some", "Err", "None", "Default", "LinkedList", "r#async", "\u00dcn\u00ef", "T", "Struct", "Enum", "Fn", "A1_b"):
        ds.append(D([F("a", "i32"), F("b", "bool", key=KEYS[0]), F("c", "u8", ignore=True)], name=n, label="struct names"))
        ds[-1].nv = True
    for i in range(0, len(IDENTS), 6):
        ds.append(D([F(n, ("i32", "String", "bool")[j % 3]) for j, n in enumerate(IDENTS[i:i + 6])], label="field names"))
        ds.append(D([F(n, "i32", key=("\"%s \"" % n, n + " ") if j % 2 else None, ignore=j == 4) for j, n in enumerate(IDENTS[i:i + 6])], label="field names, keys"))
    # ignore and key in both orders, several attributes, docs
    ds.append(D([F("a", "i32", key=KEYS[1], ignore=True), F("b", "i32", ignore=True, post="#[key = \"zz\"]"), F("c", "i32", key=KEYS[1])], label="ignored fields with keys"))
    ds.append(D([F("a", "i32", ignore=True), F("b", "Mine", ignore=True), F("c", "Vec<Mine>", ignore=True)], label="everything ignored"))
    ds.append(D([F("a", "i32", pre="/// one\n/// two", post="#[allow(dead_code)]"), F("b", "Mine", pre="#[allow(dead_code)]", key=KEYS[0], post="/// three"), F("c", "u8", ignore=True, pre="#[doc = \"x\"]", post="#[allow(dead_code)]")], label="other attributes around key and ignore"))
    ds.append(D([F("a", "i32", post="#[doc = \"key\"]"), F("b", "i32", pre="#[allow(ignore_, unknown_lints)]" if 0 else "#[allow(unused)]")], label="unrelated attributes"))
    # every type
    enc = [t for t in T_ if T_[t].enc and T_[t].dec and not T_[t].need]
    for i in range(0, len(enc), 4):
        ds.append(D([F("f%d" % j, t) for j, t in enumerate(enc[i:i + 4])], label="field types"))
    ign = [t for t in T_ if not T_[t].need]
    for i in range(0, len(ign), 4):
        ds.append(D([F("k", "Mine")] + [F("f%d" % j, t, ignore=True) for j, t in enumerate(ign[i:i + 4]) if T_[t].default], label="ignored field types"))
    ds.append(D([F("a", "&'static str"), F("b", "i32")], dec=False))
    # every generics profile with every type that needs it
    for gg in GENS[3:]:
        fs, used = [], set()
        for t in T_:
            if T_[t].need and T_[t].need in gg.has and (T_[t].enc and T_[t].dec):
                fs.append(F("f%d" % len(fs), t))
                used.add(T_[t].need)
        rest = [F("p%d" % i, NEEDS[x], ignore=True) for i, x in enumerate(sorted(gg.has - used)) if x in NEEDS]
        ds.append(D(fs + rest + [F("k", "i32", key=KEYS[0])], gg, vis="pub", label="generics"))
        fs = []
        for t in T_:
            if T_[t].need and T_[t].need in gg.has and not T_[t].dec and T_[t].enc:
                fs.append(F("f%d" % len(fs), t))
        if fs:
            ds.append(D(fs + [F("p%d" % i, NEEDS[x], ignore=True) for i, x in enumerate(sorted(gg.has)) if x in NEEDS], gg, dec=False, label="generics, borrowed fields"))
    # many fields
    for w in list(range(5, 20)) + [24, 31, 32, 33, 48, 63, 64, 65, 100, 128, 130]:
        fs = [F("f%d" % i, enc[(i + w) % len(enc)], key=("\"k %d\"" % i, "k %d" % i) if (i + w) % 5 == 0 else None, ignore=(i * 7 + w) % 11 == 3) for i in range(w)]
        ds.append(D(fs, label="%d fields" % w))
        ds[-1].nv |= w > 12
        if w < 12:
            ds.append(D([F("f%d" % i, "Option<i32>") for i in range(w)], label="%d optional fields" % w))
    for i, h in enumerate(HELP):
        ds.append(D([F("a", "i32", pre=h, key=KEYS[i % len(KEYS)]), F("b", "Mine", post=h), F("c", "u8", ignore=True, pre=h), F("d", "String", key=KEYS[(i + 1) % len(KEYS)], post=h)], attrs=h if i % 2 else "", label="attributes of another derive"))
    for y in (0, 1):
        c = "#[cfg_attr(%s, " % ("all()" if y else "any()")
        fs = [F("a", "i32", pre=c + 'key = "zz")]'), F("b", "i32", pre=c + "ignore)]" if 0 else ""), F("c", "String", key=KEYS[1]), F("d", "Mine", pre=c + 'doc = "x", key = "y y")]')]
        if y:
            fs[0].kv, fs[3].kv = "zz", "y y"
        ds.append(D(fs, label="conditional attributes"))
        ds[-1].nv = True
    for v in VIS:
        ds.append(D([F("a", "i32", vis=v), F("b", "Mine", vis=v, key=KEYS[0]), F("c", "u8", vis=v, ignore=True)], vis=v, label="visibility"))
    for a in sorted(set(ATTR + DOC)):
        ds.append(D([F("a", "i32"), F("b", "String")], attrs=a if "#[doc" not in a or 1 else "", label="struct attributes"))
    return ds


def rand(n, seed):
    r = random.Random(seed)
    out = []
    while len(out) < n:
        g = r.choice(GENS)
        encdec = r.random() < 0.7
        fs, names, keys = [], set(), set()
        for _ in range(r.randint(1, 7)):
            nm = r.choice(NAMES)
            if nm in names:
                continue
            ig = r.random() < 0.25
            cand = [t for t in T_ if all(c in g.has for c in T_[t].need) and (ig and T_[t].default and (t not in BARE or g.dflt) or not ig and T_[t].enc and (T_[t].dec or not encdec))]
            if r.random() < 0.5:
                cand = [t for t in cand if T_[t].need] or cand
            f = F(nm, r.choice(cand), key=r.choice(KEYS) if r.random() < 0.4 else None, ignore=ig, vis=r.choice(VIS), pre=r.choice(DOC), post=r.choice(DOC if r.random() < 0.7 else HELP))
            if "deprecated" in f.pre and "deprecated" in f.post:
                f.post = ""
            if not ig and f.keyval() in keys:
                continue
            names.add(nm)
            if not ig:
                keys.add(f.keyval())
            fs.append(f)
        used = set("".join(f.t.need for f in fs))
        for i, x in enumerate(sorted(g.has - used)):
            if x in NEEDS:
                fs.insert(r.randint(0, len(fs)), F("zp%d" % i, NEEDS[x], ignore=True))
        if not fs:
            continue
        out.append(D(fs, g, vis=r.choice(VIS), attrs=r.choice(ATTR if r.random() < 0.8 else HELP), name=r.choice(["S", "Item", "Foo_1", "Ty"]), trail=r.random() < 0.7, label="random"))
    return out


# definitions that are only compiled: their bounds have no instance to test with
COMPILE = [
    "struct S<F: Fn(i32) -> i32 + json::ToJson + json::FromJson> { a: F }",
    "struct S<F: Fn(i32, u8) -> Vec<u8> + Copy + json::ToJson + json::FromJson> { a: F, b: i32 }",
    "struct S<F: FnOnce() + json::ToJson + json::FromJson> { a: F }",
    "struct S<F: FnMut(&str) -> Option<(u8, u8)> + json::ToJson + json::FromJson, G> where G: json::ToJson + json::FromJson { a: F, b: G }",
    "struct S<F: Iterator<Item = u8> + json::ToJson + json::FromJson> { a: F }",
    "struct S<T> where T: std::ops::Add<Output = T> + json::ToJson + json::FromJson { a: T }",
    "struct S<'a, T: std::ops::Index<&'a str, Output = Vec<&'a [T]>> + 'a + json::ToJson + json::FromJson> { a: T, #[ignore] p: std::marker::PhantomData<&'a ()> }",
    "struct S<T: (json::ToJson) + json::FromJson> { a: T }",
    "struct S<T, U> where T: json::ToJson + json::FromJson, U: json::ToJson + json::FromJson + std::convert::AsRef<[T]> { a: T, b: U, }",
    "type Result<T> = std::result::Result<T, ()>; type Option<T> = Vec<T>; DERIVE struct S { a: Option<i32> }",
    "struct S<'a, 'b: 'a> where 'b: 'a { #[ignore] a: &'a str, #[ignore] b: std::marker::PhantomData<&'b mut str>, c: i32 }",
    "struct S<T: Tr<Box<dyn Fn(u8) -> bool>> + json::ToJson + json::FromJson> { a: T }",
    "struct S<T: json::ToJson + json::FromJson, const N: usize, const B: bool> { a: T, #[ignore] b: std::marker::PhantomData<[u8; N]> }",
    'struct S<F> where F: Fn(i32) -> i32 + json::ToJson + json::FromJson { a: F }',
    'struct S<F, G> where F: FnMut(i32, u8) -> Vec<u8> + Copy + json::ToJson + json::FromJson, G: Clone  + json::ToJson + json::FromJson { a: F, g: G }',
    'struct S<F, G> where F: Copy + FnMut(i32, u8) -> Vec<u8> + json::ToJson + json::FromJson, G: FnOnce()  + json::ToJson + json::FromJson, { a: F, g: G, b: u8 }',
    'struct S<F, G> where G: FnOnce(&str, &[u8]) -> Option<(u8, u8)>  + json::ToJson + json::FromJson, F: Fn() + json::ToJson + json::FromJson { a: F, g: G }',
    "struct S<F> where F: 'static + Fn(Box<dyn Fn(u8) -> u8>) -> [u8; 3] + json::ToJson + json::FromJson { a: F }",
    "struct S<'a, F> where 'a: 'a, F: 'a + Fn(&'a str) -> &'a str + json::ToJson + json::FromJson { a: F, #[ignore] p: std::marker::PhantomData<&'a ()> }",
    'struct S<F> where F: std::ops::Fn(i32) -> i32 + json::ToJson + json::FromJson { a: F }',
    'struct S<F: std::ops::FnMut(i32) -> i32 + json::ToJson + json::FromJson> { a: F }',
    'struct S<F: Fn(i32) -> fn(u8) -> u8 + json::ToJson + json::FromJson> { a: F }',
    'struct S<F: Fn((u8, i8), [u8; 2]) -> (u8,) + json::ToJson + json::FromJson, G: FnOnce(fn())  + json::ToJson + json::FromJson> { a: F, g: G }',
    'struct S<T: Iterator<Item = Vec<u8>> + json::ToJson + json::FromJson> { a: T }',
    'struct S<T> where T: Iterator<Item = (u8, Vec<Option<i8>>)> + json::ToJson + json::FromJson { a: T }',
    'struct S<T: IntoIterator<Item = u8, IntoIter = std::vec::IntoIter<u8>> + json::ToJson + json::FromJson, U> where U: PartialEq<T> + json::ToJson + json::FromJson { a: T, u: U }',
    'struct S<T: Tr<[u8; 3]> + Tr<(u8, u8)> + Tr<fn(u8) -> u8> + Tr<()> + json::ToJson + json::FromJson> { a: T }',
    'struct S<T> where T: Tr<[u8; 3]> + Tr<(u8, u8)> + Tr<fn(u8) -> u8> + Tr<()> + Tr<dyn Fn(u8)> + json::ToJson + json::FromJson { a: T }',
    'struct S { a: i32, #[ignore] b: std::marker::PhantomData<[u8; 3]>, #[ignore] c: Option<[u8; 1 + 2]>, #[ignore] d: Option<[u8; { 1 + 2 }]> }',
    'struct S { a: i32, #[ignore] b: Option<(u8,)>, #[ignore] c: (), #[ignore] d: Option<((u8, u16), [u8; 2])> }',
    'struct S { a: i32, #[ignore] b: Option<fn(x: u8, y: &str) -> u8> }',
    'struct S { a: i32, #[ignore] b: ::std::vec::Vec<u8>, c: ::std::option::Option<::std::vec::Vec<u8>> }',
    'struct S<T: Iterator + json::ToJson + json::FromJson> where T: Iterator { a: T, #[ignore] b: Option<T::Item> }',
    'struct S<T: Iterator + json::ToJson + json::FromJson> { a: T, #[ignore] b: Option<<T as Iterator>::Item> }',
    'struct S<T: Iterator + json::ToJson + json::FromJson> { a: T, #[ignore] b: std::marker::PhantomData<<T as Iterator>::Item> }',
    'struct S { pub(crate) a: i32, pub(self) b: i32, pub(in crate) c: i32, pub(super) d: i32 }',
    'pub(crate) struct S { a: i32 }',
    'struct S { a: i32, #[key = "é\\u{e9}\\n\\"\\\\"] b: u8, #[key = ""] c: u8, #[key = "a b"] d: u8 }',
    "struct S<T: ::std::marker::Sized + json::ToJson + json::FromJson, U> where U: std::marker::Sized + json::ToJson + json::FromJson, T: ::std::clone::Clone { a: T, b: U }",
    "struct S<Json: json::ToJson + json::FromJson> { a: Json }", "struct S<Error: json::ToJson + json::FromJson, Result: json::ToJson + json::FromJson> { a: Error, b: Result }",
    "struct S<String: json::ToJson + json::FromJson, Option: json::ToJson + json::FromJson, Ok: json::ToJson + json::FromJson> { a: String, b: Option, c: Ok }",
    "struct S { a: crate::Mine, b: self::Mine, c: super::W<i32>, d: ::json::Json, e: json::Json }",
    "struct S<T: Sized + json::ToJson + json::FromJson, U, V> where U: Clone + Sized + json::ToJson + json::FromJson, V: Sized + Tr<T> + json::ToJson + json::FromJson { a: T, b: U, c: V }",
    'struct S { r#type: i32, r#fn: u8, r#match: Option<u8> }',
    'struct S<const N: char> { a: i32 }',
    "struct S { a: i32, #[ignore] b: Option<Box<dyn std::fmt::Debug + Send + Sync + 'static>> }",
    'struct S { a: i32, #[ignore] b: Option<Box<(dyn std::fmt::Debug + Send)>> }',
    'struct S { a: (i32), }',
    'struct S { a: i32, #[ignore] b: Vec<Vec<Vec<Vec<u8>>>>, c: Vec<Vec<Vec<u8>>> }',
    'struct S { a: Option<Option<Vec<Option<i32>>>>, }',
    'struct S<T>where T:Copy  + json::ToJson + json::FromJson{a:T}',
    'struct S<T: std::fmt::Debug + ?Sized> { #[ignore] a: std::marker::PhantomData<T>, b: i32 }',
    "struct S<'a, 'b: 'a, 'c: 'a + 'b, T: 'a + 'b> { #[ignore] a: std::marker::PhantomData<(&'a T, &'b T, &'c ())>, b: i32 }",
    'struct S { #[ignore] #[key = "z"] a: Option<i32>, #[key = "y"] #[ignore] b: Option<i32>, #[key("k")] c: i32 }',
    'struct S { a: i32, #[ignore] b: Option<std::rc::Rc<std::cell::RefCell<Vec<std::rc::Weak<u8>>>>> }',
    "struct S { a: i32, #[ignore] b: std::collections::HashMap<String, (u8, Vec<&'static str>)>, c: std::collections::HashMap<String, Vec<u8>> }",
    'struct S { json: i32, obj: u8, v: u8, js: u8, x: u8, self_: u8, k: u8, e: u8, r: u8, Ok: u8 }',
    '#[derive(Clone, Debug)] #[allow(dead_code)] DERIVE #[must_use] struct S { a: i32 }',
    '#[repr(C)] DERIVE struct S { a: i32 }',
    "struct S<T:Copy+json::ToJson+json::FromJson,U:json::ToJson+json::FromJson>{a:T,b:U}",
    'struct S { Json: i32, Error: u8, ToJson: u8, None: u8, Some: Option<u8>, FromJson: u8 }',
]
COMPILE_ENC = [
    "struct S<T: ?Sized + json::ToJson, U> where U: json::ToJson + ?Sized { #[ignore] p: std::marker::PhantomData<T>, #[ignore] q: std::marker::PhantomData<U>, n: i32 }",
    "struct S<'a, T: 'a + ?Sized, U: json::ToJson + 'a + ?Sized> { #[ignore] p: std::marker::PhantomData<&'a T>, u: U }",
    "struct S<T: ?Sized + json::ToJson> { n: i32, a: T }",
    "struct S<T: Sized + json::ToJson + Tr<u8>, U, V> where U: Sized + json::ToJson, V: Tr<U> + Sized + json::ToJson { a: T, b: U, c: V }",
    "struct S<'a, T> where T: 'a + json::ToJson + ?Sized { #[ignore] a: &'a T, b: i32 }",
    "struct S<'a, T: json::ToJson> { a: W<&'a str>, #[ignore] m: &'a mut T }",
    "struct S<'a, T: ?Sized> where T: json::ToJson + Tr<&'a mut str>, { #[ignore] a: std::marker::PhantomData<&'a u8>, t: T }",
]



def general(t):
    """the same for a definition given as text"""
    k = re.search(r"struct S\b", t)
    i = k.end()
    decl, n = "", 0
    if t[i] == "<":
        for j in range(i, len(t)):
            n += {"<": 1, ">": 0 if t[j - 1] in "-=" else -1}.get(t[j], 0)
            if n == 0:
                break
        decl, i = t[i:j + 1], j + 1
    args, n, cur = [], 0, ""
    for c, b in zip(decl[1:-1] + ",", " " + decl[1:-1]):
        n += {"<": 1, "(": 1, "[": 1, ")": -1, "]": -1, ">": 0 if b in "-=" else -1}.get(c, 0)
        if c == "," and n == 0:
            if cur.strip():
                args.append(cur.split(":")[0].split("=")[0].strip().replace("const ", ""))
            cur = ""
        else:
            cur += c
    st = "S<%s>" % ", ".join(args) if args else "S"
    return decl, st, t[i:t.index("{", i)].strip()


PRELUDE = r'''
#![allow(warnings)]
use json::{Json, Error, ErrorKind, ToJson, FromJson};
use std::collections::{HashMap, LinkedList};
pub trait Tr<X: ?Sized> {}
impl<T: ?Sized, X: ?Sized> Tr<X> for T {}
#[derive(Debug, PartialEq, Clone)]
pub struct Mine(pub i32);
impl Default for Mine { fn default() -> Mine { Mine(77) } }
impl ToJson for Mine { fn to_json(&self) -> Json { a(vec![n(self.0 as f64)]) } }
impl FromJson for Mine { fn from_json(j: &Json) -> Result<Mine, Error> {
    if let Json::Array(v) = j { if let [Json::Number(x)] = v[..] { return Ok(Mine(x as i32)); } }
    Err(Error::new(ErrorKind::IndexOutOfRange, "mine".to_string())) } }
#[derive(Debug, PartialEq, Clone, Default)]
pub struct W<X>(pub X);
impl<X: ToJson> ToJson for W<X> { fn to_json(&self) -> Json { self.0.to_json() } }
impl<X: FromJson> FromJson for W<X> { fn from_json(j: &Json) -> Result<Self, Error> { Ok(W(X::from_json(j)?)) } }
#[derive(Debug, PartialEq, Clone)]
pub struct Arr<const N: usize>(pub [u8; N]);
impl<const N: usize> Default for Arr<N> { fn default() -> Self { Arr([0; N]) } }
impl<const N: usize> ToJson for Arr<N> { fn to_json(&self) -> Json { a(self.0.iter().map(|x| n(*x as f64)).collect()) } }
impl<const N: usize> FromJson for Arr<N> { fn from_json(j: &Json) -> Result<Self, Error> {
    let v: Vec<u8> = Vec::from_json(j)?; if v.len() != N { return Err(Error::new(ErrorKind::IndexOutOfRange, "arr".to_string())); }
    let mut r = [0; N]; for i in 0..N { r[i] = v[i]; } Ok(Arr(r)) } }
impl FromJson for &'static Mine { fn from_json(j: &Json) -> Result<Self, Error> { match j { Json::Number(x) if *x == 6.0 => Ok(&Mine(6)), Json::Number(_) => Ok(&Mine(5)), _ => Err(Error::new(ErrorKind::IndexOutOfRange, "ref".to_string())) } } }
impl ToJson for &'static Mine { fn to_json(&self) -> Json { n(self.0 as f64) } }
pub trait Shape { fn side(&self) -> u8; }
impl Shape for u8 { fn side(&self) -> u8 { *self } }
impl ToJson for Box<dyn Shape> { fn to_json(&self) -> Json { n(self.side() as f64) } }
impl FromJson for Box<dyn Shape> { fn from_json(j: &Json) -> Result<Self, Error> {
    match j { Json::Number(x) => Ok(Box::new(*x as u8)), _ => Err(Error::new(ErrorKind::InvalidValueKind, "shape".to_string())) } } }
impl Default for Box<dyn Shape> { fn default() -> Self { Box::new(9u8) } }
pub fn n(x: f64) -> Json { Json::Number(x) }
pub fn s(x: &str) -> Json { Json::String(x.to_string()) }
pub fn b(x: bool) -> Json { Json::Boolean(x) }
pub fn null() -> Json { Json::Null }
pub fn a(x: Vec<Json>) -> Json { Json::Array(x) }
pub fn o(x: Vec<(&str, Json)>) -> Json { op(x.into_iter().map(|(k, v)| (k, vec![], v)).collect()) }
pub fn op(x: Vec<(&str, Vec<Json>, Json)>) -> Json {
    let mut m = HashMap::new();
    for (k, p, v) in x { m.insert(k.to_string(), (v, p.into_iter().collect::<LinkedList<_>>())); }
    Json::Object(m)
}
pub fn cands() -> Vec<Json> {
    vec![null(), b(true), b(false), n(0.5), n(-1.0), n(5.0), n(300.0), s(""), s("x"), s("k"), a(vec![]), a(vec![null()]), a(vec![n(1.0), s("1")]), a(vec![n(1.0), n(2.0), n(3.0)]), o(vec![]), o(vec![("a", null())]), o(vec![("1", n(1.0)), ("b", o(vec![]))])]
}
/// a type whose decoder fails in every way there is
#[derive(Debug, PartialEq, Clone, Default)]
pub struct Kinds(pub u8);
impl ToJson for Kinds { fn to_json(&self) -> Json { n(self.0 as f64) } }
impl FromJson for Kinds { fn from_json(j: &Json) -> Result<Self, Error> {
    let (k, m) = match j {
        Json::Null => (ErrorKind::MissingKey, "missing key \"null\"."), Json::Boolean(true) => (ErrorKind::InvalidValueKind, ""), Json::Boolean(_) => (ErrorKind::PathSyntaxError, "{}"),
        Json::Number(x) if *x == 0.5 => (ErrorKind::ConvertError, "cannot convert number to Kinds."), Json::Number(x) if *x < 0.0 => (ErrorKind::ParseNumberError, "n"), Json::Number(x) => return Ok(Kinds(*x as u8)),
        Json::String(s) if s.is_empty() => (ErrorKind::InvalidJson, "s"), Json::String(s) if s == "x" => (ErrorKind::ParseStringError, "t"), Json::String(_) => (ErrorKind::ParseObjectError, "k"),
        Json::Array(v) if v.is_empty() => (ErrorKind::IndexOutOfRange, "i"), Json::Array(v) if v.len() == 1 => (ErrorKind::ParseNullError, "v"), Json::Array(_) => (ErrorKind::MissingKey, "missing key \"k\"."),
        Json::Object(m) if m.is_empty() => (ErrorKind::MissingKey, "missing key \"f\"."), Json::Object(_) => (ErrorKind::ParseArrayError, "o"), };
    Err(Error::new(k, m.to_string())) } }
#[derive(Debug, PartialEq, Clone, Default, json::JsonEncode, json::JsonDecode)]
pub struct Inner { pub a: Kinds, #[key = "1"] pub c: u8 }
#[derive(Debug, PartialEq, Clone, Default, json::JsonEncode, json::JsonDecode)]
pub struct Outer { pub b: Vec<Inner>, #[key = "a"] pub o: Option<Inner> }
pub struct T_ { pub i: usize, pub n: u64, pub bad: u64 }
impl T_ {
    fn say(&mut self, what: &str, t: String) { self.bad += 1; println!("FAIL {} {} {}", self.i, what, t.replace('\n', "\\n")); }
    pub fn enc(&mut self, lit: &str, got: Json, want: Json) { self.n += 1; if got != want { self.say("JsonEncode", format!("encoding {} gives {:?} instead of {:?}", lit, got, want)); } }
    pub fn ok(&mut self, ok: bool, why: &str, j: &Json) { self.n += 1; if !ok { self.say("JsonDecode", format!("decoding {:?} gives {}", j, why)); } }
    pub fn missing(&mut self, ks: &[&str], r: Result<(), Error>, j: &Json) { self.n += 1;
        match r { Err(e) if matches!(e.kind, ErrorKind::MissingKey) && ks.iter().any(|k| e.msg.contains(k)) => (),
            r => self.say("JsonDecode", format!("decoding {:?}, where {:?} are absent, gives {:?} instead of a missing-key error naming one", j, ks, r)) } }
    pub fn err(&mut self, kind: &str, own: Result<(), Error>, r: Result<(), Error>, j: &Json) { self.n += 1;
        let e = own.unwrap_err();
        match r { Err(f) if format!("{:?}", f.kind) == format!("{:?}", e.kind) && f.msg == e.msg => (),
            r => self.say("JsonDecode", format!("decoding {:?} gives {:?} instead of the field's own error {:?}", j, r, e)) } }
    pub fn same(&mut self, own: Result<(), Error>, r: Result<(), Error>, j: &Json) { self.n += 1;
        match (own, r) { (Ok(()), Ok(())) => (), (Err(e), Err(f)) if format!("{:?}", f.kind) == format!("{:?}", e.kind) && f.msg == e.msg => (),
            (e, r) => self.say("JsonDecode", format!("decoding {:?} gives {:?} where the field's own decoder gives {:?}", j, r, e)) } }
    pub fn kind(&mut self, kind: &str, r: Result<(), Error>, j: &Json) { self.n += 1;
        match r { Err(f) if format!("{:?}", f.kind) == kind => (), r => self.say("JsonDecode", format!("decoding {:?} gives {:?} instead of a {}", j, r, kind)) } }
}
'''
# the same, should the derives not even take Inner and Outer
PLAIN = PRELUDE.replace(", json::JsonEncode, json::JsonDecode)]\npub struct Inner", ")]\npub struct Inner").replace(", json::JsonEncode, json::JsonDecode)]\npub struct Outer", ")]\npub struct Outer").replace('#[key = "1"] pub c', "pub c").replace('#[key = "a"] pub o', "pub o") + r'''
impl ToJson for Inner { fn to_json(&self) -> Json { o(vec![("a", self.a.to_json()), ("1", self.c.to_json())]) } }
impl ToJson for Outer { fn to_json(&self) -> Json { o(vec![("b", self.b.to_json()), ("a", self.o.to_json())]) } }
fn field<T: FromJson>(j: &Json, k: &str) -> Result<T, Error> { match j {
    Json::Object(m) => match m.get(k) { Some((v, _)) => T::from_json(v), None => Err(Error::new(ErrorKind::MissingKey, format!("missing key \"{}\".", k))) },
    _ => Err(Error::new(ErrorKind::ConvertError, "plain".to_string())) } }
impl FromJson for Inner { fn from_json(j: &Json) -> Result<Self, Error> { Ok(Inner { a: field(j, "a")?, c: field(j, "1")? }) } }
impl FromJson for Outer { fn from_json(j: &Json) -> Result<Self, Error> { Ok(Outer { b: field(j, "b")?, o: field(j, "a")? }) } }
'''

VPRELUDE = r'''
pub mod vx_derived {
use crate::*; use crate as json;
use crate::vx_std::*; use crate::vx_spec::*; use crate::vx_lemmas::*;
use vstd::prelude::*;
verus!{
pub trait Tr<X: ?Sized> {}
impl<T: ?Sized, X: ?Sized> Tr<X> for T {}
#[verifier::external_body]
pub struct Mine { x: i32 }
impl Mine { pub uninterp spec fn e(self, v: JV) -> bool; pub uninterp spec fn d(v: JV, r: Result<Mine, Error>) -> bool; }
impl ToJson for Mine { open spec fn enc(&self, v: JV) -> bool { self.e(v) }
    #[verifier::external_body] fn to_json(&self) -> (r: Json) { unimplemented!() } }
impl FromJson for Mine { open spec fn dec(v: JV, r: Result<Self, Error>) -> bool { Mine::d(v, r) }
    #[verifier::external_body] fn from_json(j: &Json) -> (r: Result<Self, Error>) { unimplemented!() } }
#[verifier::external_body]
pub struct Arr<const N: usize> { x: [u8; N] }
impl<const N: usize> Arr<N> { pub uninterp spec fn e(self, v: JV) -> bool; pub uninterp spec fn d(v: JV, r: Result<Arr<N>, Error>) -> bool; }
impl<const N: usize> ToJson for Arr<N> { open spec fn enc(&self, v: JV) -> bool { self.e(v) }
    #[verifier::external_body] fn to_json(&self) -> (r: Json) { unimplemented!() } }
impl<const N: usize> FromJson for Arr<N> { open spec fn dec(v: JV, r: Result<Self, Error>) -> bool { Arr::<N>::d(v, r) }
    #[verifier::external_body] fn from_json(j: &Json) -> (r: Result<Self, Error>) { unimplemented!() } }
pub struct W<X>(pub X);
impl<X: ToJson> ToJson for W<X> { open spec fn enc(&self, v: JV) -> bool { self.0.enc(v) } fn to_json(&self) -> (r: Json) { self.0.to_json() } }
impl<X: FromJson> FromJson for W<X> {
    open spec fn dec(v: JV, r: Result<Self, Error>) -> bool { match r { Ok(w) => X::dec(v, Ok(w.0)), Err(e) => X::dec(v, Err(e)) } }
    fn from_json(j: &Json) -> (r: Result<Self, Error>) { match X::from_json(j) { Ok(x) => Ok(W(x)), Err(e) => Err(e) } } }
impl Default for Mine { #[verifier::external_body] fn default() -> Mine { unimplemented!() } }
impl<X: Default> Default for W<X> { fn default() -> (r: W<X>) ensures call_ensures(<X as Default>::default, (), r.0) { W(X::default()) } }
impl<const N: usize> Default for Arr<N> { #[verifier::external_body] fn default() -> Arr<N> { unimplemented!() } }
}
'''


def definitions(nrand, seed):
    return fixed() + rand(nrand, seed)


if __name__ == "__main__":
    ds = definitions(5, 1)
    print(len(ds))
    for d in ds[-5:]:
        print(d.rust())
        print(d.test())
