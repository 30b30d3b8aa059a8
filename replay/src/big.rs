//! Inputs of size: many elements, members, repetitions, characters, digits, blanks, levels, steps. One list per
//! property, run before anything else; sizes are round numbers and what the current source mentions.
use crate::gen::Lits;
use crate::model::{Step, M};
use crate::{op, steps_str, Case};

fn sizes(l: &Lits, max: usize) -> Vec<usize> {
    let mut v = vec![100, 1030, 5003, 20011, 66007];
    for &h in &l.hot_ints {
        if h >= 8 && h < 1 << 20 { for d in [h - 1, h, h + 1] { v.push(d as usize); } }
        if h > 2 && h <= 17 { for d in [(1usize << h) - 1, 1 << h, (1 << h) + 1] { v.push(d); } }
    }
    for &h in &l.hot_ints { for &k in &l.hot_ints { if h > 1 && k > 1 && h <= k && h * k > 64 && h * k < 100_000 { v.push((h * k) as usize + 1); } } }
    v.retain(|n| *n <= max);
    v.sort();
    v.dedup();
    v.truncate(40);
    v
}
fn num(i: usize) -> M { M::Num(i as f64) }
fn obj(v: Vec<(String, Vec<M>)>) -> M { M::Obj(v.into_iter().collect()) }
fn docs(n: usize) -> Vec<M> {
    let half = n / 2;
    let mut d = vec![
        M::Arr((0..n).map(num).collect()),
        M::Arr((0..n).map(|i| if i % 3 == 0 { M::Str("a,]".into()) } else if i % 3 == 1 { M::Arr(vec![]) } else { M::Null }).collect()),
        obj((0..n).map(|i| (format!("k{}", i), vec![num(i)])).collect()),
        obj(vec![("k".into(), (0..n).map(num).collect()), ("l".into(), vec![M::Null])]),
        M::Str("a".repeat(n)),
        M::Str("\u{e9}".repeat(n)),
        M::Str("\u{1F600}\"\\".repeat(n)),
        M::Str(format!("{}\"{}\u{1F600}{}\n", "a".repeat(n - 1), "b".repeat(half), "c".repeat(half))),
        obj(vec![("x".repeat(n), vec![num(1)]), (format!("{}y", "x".repeat(n - 1)), vec![num(2)])]),
    ];
    if n <= 2100 {
        let (mut a, mut o, mut m) = (num(1), num(1), num(1));
        for i in 0..n {
            a = M::Arr(vec![a]);
            o = obj(vec![("k".into(), vec![o])]);
            m = if i % 2 == 0 { M::Arr(vec![M::Null, m, M::Str("]".into())]) } else { obj(vec![("a".into(), vec![M::Null, m]), ("b".into(), vec![num(i)])]) };
        }
        d.extend([a, o, m]);
    }
    d
}
fn texts(n: usize) -> Vec<String> {
    let mut t: Vec<String> = docs(n).iter().map(|d| d.plain()).collect();
    let bad: Vec<String> = t.iter().flat_map(|s| {
        let cut: String = s.chars().take(s.chars().count() - 1).collect();
        vec![format!("{}x", s), format!("{} ", s), cut]
    }).collect();
    t.extend(bad);
    let (r, half) = (|s: &str| s.repeat(n), n / 2);
    t.extend([
        format!("0.{}1", r("0")), format!("0.{}", r("3")), format!("1{}e-{}", r("0"), n), format!("1e{}5", r("0")), format!("1e-{}", r("0")), format!("-0.{}e5", r("12")), format!("1{}", r("0")), format!("0.{}x", r("1")), format!("1e{}", r("9")), format!("1e-{}", r("9")),
        format!("{}1{}", r(" "), r("\n")), format!("[{}1{},{}2{}]", r(" "), r("\t"), r("\r"), r("\n")), format!("{{{}\"a\"{}:{}1{}}}", r(" "), r("\t"), r("\r"), r("\n")), format!("{}1{}\u{b}", r(" "), r("\n")), format!("\"a\"{}x", r(" ")), format!("{}", r(" ")),
        format!("[{}]", r(",")), format!("[{}1]", r(",")), format!("[1{}]", r(",")), format!("[{}1]", r("1,")), format!("[{}1 1]", r("1,")), format!("[{},]", r("1,1,").trim_end_matches(',')),
        r("["), r("]"), format!("[1{}", r("]")), r("{"), r("{\"a\":"), format!("{}{}", r("{\"a\":["), "]"), r("\""), r("1"), r("null"), r("[]"), r("\\"), format!("\"{}\"", r("\\\\")), format!("\"{}\\\"", r("\\\\")), format!("[\"{}\"]", r("\\\"")), format!("[\"{}]", r("\\\"")),
        format!("\"{}\"", r("\\u00e9")), format!("\"{}\"", r("\\uD83D\\uDE00")), format!("\"{}\\uD83D\"", r("\\uD83D\\uDE00")), format!("\"{}\\u00g0\"", r("\\u00e9")), format!("\"{}\u{1}\"", r("a")), format!("\"{}\\x\"", r("a")),
        format!("[{}\"{}]", r("\"a\","), "a"), format!("{{{}\"a\"1}}", r("\"a\":1,")), format!("{{{}\"a\":1,}}", r("\"a\":1,")), format!("{{{}\"a\":1}}", r("\"a\":1,")), format!("{{\"{}\":1,\"{}\":2}}", "a".repeat(half), "a".repeat(half)),
    ]);
    t
}
fn arr(n: usize) -> M { M::Arr((0..n).map(num).collect()) }
fn places(n: usize) -> Vec<(M, Vec<Step>)> {
    let mut v = vec![];
    for i in [0, 1, n / 2, n - 1, n, n + 1, n - 256.min(n), n % 256, n % 65536] { v.push((arr(n), vec![Step::Idx(i)])); v.push((obj(vec![("a".into(), vec![arr(n)])]), vec![Step::Key("a".into()), Step::Idx(i)])); }
    let o = obj((0..n).map(|i| (format!("k{}", i), vec![num(i)])).collect());
    for k in ["k0".to_string(), format!("k{}", n - 1), format!("k{}", n), "k".into()] { v.push((o.clone(), vec![Step::Key(k)])); }
    let h = obj(vec![("k".into(), (0..n).map(num).collect()), ("l".into(), vec![M::Null])]);
    v.push((h.clone(), vec![Step::Key("k".into())]));
    v.push((h, vec![Step::Key("l".into())]));
    let k = "x".repeat(n);
    v.push((obj(vec![(k.clone(), vec![num(1)]), (format!("{}y", k), vec![num(2)])]), vec![Step::Key(k.clone())]));
    v.push((obj(vec![(format!("{}y", k), vec![num(2)])]), vec![Step::Key(k)]));
    if n <= 2100 {
        let (mut d, mut p) = (num(1), vec![]);
        for i in 0..n {
            if i % 2 == 0 { d = M::Arr(vec![M::Null, d]); p.insert(0, Step::Idx(1)); } else { d = obj(vec![("k".into(), vec![M::Null, d])]); p.insert(0, Step::Key("k".into())); }
        }
        v.push((d.clone(), p.clone()));
        v.push((num(1), p.clone()));
        p.pop();
        v.push((d, p));
    }
    v
}
fn path_text(p: &[Step]) -> String {
    p.iter().map(|s| match s { Step::Key(k) => k.clone(), Step::Idx(i) => format!("#{}", i) }).collect::<Vec<_>>().join(".")
}
fn ops(d: &M, o: &[String]) -> Case {
    let mut c = vec!["ops".to_string(), d.enc()];
    c.extend(o.iter().cloned());
    c
}
/// the whole list of a property
pub fn cases(prop: &str, l: &Lits) -> Vec<Case> {
    let mut c: Vec<Case> = vec![];
    let x = M::Str("new".into()).enc();
    if ["C01", "C02", "C06", "C20"].contains(&prop) {
        for n in sizes(l, 20_011) { for t in texts(n) { c.push(vec!["parse".into(), t]); } }
        for n in sizes(l, 70_000) { for t in ["[", "{\"a\":", "[[],", "\"", "{", "]"] { c.push(vec!["parse".into(), t.repeat(n)]); } }
    }
    if ["C03", "C04", "C06"].contains(&prop) {
        let k = if prop == "C04" { "round" } else { "ser" };
        for n in sizes(l, 20_011) { for d in docs(n) { c.push(vec![k.into(), d.enc()]); } }
    }
    if prop == "C05" {
        for n in sizes(l, 100_000) {
            for s in ["a", "\"", "\u{e9}", "\u{1F600}", "\u{1}", "\u{7f}"] {
                c.push(vec!["str".into(), s.repeat(n)]);
                c.push(vec!["str".into(), format!("{}{}", "a".repeat(n - 1), s)]);
                c.push(vec!["str".into(), format!("{}{}{}", s, "b".repeat(n), s)]);
            }
        }
    }
    if ["C07", "C06", "C20"].contains(&prop) {
        for n in sizes(l, 66_007) {
            let m = n.min(2100);
            for t in ["a.".repeat(m), ".".repeat(m), "#0.".repeat(m), "\\.".repeat(n), "\\".repeat(n), "\\\\.".repeat(m), "x".repeat(n), format!("#{}1", "0".repeat(n)), format!("#{}", "9".repeat(n)), format!("#+{}", "0".repeat(n)), "#".repeat(n), format!("{}.#x", "a.".repeat(m)), format!("{}\\", "a.".repeat(m)), format!("#{}", n.min(2999))] {
                c.push(vec!["path".into(), t.clone()]);
                c.push(vec!["path".into(), format!("{}a", t)]);
            }
        }
    }
    let names: &[&str] = match prop { "C08" => &["get", "find", "find1"], "C09" => &["set", "update"], "C10" => &["del", "discard"], "C19" => &["fmut", "idx", "idxw"], "C20" | "C06" => &["get", "set", "del", "fmut"], _ => &[] };
    if !names.is_empty() {
        for n in sizes(l, 66_007) {
            for (d, p) in places(n) {
                for &o in names {
                    let s = match o { "get" | "del" => op(&[o, &path_text(&p)]), "set" => op(&[o, &path_text(&p), &x]), "update" | "fmut" => op(&[o, &steps_str(&p), &x]), "idxw" => op(&[o, &steps_str(&p[..1]), &x]), "idx" => op(&[o, &steps_str(&p[..1])]), _ => op(&[o, &steps_str(&p)]) };
                    c.push(ops(&d, &[s]));
                }
            }
            if prop == "C09" || prop == "C06" {
                for d in [M::Null, M::Arr(vec![num(1)]), obj(vec![("a".into(), vec![num(1), num(2)])])] {
                    for p in [format!("#{}", n), format!("a.#{}.b", n), format!("#{}.#2", n)] { c.push(ops(&d, &[op(&["set", &p, &x])])); }
                }
            }
        }
    }
    if ["C11", "C20", "C06"].contains(&prop) {
        for n in sizes(l, 20_011) {
            for d in [obj(vec![("k".into(), (0..n).map(num).collect()), ("l".into(), vec![M::Null, num(3)])]), obj((0..n).map(|i| (format!("k{}", i), vec![num(i)])).collect())] {
                for k in ["k", "k0", "l", "absent", &format!("k{}", n - 1)] {
                    let (m, de) = (op(&["merge", k]), op(&["delete", k]));
                    c.push(ops(&d, &[m.clone(), op(&["append", k, &x]), m.clone(), op(&["addopt1", k, &x]), m.clone(), op(&["insert", k, &x]), m.clone(), op(&["append", k, &x]), m.clone(), de, m]));
                }
            }
        }
        for n in sizes(l, 3000) {
            let mut v = vec![];
            for i in 0..n { v.push(op(&["append", "k", &num(i).enc()])); }
            v.push(op(&["merge", "k"]));
            if n <= 1100 || prop == "C11" { c.push(ops(&obj(vec![]), &v)); }
        }
    }
    if ["C12", "C20", "C06"].contains(&prop) {
        for n in sizes(l, 66_007) {
            for i in [0, 1, n / 2, n - 1, n, n + 1, n % 256, n % 65536] {
                let i = i.to_string();
                c.push(ops(&arr(n), &[op(&["replace", &i, &x]), op(&["push", &x]), op(&["remove", &i]), op(&["remove", &i]), op(&["push", &x])]));
            }
        }
        for n in sizes(l, 1100) {
            c.push(ops(&M::Arr(vec![]), &(0..n).map(|i| op(&["push", &num(i).enc()])).collect::<Vec<_>>()));
            c.push(ops(&arr(n), &(0..n).map(|i| op(&["remove", &((i * 7) % (n - i)).to_string()])).collect::<Vec<_>>()));
        }
    }
    if prop == "C14" {
        for n in sizes(l, 20_011) {
            let s = |x: &str| M::Str(x.into());
            let a = |e: M| { let mut v = vec![e; n]; v[n - 1] = M::Null; v };
            for (t, e) in [("Vec<i32>", num(7)), ("Vec<String>", s("x")), ("Vec<bool>", M::Bool(true)), ("Vec<Json>", num(1)), ("Vec<Vec<u8>>", M::Arr(vec![num(1)])), ("slices", s("q"))] {
                c.push(vec!["ty".into(), t.into(), M::Arr(vec![e.clone(); n]).enc()]);
                c.push(vec!["ty".into(), t.into(), M::Arr(a(e)).enc()]);
            }
            c.push(vec!["ty".into(), "String".into(), M::Str("\u{e9}".repeat(n)).enc()]);
            c.push(vec!["ty".into(), "Vec<(String,Json)>".into(), obj(vec![("k".into(), (0..n).map(num).collect())]).enc()]);
            c.push(vec!["ty".into(), "slices".into(), obj(vec![("k".into(), (0..n).map(num).collect())]).enc()]);
            if n <= 2100 {
                for t in ["Vec<(String,Json)>", "HashMap<String,Json>"] { c.push(vec!["ty".into(), t.into(), obj((0..n).map(|i| (format!("k{}", i), vec![num(i), M::Null])).collect()).enc()]); }
            }
        }
    }
    if prop == "C18" {
        for n in sizes(l, 20_011) {
            for d in docs(n) {
                let t = d.plain();
                c.push(vec!["text".into(), "tdec".into(), t.clone(), "json".into()]);
                for p in ["#0".to_string(), format!("#{}", n - 1), format!("#{}", n), "k".into(), "l".into(), format!("k{}", n - 1), "x".repeat(n)] {
                    c.push(vec!["text".into(), "tget".into(), t.clone(), p.clone(), "json".into()]);
                    c.push(vec!["text".into(), "tset".into(), t.clone(), p.clone(), x.clone()]);
                    c.push(vec!["text".into(), "tdel".into(), t.clone(), p.clone()]);
                }
            }
        }
    }
    // small inputs first
    c.sort_by_key(|c| c.iter().map(|s| s.len()).sum::<usize>());
    let names: Vec<String> = crate::ty::TYS.iter().map(|t| t.name.to_string()).collect();
    c.retain_mut(|c| c[0] != "ty" || { let w = c[1].replace(' ', ""); match names.iter().find(|n| n.replace(' ', "") == w) { Some(n) => { c[1] = n.clone(); true } None => panic!("no type {}", w) } });
    c
}
