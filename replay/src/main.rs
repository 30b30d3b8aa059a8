//! Replay and search against the real crate: concrete inputs for failed obligations, and the bounded stand-in for
//! functions the verifier cannot take.
mod big;
mod gen;
#[cfg(feature = "macros")]
mod mac;
#[cfg(feature = "shapes")]
mod shapes;
#[cfg(feature = "shapes")]
mod arity;
#[cfg(not(feature = "shapes"))]
mod arity {
    pub const FORMS: usize = 1;
    pub fn check(_: usize, _: &crate::model::M, _: &[json::Finder], _: &[String], _: &[json::Json]) -> Result<(), String> { Ok(()) }
}
#[cfg(not(feature = "shapes"))]
mod shapes {
    pub fn check(_: usize, _: &crate::model::M, _: &[String], _: &[json::Json]) -> Result<(), String> { Ok(()) }
}
#[cfg(not(feature = "macros"))]
mod mac {
    pub fn case(_: &mut crate::gen::G) -> crate::Case { vec!["mac".to_string()] }
    pub fn check(_: &str, _: &[String]) -> Result<(), String> { Ok(()) }
}
mod model;
mod num;
mod stdcheck;
mod ty;
use gen::{Lits, Rng, G};
use json::{Json, ToJson};
use model::*;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// kind of check and its arguments
pub type Case = Vec<String>;

fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        format!("{} panicked: {}", what, m)
    })
}
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } } }

fn op(a: &[&str]) -> String {
    M::Arr(a.iter().map(|s| M::Str(s.to_string())).collect()).enc()
}
fn steps_str(p: &[Step]) -> String {
    M::Arr(p.iter().map(|s| M::Str(match s { Step::Key(k) => format!("k{}", k), Step::Idx(i) => format!("#{}", i) })).collect()).enc()
}
fn steps_of(s: &str) -> Vec<Step> {
    match M::dec(s) {
        M::Arr(a) => a.iter().map(|x| match x { M::Str(s) if s.starts_with('#') => Step::Idx(s[1..].parse().unwrap()), M::Str(s) => Step::Key(s[1..].to_string()), _ => panic!() }).collect(),
        _ => panic!(),
    }
}
fn path_of(p: &[Step]) -> json::Path {
    fn f(s: &Step, alt: bool) -> json::Finder {
        match s {
            Step::Key(k) => if alt { json::Finder::from(k) } else { json::Finder::from(k.as_str()) },
            Step::Idx(i) => if alt { json::Finder::from(i) } else { json::Finder::from(*i) },
        }
    }
    let mut r = json::Path::new(f(&p[0], p.len() % 2 == 0));
    for (n, s) in p[1..].iter().enumerate() {
        r.append(f(s, n % 2 == 0));
    }
    r
}
fn show(r: &Result<M, K>) -> String {
    match r { Ok(m) => format!("Ok({})", clip(&m.plain())), Err(k) => format!("Err({:?})", k) }
}
fn clip(s: &str) -> String {
    if s.chars().count() > 300 { s.chars().take(300).collect::<String>() + "..." } else { s.to_string() }
}

/// performs one operation on the document and on the model and compares
fn apply(j: &mut Json, m: &mut M, o: &str) -> Result<bool, String> {
    let a: Vec<String> = match M::dec(o) { M::Arr(a) => a.into_iter().map(|x| match x { M::Str(s) => s, _ => panic!() }).collect(), _ => panic!() };
    let name = a[0].as_str();
    let before = m.clone();
    let mut frame_on_err = true;
    let (real, want): (Result<M, K>, Result<M, K>) = match name {
        "get" => (no_panic(name, || j.get(&a[1]).map(M::of).map_err(|e| kind(&e)))?, steps(&a[1]).and_then(|p| m.find(&p).map(|x| x.clone()))),
        "find" => { let p = steps_of(&a[1]); (no_panic(name, || j.find(path_of(&p)).map(M::of).map_err(|e| kind(&e)))?, m.find(&p).map(|x| x.clone())) }
        "find1" => {
            // a single step given directly
            let p = steps_of(&a[1]);
            let r = no_panic(name, || match &p[0] { Step::Key(k) => j.find(k.as_str()), Step::Idx(i) => j.find(*i) }.map(M::of).map_err(|e| kind(&e)))?;
            (r, m.find(&p[..1]).map(|x| x.clone()))
        }
        "del" => (no_panic(name, || j.del(&a[1]).map(|x| M::of(&x)).map_err(|e| kind(&e)))?, steps(&a[1]).and_then(|p| m.discard(&p))),
        "discard" => { let p = steps_of(&a[1]); (no_panic(name, || j.discard(path_of(&p)).map(|x| M::of(&x)).map_err(|e| kind(&e)))?, m.discard(&p)) }
        "set" | "update" => {
            frame_on_err = false;
            let x = M::dec(&a[2]);
            let y = a.get(3).map(|s| M::dec(s));
            let r = no_panic(name, || {
                let r = if name == "set" { j.set(&a[1], x.json()) } else { j.update(path_of(&steps_of(&a[1])), x.json()) };
                r.map(|l| { let o = M::of(l); if let Some(y) = &y { *l = y.json(); } o }).map_err(|e| kind(&e))
            })?;
            let p = if name == "set" { steps(&a[1]) } else { Ok(steps_of(&a[1])) };
            let w = p.and_then(|p| { m.update(&p, x.clone())?; if let Some(y) = &y { *m.find_mut(&p)? = y.clone(); } Ok(x.clone()) });
            if let (Ok(_), Ok(_), Ok(p), None) = (&r, &w, if name == "set" { steps(&a[1]) } else { Ok(steps_of(&a[1])) }, &y) {
                let again = no_panic("find after set", || j.find(path_of(&p)).map(M::of).map_err(|e| kind(&e)))?;
                ensure!(again == Ok(x.clone()), "after {} {}, looking the path up gives {} instead of {}", name, a[1], show(&again), x.plain());
            }
            (r, w)
        }
        "fmut" => {
            let p = steps_of(&a[1]);
            let y = M::dec(&a[2]);
            let r = no_panic(name, || j.find_mut(path_of(&p)).map(|l| { let o = M::of(l); *l = y.json(); o }).map_err(|e| kind(&e)))?;
            let w = m.find_mut(&p).map(|l| std::mem::replace(l, y.clone()));
            (r, w)
        }
        "idx" | "idxw" => {
            let p = steps_of(&a[1]);
            let y = a.get(2).map(|s| M::dec(s));
            let r = catch_unwind(AssertUnwindSafe(|| match (&p[0], &y) {
                (Step::Key(k), None) => M::of(&j[k.as_str()]),
                (Step::Idx(i), None) => M::of(&j[*i]),
                (Step::Key(k), Some(y)) => { let l = &mut j[k.as_str()]; let o = M::of(l); *l = y.json(); o }
                (Step::Idx(i), Some(y)) => { let l = &mut j[*i]; let o = M::of(l); *l = y.json(); o }
            })).map_err(|_| K::Parse);
            let w = m.find_mut(&p[..1]).map(|l| { let o = l.clone(); if let Some(y) = &y { *l = y.clone(); } o }).map_err(|_| K::Parse);
            (r, w)
        }
        "insert" | "append" | "addopt0" | "addopt1" => {
            let x = M::dec(&a[2]);
            let r = no_panic(name, || match name {
                "insert" => j.insert(a[1].as_str(), x.json()),
                "append" => j.append(&a[1], x.json()),
                "addopt0" => j.add_option(a[1].clone(), x.json(), false),
                _ => j.add_option(a[1].clone(), x.json(), true),
            }.map(|_| M::Null).map_err(|e| kind(&e)))?;
            let w = match m {
                M::Obj(o) => {
                    if name == "insert" || name == "addopt0" { o.insert(a[1].clone(), vec![x]); } else { o.entry(a[1].clone()).or_default().push(x); }
                    Ok(M::Null)
                }
                _ => Err(K::InvalidValueKind),
            };
            (r, w)
        }
        "delete" => {
            let r = no_panic(name, || j.delete(&a[1]).map(|_| M::Null).map_err(|e| kind(&e)))?;
            let w = match m { M::Obj(o) => { o.remove(&a[1]); Ok(M::Null) } _ => Err(K::InvalidValueKind) };
            (r, w)
        }
        "merge" => {
            let r = no_panic(name, || j.index_and_merge(&a[1]).map(|v| M::Arr(v.into_iter().map(M::of).collect())).map_err(|e| kind(&e)))?;
            let w = match m { M::Obj(o) => o.get(&a[1]).map(|v| M::Arr(v.clone())).ok_or(K::MissingKey), _ => Err(K::InvalidValueKind) };
            (r, w)
        }
        "push" => {
            let x = M::dec(&a[1]);
            let r = no_panic(name, || j.push(x.json()).map(|_| M::Null).map_err(|e| kind(&e)))?;
            let w = match m { M::Arr(v) => { v.push(x); Ok(M::Null) } _ => Err(K::InvalidValueKind) };
            (r, w)
        }
        "replace" => {
            let (i, x) = (a[1].parse::<usize>().unwrap(), M::dec(&a[2]));
            let r = no_panic(name, || j.replace(i, x.json()).map(|_| M::Null).map_err(|e| kind(&e)))?;
            let w = match m { M::Arr(v) => if i < v.len() { v[i] = x; Ok(M::Null) } else { Err(K::IndexOutOfRange) }, _ => Err(K::InvalidValueKind) };
            (r, w)
        }
        "remove" => {
            let i = a[1].parse::<usize>().unwrap();
            let r = no_panic(name, || j.remove(i).map(|_| M::Null).map_err(|e| kind(&e)))?;
            let w = match m { M::Arr(v) => if i < v.len() { v.remove(i); Ok(M::Null) } else { Err(K::IndexOutOfRange) }, _ => Err(K::InvalidValueKind) };
            (r, w)
        }
        "ser" => {
            let t = no_panic(name, || j.to_string())?;
            (rfc(&t).ok_or(K::Parse), Ok(m.norm()))
        }
        _ => panic!("unknown operation"),
    };
    ensure!(real == want, "{} gave {}, expected {}", clip(&format!("{:?} on {}", a, before.plain())), show(&real), show(&want));
    if want.is_err() && !frame_on_err {
        return Ok(false);
    }
    ensure!(M::of(j) == *m, "after {} the document is {}, expected {}", clip(&format!("{:?} on {}", a, before.plain())), clip(&M::of(j).plain()), clip(&m.plain()));
    Ok(true)
}

/// order of object members in a JSON text: keys never descend
fn keys_sorted(t: &str) -> bool {
    // a small scanner over a text already known to be valid
    let c: Vec<char> = t.chars().collect();
    let mut st: Vec<Option<String>> = vec![];
    let (mut i, mut expect_key) = (0, vec![]);
    while i < c.len() {
        match c[i] {
            '{' => { st.push(None); expect_key.push(true); i += 1 }
            '[' => { st.push(None); expect_key.push(false); i += 1 }
            '}' | ']' => { st.pop(); expect_key.pop(); i += 1 }
            ',' => { i += 1; }
            '"' => {
                let b = i;
                i += 1;
                while c[i] != '"' { if c[i] == '\\' { i += 1; } i += 1; }
                i += 1;
                let mut k = i;
                while k < c.len() && c[k].is_whitespace() { k += 1; }
                if k < c.len() && c[k] == ':' && expect_key.last() == Some(&true) {
                    let key = match rfc(&c[b..i].iter().collect::<String>()) { Some(M::Str(s)) => s, _ => return false };
                    let l = st.last_mut().unwrap();
                    if let Some(p) = l { if *p > key { return false; } }
                    *l = Some(key);
                }
            }
            _ => i += 1,
        }
    }
    true
}
fn esc_ok(s: &str, t: &str) -> bool {
    // exactly the canonical escape of each character
    let body = match t.strip_prefix('"').and_then(|x| x.strip_suffix('"')) { Some(b) => b, None => return false };
    let mut rest = body;
    for c in s.chars() {
        let u = c as u32;
        let want = match c {
            '"' => "\\\"".to_string(), '\\' => "\\\\".into(), '/' => "\\/".into(), '\u{8}' => "\\b".into(), '\u{c}' => "\\f".into(), '\n' => "\\n".into(), '\r' => "\\r".into(), '\t' => "\\t".into(),
            c if (0x20..0x7f).contains(&u) => c.to_string(),
            _ if u < 0x10000 => format!("\\u{:04x}", u),
            _ => format!("\\u{:04x}\\u{:04x}", 0xD800 + ((u - 0x10000) >> 10), 0xDC00 + ((u - 0x10000) & 0x3ff)),
        };
        let got: String = match rest.get(..want.len()) { Some(g) => g.to_string(), None => return false };
        if !(got == want || want.starts_with("\\u") && got.to_ascii_lowercase() == want && got.as_bytes()[1] == b'u') { return false; }
        rest = &rest[want.len()..];
    }
    rest.is_empty()
}

pub fn run(prop: &str, c: &Case) -> Result<(), String> {
    match c[0].as_str() {
        "parse" => {
            let t = &c[1];
            let want = rfc(t);
            let got = no_panic("Json::parse", || Json::parse(t))?;
            if prop == "C06" { return Ok(()); }
            let got2 = no_panic("Json::from_str", || Json::from_str(t))?;
            let got3 = no_panic("decode", || json::decode::<Json>(t))?;
            for (w, got) in [("Json::parse", got), ("Json::from_str", got2), ("decode::<Json>", got3)] {
                match (&got, &want) {
                    (Ok(_), None) if prop != "C02" && prop != "C04" => return Err(format!("{} accepts a text that is not JSON: {:?}", w, clip(t))),
                    (Err(e), Some(_)) => return Err(format!("{} rejects a JSON text with {}: {:?}", w, e, clip(t))),
                    (Ok(j), Some(m)) if prop != "C01" && M::of(j) != *m => return Err(format!("{} gives {} for the text {:?}", w, clip(&M::of(j).plain()), clip(t))),
                    (Err(e), None) if prop == "C20" && kind(e) != K::Parse => return Err(format!("{} fails with {:?}, expected a parse error: {:?}", w, e.kind, clip(t))),
                    _ => {}
                }
            }
            Ok(())
        }
        "ser" => {
            let m = M::dec(&c[1]);
            let t = no_panic("to_string", || m.json().to_string())?;
            if prop == "C06" { return Ok(()); }
            ensure!(t.chars().all(|c| (' '..='~').contains(&c)), "text with characters outside printable ASCII: {:?}", clip(&t));
            let v = rfc(&t);
            ensure!(v.is_some(), "serialized text is not JSON: {:?}", clip(&t));
            ensure!(v.as_ref() == Some(&m.norm()), "serialized text {:?} denotes another value than {}", clip(&t), clip(&m.plain()));
            ensure!(keys_sorted(&t), "members are not sorted by key: {}", clip(&t));
            ensure!(m.json2().to_string() == t, "equal values serialize differently: {}", clip(&t));
            ensure!(json::encode(&m.json()) == t, "encode differs from to_string: {}", clip(&t));
            Ok(())
        }
        "round" => {
            let m = M::dec(&c[1]);
            let t = no_panic("to_string", || m.json().to_string())?;
            let r = no_panic("parse", || Json::parse(&t))?;
            match r {
                Ok(j) if M::of(&j) == m.norm() => Ok(()),
                Ok(j) => Err(format!("{} serializes to {:?} and parses back to {}", clip(&m.plain()), clip(&t), clip(&M::of(&j).plain()))),
                Err(e) => Err(format!("{} serializes to {:?}, which does not parse: {}", clip(&m.plain()), clip(&t), e)),
            }
        }
        "str" => {
            let s = &c[1];
            let t = no_panic("to_string", || Json::String(s.clone()).to_string())?;
            ensure!(esc_ok(s, &t), "string {:?} is written as {}", clip(s), clip(&t));
            let b = no_panic("parse", || Json::parse(&t))?;
            ensure!(matches!(&b, Ok(Json::String(x)) if x == s), "string {:?} is written as {} and read as {:?}", clip(s), clip(&t), b);
            let k = Json::Object([(s.clone(), (Json::Null, Default::default()))].into_iter().collect::<HashMap<_, _>>());
            let t = no_panic("to_string", || k.to_string())?;
            let b = no_panic("parse", || Json::parse(&t))?;
            ensure!(b.as_ref().map(M::of).ok() == Some(M::of(&k)), "key {:?} is written as {} and read as {:?}", clip(s), clip(&t), b);
            Ok(())
        }
        "ops" => {
            let mut m = M::dec(&c[1]);
            let mut j = m.json();
            for o in &c[2..] {
                if !apply(&mut j, &mut m, o)? { break; }
            }
            Ok(())
        }
        "path" => {
            // the path leads to a marker in the document built for its steps
            let t = &c[1];
            let marker = M::Str("here".into());
            match steps(t) {
                Err(_) => {
                    let mut d = M::Obj(Default::default()).json();
                    for d in [&mut d, &mut Json::Null, &mut Json::Array(vec![])] {
                        let before = M::of(d);
                        let r = no_panic("get", || d.get(t).map(M::of).map_err(|e| kind(&e)))?;
                        ensure!(r == Err(K::PathSyntax), "path {:?}: get gives {}, expected a path-syntax error", clip(t), show(&r));
                        let r = no_panic("del", || d.del(t).map(|x| M::of(&x)).map_err(|e| kind(&e)))?;
                        ensure!(r == Err(K::PathSyntax), "path {:?}: del gives {}, expected a path-syntax error", clip(t), show(&r));
                        let r = no_panic("set", || d.set(t, true).map(|x| M::of(x)).map_err(|e| kind(&e)))?;
                        ensure!(r == Err(K::PathSyntax), "path {:?}: set gives {}, expected a path-syntax error", clip(t), show(&r));
                        ensure!(M::of(d) == before, "path {:?}: failing set changed the document", clip(t));
                    }
                }
                Ok(p) => {
                    let n = p.iter().position(|s| matches!(s, Step::Idx(i) if *i > 3000)).unwrap_or(p.len());
                    let mut d = if n == p.len() { marker.clone() } else { M::Arr(vec![M::Null]) };
                    for s in p[..n].iter().rev() {
                        d = match s {
                            Step::Key(k) => M::Obj([(k.clone(), vec![M::Null, d])].into_iter().collect()),
                            Step::Idx(i) => { let mut v = vec![M::Null; *i]; v.push(d); v.push(M::Null); M::Arr(v) }
                        };
                    }
                    let want = if n == p.len() { Ok(marker) } else { Err(K::IndexOutOfRange) };
                    let j = d.json();
                    let r = no_panic("get", || j.get(t).map(M::of).map_err(|e| kind(&e)))?;
                    ensure!(r == want, "path {:?} read as {:?}: get gives {}", clip(t), p.iter().take(20).collect::<Vec<_>>(), show(&r));
                }
            }
            Ok(())
        }
        "text" => text_case(c),
        "num" => num::check(&c[1], &c[2]),
        "ty" => {
            let t = ty::TYS.iter().find(|t| t.name == c[1]).unwrap();
            let m = M::dec(&c[2]);
            no_panic("conversion", || (t.check)(&m))?.map_err(|e| format!("{}: {} (value {})", t.name, e, clip(&m.plain())))
        }
        "mac" if c.len() > 1 => no_panic("macro", || mac::check(&c[1], &c[2..]))?,
        "mac" => Ok(()),
        x => panic!("unknown kind {}", x),
    }
}
fn text_case(c: &Case) -> Result<(), String> {
    let t = &c[2];
    let v = rfc(t).ok_or(K::Parse);
    fn as_m<T: ToJson>(r: Result<T, json::Error>) -> Result<M, K> { r.map(|x| M::of(&x.to_json())).map_err(|e| kind(&e)) }
    fn conv(m: &M, ty: &str) -> Result<M, K> {
        let ok = match (ty, m) {
            ("json", _) => true,
            ("str", M::Str(_)) | ("bool", M::Bool(_)) | ("f64", M::Num(_)) | ("vec", M::Arr(_)) => true,
            ("opt", M::Null) | ("opt", M::Bool(_)) => true,
            ("strs", M::Arr(a)) => a.iter().all(|x| matches!(x, M::Str(_))),
            _ => false,
        };
        if ok { Ok(m.clone()) } else { Err(K::Convert) }
    }
    let (real, want) = match c[1].as_str() {
        "tget" => {
            let (p, ty) = (&c[3], c[4].as_str());
            let real = no_panic("get", || match ty {
                "json" => as_m(json::get::<Json>(t, p)), "str" => as_m(json::get::<String>(t, p)), "bool" => as_m(json::get::<bool>(t, p)), "f64" => as_m(json::get::<f64>(t, p)),
                "vec" => as_m(json::get::<Vec<Json>>(t, p)), "opt" => as_m(json::get::<Option<bool>>(t, p)), _ => as_m(json::get::<Vec<String>>(t, p)),
            })?;
            let want = v.and_then(|v| { let p = steps(p)?; let x = v.find(&p)?; conv(x, ty) });
            (real, want)
        }
        "tdec" => {
            let ty = c[3].as_str();
            let real = no_panic("decode", || match ty {
                "json" => as_m(json::decode::<Json>(t)), "str" => as_m(json::decode::<String>(t)), "bool" => as_m(json::decode::<bool>(t)), "f64" => as_m(json::decode::<f64>(t)),
                "vec" => as_m(json::decode::<Vec<Json>>(t)), "opt" => as_m(json::decode::<Option<bool>>(t)), _ => as_m(json::decode::<Vec<String>>(t)),
            })?;
            (real, v.and_then(|v| conv(&v, ty)))
        }
        "tset" => {
            let (p, x) = (&c[3], M::dec(&c[4]));
            let real = no_panic("set", || json::set(t, p, x.json()).map_err(|e| kind(&e)))?;
            if let (Ok(r), Ok(_)) = (&real, &x.finite().then_some(()).ok_or(())) {
                let back = no_panic("get", || as_m(json::get::<Json>(r, p)))?;
                ensure!(back == Ok(x.clone()), "get after set of {:?} on {:?} gives {}, expected {}", p, clip(t), show(&back), clip(&x.plain()));
            }
            let real = match real { Ok(r) => Ok(rfc(&r).ok_or(format!("set returns a text that is not JSON: {:?}", clip(&r)))?), Err(k) => Err(k) };
            let want = v.and_then(|mut v| { let p = steps(p)?; v.update(&p, x.clone())?; Ok(v.norm()) });
            (real, want)
        }
        "tdel" => {
            let p = &c[3];
            let real = no_panic("del", || json::del(t, p).map_err(|e| kind(&e)))?;
            let real = match real { Ok(r) => Ok(rfc(&r).ok_or(format!("del returns a text that is not JSON: {:?}", clip(&r)))?), Err(k) => Err(k) };
            let want = v.and_then(|mut v| { let p = steps(p)?; v.discard(&p)?; Ok(v.norm()) });
            (real, want)
        }
        "tenc" => {
            let m = M::dec(&c[3]);
            let real = no_panic("encode", || json::encode(&m.json()))?;
            (rfc(&real).ok_or(K::Parse), Ok(m.norm()))
        }
        _ => panic!(),
    };
    ensure!(real == want, "{} {:?} on the text {:?} gave {}, expected {}", c[1], &c[3..].iter().map(|s| clip(s)).collect::<Vec<_>>(), clip(t), show(&real), show(&want));
    Ok(())
}

// ---- generation of cases --------------------------------------------------------------------------
fn enumerate(prop: &str, n: u64) -> Option<Case> {
    // an exhaustive part, indexed by n
    fn words(tok: &[&str], mut n: u64, max: usize) -> Result<String, u64> {
        let b = tok.len() as u64;
        for l in 0..=max {
            let c = b.pow(l as u32);
            if n < c {
                let mut s = String::new();
                for _ in 0..l { s.push_str(tok[(n % b) as usize]); n /= b; }
                return Ok(s);
            }
            n -= c;
        }
        Err(n)
    }
    match prop {
        "C01" | "C02" | "C20" => {
            let n = match words(&["{", "}", "[", "]", ",", ":", "\"", "\\", " ", "0", "a", "1"], n, 5) { Ok(s) => return Some(vec!["parse".into(), s]), Err(n) => n };
            let n = match words(&["0", "1", "-", "+", ".", "e", "E", "5"], n, 6) { Ok(s) => return Some(vec!["parse".into(), s]), Err(n) => n };
            let n = match words(&["{", "}", "[", "]", ",", ":", "\"a\"", "1", "[]", "{}", " "], n, 5) { Ok(s) => return Some(vec!["parse".into(), s]), Err(n) => n };
            let n = match words(&["\\", "u", "\"", "d", "8", "0", "n", "a"], n, 5) { Ok(s) => return Some(vec!["parse".into(), format!("\"{}\"", s)]), Err(n) => n };
            if n < 0x10000 { return Some(vec!["parse".into(), format!("\"\\u{:04x}\"", n)]); }
            let n = n - 0x10000;
            if n < 0x10000 { return Some(vec!["parse".into(), format!("\"\\u{:04X}\\uDC37\"", n)]); }
            let n = n - 0x10000;
            if n < 0x10000 { return Some(vec!["parse".into(), format!("\"\\uD83d\\u{:04x}\"", n)]); }
            let n = n - 0x10000;
            if n < 0x3000 { return char::from_u32(n as u32).map(|c| vec!["parse".into(), format!("\"{}\"", c)]).or(Some(vec!["parse".into(), String::new()])); }
            let n = n - 0x3000;
            if n < 0x3000 { return char::from_u32(n as u32).map(|c| vec!["parse".into(), format!("{}1", c)]); }
            let n = n - 0x3000;
            if n < 0x3000 { return char::from_u32(n as u32).map(|c| vec!["parse".into(), format!("[1{},2]", c)]); }
            let n = n - 0x3000;
            if n < 0x3000 { return char::from_u32(n as u32).map(|c| vec!["parse".into(), format!("\"\\{}\"", c)]); }
            None
        }
        "C05" => {
            if n < 0x110000 { Some(match char::from_u32(n as u32) { Some(c) => vec!["str".into(), c.to_string()], None => vec!["str".into(), String::new()] }) } else { None }
        }
        "C04" | "C03" => if n < 0x3000 { char::from_u32(n as u32).map(|c| vec![if prop == "C03" { "ser".into() } else { "round".into() }, M::Arr(vec![M::Str(c.to_string()), M::Num(n as f64)]).enc()]) } else { None },
        "C07" => words(&[".", "\\", "#", "a", "0", "1", "+"], n, 6).ok().map(|s| vec!["path".into(), s]),
        _ => None,
    }
}
fn ops_case(g: &mut G, names: &[&str]) -> Case {
    let d = if names.contains(&"append") && g.r.below(3) > 0 { g.obj(2, 60) } else if names.contains(&"push") && g.r.below(3) > 0 { g.arr(2, 600) } else { g.root() };
    let mut m = d.clone();
    let mut c = vec!["ops".to_string(), d.enc()];
    let n = 1 + match g.r.below(4) { 0 => 0, 1 => g.r.below(4), 2 => g.r.below(10), _ => g.size(60) };
    for _ in 0..n {
        let name = *g.r.pick(names);
        let mut p = g.steps(&m);
        let len = match &m { M::Arr(a) => a.len(), _ => 1 };
        let k = match &m { M::Obj(o) if !o.is_empty() && g.r.below(3) > 0 => { let i = g.r.below(o.len()); o.keys().nth(i).unwrap().clone() } _ => g.key() };
        let i = g.idx(len).to_string();
        let x = if g.r.one(5) { g.root() } else { g.doc(1, 6) }.enc();
        let y = g.doc(1, 6).enc();
        let o = match name {
            "get" | "del" => op(&[name, &g.path_of(&p)]),
            "find" | "find1" | "discard" => op(&[name, &steps_str(&p)]),
            "set" => { let t = g.path_of(&p); if g.r.one(5) { op(&[name, &t, &x, &y]) } else { op(&[name, &t, &x]) } }
            "update" => if g.r.one(3) { op(&[name, &steps_str(&p), &x, &y]) } else { op(&[name, &steps_str(&p), &x]) },
            "fmut" => op(&[name, &steps_str(&p), &y]),
            "idx" => { p.truncate(1); op(&[name, &steps_str(&p)]) }
            "idxw" => { p.truncate(1); op(&[name, &steps_str(&p), &y]) }
            "insert" | "append" | "addopt0" | "addopt1" => op(&[name, &k, &x]),
            "delete" | "merge" => op(&[name, &k]),
            "push" => op(&[name, &x]),
            "replace" => op(&[name, &i, &x]),
            "remove" => op(&[name, &i]),
            "ser" => op(&[name]),
            _ => panic!(),
        };
        // keep the model document current so that later operations hit existing places
        let mut scratch = m.clone();
        model_only(&mut scratch, &o);
        m = scratch;
        c.push(o);
    }
    c
}
fn model_only(m: &mut M, o: &str) {
    let a: Vec<String> = match M::dec(o) { M::Arr(a) => a.into_iter().map(|x| match x { M::Str(s) => s, _ => panic!() }).collect(), _ => panic!() };
    match a[0].as_str() {
        "del" => { if let Ok(p) = steps(&a[1]) { let _ = m.discard(&p); } }
        "discard" => { let _ = m.discard(&steps_of(&a[1])); }
        "set" => { if let Ok(p) = steps(&a[1]) { let _ = m.update(&p, M::dec(&a[2])); } }
        "update" => { let _ = m.update(&steps_of(&a[1]), M::dec(&a[2])); }
        "fmut" => { if let Ok(l) = m.find_mut(&steps_of(&a[1])) { *l = M::dec(&a[2]); } }
        "insert" | "addopt0" => if let M::Obj(o) = m { o.insert(a[1].clone(), vec![M::dec(&a[2])]); },
        "append" | "addopt1" => if let M::Obj(o) = m { o.entry(a[1].clone()).or_default().push(M::dec(&a[2])); },
        "delete" => if let M::Obj(o) = m { o.remove(&a[1]); },
        "push" => if let M::Arr(v) = m { v.push(M::dec(&a[1])); },
        "remove" => if let M::Arr(v) = m { let i: usize = a[1].parse().unwrap(); if i < v.len() { v.remove(i); } },
        _ => {}
    }
}
fn text_ops(g: &mut G) -> Case {
    let m = g.root();
    let t = { let t = g.text(&m); if g.r.one(8) { g.mutate(&t) } else { t } };
    let p = g.steps(&m);
    let p = if g.r.one(10) { g.path_text() } else { g.path_of(&p) };
    let big = |p: &str| steps(p).map(|s| s.iter().any(|x| matches!(x, Step::Idx(i) if *i > 6000 && *i < 1 << 57))).unwrap_or(false);
    let ty = g.r.pick(&["json", "json", "json", "str", "bool", "f64", "vec", "opt", "strs"]).to_string();
    match g.r.below(8) {
        0..=2 => vec!["text".into(), "tget".into(), t, p, ty],
        3 | 4 if !big(&p) => { let x = g.doc(1, 8).enc(); vec!["text".into(), "tset".into(), t, p, x] }
        5 => vec!["text".into(), "tdel".into(), t, p],
        6 => { let x = g.root().enc(); vec!["text".into(), "tenc".into(), String::new(), x] }
        _ => vec!["text".into(), "tdec".into(), t, ty],
    }
}
const ALL_OPS: &[&str] = &["get", "find", "find1", "del", "discard", "set", "update", "fmut", "insert", "append", "addopt0", "addopt1", "delete", "merge", "push", "replace", "remove", "ser"];
fn random(prop: &str, g: &mut G) -> Case {
    match prop {
        "C01" | "C02" => vec!["parse".into(), g.parse_text()],
        "C03" => vec!["ser".into(), g.root().enc()],
        "C04" => vec!["round".into(), g.root().enc()],
        "C05" => match g.r.below(3) { 0 => { let n = g.size(5000); vec!["str".into(), (0..n).map(|_| g.ch()).collect()] } _ => vec!["str".into(), g.string(5000)] },
        "C06" => match g.r.below(10) {
            0 | 1 => vec!["parse".into(), g.parse_text()],
            2 => vec!["ser".into(), g.root().enc()],
            3 => text_ops(g),
            4 => vec!["path".into(), g.path_text()],
            5 => ty_case(g),
            6 => num::case(g),
            7 => { let m = g.deep(); let t = g.text(&m); let mut t = if g.r.one(2) { g.mutate(&t) } else { t }; if g.r.one(4) { let mut n = g.r.below(t.len() + 1); while !t.is_char_boundary(n) { n -= 1; } t.truncate(n); } vec!["parse".into(), t] }
            _ => ops_case(g, ALL_OPS),
        },
        "C07" => if g.r.one(3) { let m = g.root(); let p = g.steps(&m); vec!["path".into(), g.path_of(&p)] } else { vec!["path".into(), g.path_text()] },
        "C08" => ops_case(g, &["get", "find", "find1"]),
        "C09" => ops_case(g, &["set", "update"]),
        "C10" => ops_case(g, &["del", "discard"]),
        "C11" => ops_case(g, &["insert", "append", "addopt0", "addopt1", "delete", "merge", "append"]),
        "C12" => ops_case(g, &["push", "replace", "remove"]),
        "C13" => num::case(g),
        "C14" => ty_case(g),
        "C17" => mac::case(g),
        "C18" => text_ops(g),
        "C19" => ops_case(g, &["fmut", "idx", "idxw", "fmut"]),
        "C20" => match g.r.below(6) {
            0 => vec!["parse".into(), g.parse_text()],
            1 => vec!["path".into(), g.path_text()],
            2 => ty_case(g),
            3 => text_ops(g),
            _ => ops_case(g, ALL_OPS),
        },
        _ => panic!("unknown property {}", prop),
    }
}
fn ty_case(g: &mut G) -> Case {
    let t = g.r.pick(ty::TYS);
    let m = match g.r.below(6) {
        0 => g.doc(2, 8),
        1 => {
            // one element of the wrong kind
            let mut m = (t.gen)(g);
            let x = g.doc(1, 4);
            match &mut m {
                M::Arr(a) if !a.is_empty() => { let i = g.r.below(a.len()); a[i] = x; }
                M::Obj(o) if !o.is_empty() => { let i = g.r.below(o.len()); let v = o.values_mut().nth(i).unwrap(); let j = g.r.below(v.len()); v[j] = x; }
                m => *m = x,
            }
            m
        }
        _ => (t.gen)(g),
    };
    vec!["ty".into(), t.name.to_string(), m.enc()]
}

fn shrink(prop: &str, mut c: Case, until: Instant) -> Case {
    // texts: drop chunks; operation lists: drop operations
    let fails = |c: &Case| catch_unwind(AssertUnwindSafe(|| run(prop, c))).map(|r| r.is_err()).unwrap_or(false);
    if c[0] == "ops" {
        let mut i = c.len();
        while i > 2 && Instant::now() < until {
            i -= 1;
            let mut d = c.clone();
            d.remove(i);
            if fails(&d) { c = d; }
        }
    }
    let arg = match c[0].as_str() { "parse" | "str" | "path" => 1, "text" => 2, _ => return c };
    let mut n = c[arg].chars().count() / 2;
    while n > 0 && Instant::now() < until {
        let mut i = 0;
        loop {
            let s: Vec<char> = c[arg].chars().collect();
            if i >= s.len() || Instant::now() >= until { break; }
            let mut d = c.clone();
            d[arg] = s[..i].iter().chain(s[(i + n).min(s.len())..].iter()).collect();
            if fails(&d) { c = d; } else { i += n; }
        }
        n /= 2;
    }
    c
}

fn write_case(path: &str, prop: &str, c: &Case, why: &str) {
    let m = M::Obj([("property".to_string(), vec![M::Str(prop.into())]), ("case".to_string(), vec![M::Arr(c.iter().map(|s| M::Str(s.clone())).collect())]), ("what".to_string(), vec![M::Str(why.into())])].into_iter().collect());
    std::fs::write(path, m.plain() + "\n").unwrap();
}
fn lits(path: &str) -> Lits {
    let mut l = Lits::default();
    if let Ok(t) = std::fs::read_to_string(path) {
        if let Some(M::Obj(o)) = rfc(&t) {
            let strs = |k: &str| -> Vec<String> { match o.get(k) { Some(v) => match &v[0] { M::Arr(a) => a.iter().filter_map(|x| match x { M::Str(s) => Some(s.clone()), _ => None }).collect(), _ => vec![] }, None => vec![] } };
            l.strs = strs("strs");
            l.hot_strs = strs("hot_strs");
            l.ints = strs("ints").iter().filter_map(|s| s.parse().ok()).collect();
            l.hot_ints = strs("hot_ints").iter().filter_map(|s| s.parse().ok()).collect();
        }
    }
    l
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    if a[1] == "stdcheck" {
        match stdcheck::run() {
            Ok(v) => v.iter().for_each(|l| println!("ASSUMED {}", l)),
            Err(v) => {
                v.iter().take(20).for_each(|l| println!("WRONG {}", l));
                std::process::exit(1);
            }
        }
        return;
    }
    if a[1] == "replay" {
        let t = std::fs::read_to_string(&a[2]).unwrap();
        let o = match rfc(&t) { Some(M::Obj(o)) => o, _ => panic!("not a case file") };
        let s = |k: &str| match &o[k][0] { M::Str(s) => s.clone(), _ => panic!() };
        let c: Case = match &o["case"][0] { M::Arr(a) => a.iter().map(|x| match x { M::Str(s) => s.clone(), _ => panic!() }).collect(), _ => panic!() };
        let p = s("property");
        let r = std::thread::Builder::new().stack_size(512 << 20).spawn(move || run(&p, &c)).unwrap().join().unwrap();
        match r {
            Ok(()) => println!("the case passes"),
            Err(e) => {
                println!("the case fails: {}", e);
                std::process::exit(1);
            }
        }
        return;
    }
    // search PROP SECS SEED LITS OUT
    let (prop, secs, seed, litf, out) = (a[2].clone(), a[3].parse::<f64>().unwrap(), a[4].parse::<u64>().unwrap(), a[5].clone(), a[6].clone());
    let l = lits(&litf);
    let trace = std::env::var("TRACE").ok();
    let threads = if trace.is_some() { 1u64 } else { 8u64 };
    let samples: Arc<Mutex<Vec<Case>>> = Arc::new(Mutex::new(vec![]));
    let start = Instant::now();
    let deadline = start + Duration::from_secs_f64(secs);
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<Option<(Case, String)>>> = Arc::new(Mutex::new(None));
    let counts = Arc::new((AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)));
    let current: Arc<Vec<Mutex<Option<(Instant, Case)>>>> = Arc::new((0..threads).map(|_| Mutex::new(None)).collect());
    let big = Arc::new(big::cases(&prop, &l));
    if std::env::var("BIGTIME").is_ok() {
        let mut v: Vec<(Duration, String)> = big.iter().map(|c| { let s = Instant::now(); let r = run(&prop, c); if let Err(e) = r { println!("{}", clip(&e)); } (s.elapsed(), c.iter().map(|x| clip(x)).collect::<Vec<_>>().join(" | ")) }).collect();
        v.sort();
        println!("{} cases, {:?}", v.len(), v.iter().map(|x| x.0).sum::<Duration>());
        for x in v.iter().rev().take(5) { println!("{:?} {}", x.0, &x.1); }
        return;
    }
    let next_big = Arc::new(AtomicU64::new(0));
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let (big, next_big) = (big.clone(), next_big.clone());
            let (prop, l, stop, found, counts, current, trace, samples) = (prop.clone(), l.clone(), stop.clone(), found.clone(), counts.clone(), current.clone(), trace.clone(), samples.clone());
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || {
                    let mut g = G { r: Rng(0x9E3779B97F4A7C15u64.wrapping_mul(seed.wrapping_add(1)).wrapping_add(t.wrapping_mul(0xD1B54A32D192ED03)) | 1), l };
                    for _ in 0..8 { g.r.next(); }
                    let mut n = t;
                    let mut ex = true;
                    let mut turn = 0u64;
                    while !stop.load(Ordering::Relaxed) && Instant::now() < deadline {
                        turn += 1;
                        let b = if turn % 4 == 1 { next_big.fetch_add(1, Ordering::Relaxed) as usize } else { usize::MAX };
                        let c = if b < big.len() {
                            counts.1.fetch_add(1, Ordering::Relaxed);
                            big[b].clone()
                        } else if ex && turn % 2 == 0 {
                            match enumerate(&prop, n) {
                                Some(c) => { n += threads; counts.1.fetch_add(1, Ordering::Relaxed); c }
                                None => { ex = false; counts.2.fetch_add(1, Ordering::Relaxed); continue }
                            }
                        } else {
                            random(&prop, &mut g)
                        };
                        *current[t as usize].lock().unwrap() = Some((Instant::now(), c.clone()));
                        if turn % 9973 == 3 && t == 0 { let mut s = samples.lock().unwrap(); if s.len() < 4 { s.push(c.clone()); } }
                        if let Some(tr) = &trace { write_case(tr, &prop, &c, "traced"); }
                        let r = catch_unwind(AssertUnwindSafe(|| run(&prop, &c)));
                        *current[t as usize].lock().unwrap() = None;
                        counts.0.fetch_add(1, Ordering::Relaxed);
                        match r {
                            Ok(Ok(())) => {}
                            Ok(Err(e)) => {
                                let mut f = found.lock().unwrap();
                                if f.is_none() { *f = Some((c, e)); }
                                stop.store(true, Ordering::Relaxed);
                            }
                            Err(e) => {
                                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                                eprintln!("internal error of the search on {:?}: {}", c.iter().map(|s| clip(s)).collect::<Vec<_>>(), m);
                                std::process::exit(3);
                            }
                        }
                    }
                })
                .unwrap()
        })
        .collect();
    // watchdog
    let limit = Duration::from_secs(20);
    loop {
        std::thread::sleep(Duration::from_millis(50));
        if hs.iter().all(|h| h.is_finished()) { break; }
        let rss = std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4096;
        if rss > 8 << 30 {
            // some call allocates without bound: the one that has been running longest
            let mut cs: Vec<(Instant, Case)> = current.iter().filter_map(|c| c.lock().unwrap().clone()).collect();
            cs.sort_by_key(|c| c.0);
            if let Some((t, c)) = cs.into_iter().next() {
                if t.elapsed() > Duration::from_millis(100) {
                    write_case(&out, &prop, &c, "the operation allocates without bound");
                    println!("FOUND the operation allocates without bound");
                    println!("COUNT {} exhaustive {}", counts.0.load(Ordering::Relaxed), counts.1.load(Ordering::Relaxed));
                    std::process::exit(1);
                }
            }
        }
        for c in current.iter() {
            let c = c.lock().unwrap();
            if let Some((t, c)) = &*c {
                if t.elapsed() > limit {
                    write_case(&out, &prop, c, "the operation does not finish within 20 s");
                    println!("FOUND the operation does not finish within 20 s");
                    println!("COUNT {} exhaustive {}", counts.0.load(Ordering::Relaxed), counts.1.load(Ordering::Relaxed));
                    std::process::exit(1);
                }
            }
        }
    }
    let f = found.lock().unwrap().take();
    for c in samples.lock().unwrap().iter() { println!("SAMPLE {}", M::Arr(c.iter().map(|s| M::Str(clip(s))).collect()).plain()); }
    println!("COUNT {} exhaustive {} complete {}", counts.0.load(Ordering::Relaxed), counts.1.load(Ordering::Relaxed), counts.2.load(Ordering::Relaxed) == threads);
    if let Some((c, why)) = f {
        let p2 = prop.clone();
        let (c, why) = std::thread::Builder::new()
            .stack_size(512 << 20)
            .spawn(move || {
                let c = shrink(&p2, c, Instant::now() + Duration::from_secs(5));
                let why = run(&p2, &c).err().unwrap_or(why);
                (c, why)
            })
            .unwrap()
            .join()
            .unwrap();
        write_case(&out, &prop, &c, &why);
        println!("FOUND {}", why.replace('\n', " "));
        std::process::exit(1);
    }
}
