//! The macros, against the calls they abbreviate.
use crate::gen::G;
use crate::model::{Step, M};
use crate::Case;
use json::{array, discard, find, object, path, update, Json, Path};
use std::cell::RefCell;

const FORMS: usize = 28;
pub fn case(g: &mut G) -> Case {
    let n = g.r.below(if cfg!(feature = "shapes") { FORMS + 2 * crate::arity::FORMS } else { 24 });
    let f = (if n < FORMS { n } else { FORMS + (n - FORMS) % crate::arity::FORMS }).to_string();
    let d = g.root();
    let mut c = vec!["mac".to_string(), f, d.enc()];
    for _ in 0..4 {
        let k = g.key();
        c.push(k);
    }
    for _ in 0..4 {
        let v = g.doc(1, 6);
        c.push(v.enc());
    }
    for _ in 0..2 { c.push(g.r.below(5).to_string()); }
    // six steps that lead somewhere for most prefixes
    let mut st = g.steps(&d);
    while st.len() < 6 { let k = if g.r.one(2) { Step::Idx(g.r.below(3)) } else { Step::Key(g.key()) }; st.push(k); }
    st.truncate(6);
    for s in st.iter_mut() { if let Step::Idx(i) = s { *i = (*i).min(9) } }
    c.push(crate::steps_str(&st));
    c
}
pub fn eq(what: &str, a: &Json, b: &Json) -> Result<(), String> {
    if M::of(a) == M::of(b) { Ok(()) } else { Err(format!("{} gives {}, expected {}", what, M::of(a).plain(), M::of(b).plain())) }
}
pub fn obj(items: &[(&String, &Json)]) -> Json {
    let mut m: std::collections::BTreeMap<String, Vec<M>> = Default::default();
    for (k, v) in items { m.entry(k.to_string()).or_default().push(M::of(v)); }
    M::Obj(m).json()
}
fn same(what: &str, a: Result<M, String>, b: Result<M, String>) -> Result<(), String> {
    if a == b { Ok(()) } else { Err(format!("{} gives {:?}, the calls give {:?}", what, a, b)) }
}
fn re(r: Result<&Json, json::Error>) -> Result<M, String> { r.map(M::of).map_err(|e| format!("{:?}", e.kind)) }
fn rm(r: Result<&mut Json, json::Error>) -> Result<M, String> { r.map(|x| M::of(x)).map_err(|e| format!("{:?}", e.kind)) }
fn rv(r: Result<Json, json::Error>) -> Result<M, String> { r.map(|x| M::of(&x)).map_err(|e| format!("{:?}", e.kind)) }

pub fn check(form: &str, a: &[String]) -> Result<(), String> {
    let d = M::dec(&a[0]);
    let k = &a[1..5];
    let v: Vec<Json> = a[5..9].iter().map(|s| M::dec(s).json()).collect();
    let i: Vec<usize> = a[9..11].iter().map(|s| s.parse().unwrap()).collect();
    let log = RefCell::new(vec![]);
    let e = |n: usize, j: &Json| { log.borrow_mut().push(n); j.clone() };
    let kk = |n: usize, s: &String| { log.borrow_mut().push(n); s.clone() };
    let order = |n: usize| -> Result<(), String> { let l = log.borrow(); if *l == (0..n).collect::<Vec<_>>() { Ok(()) } else { Err(format!("operands evaluated as {:?}", l)) } };
    // a path of given steps by explicit calls
    fn p1(x: impl Into<json::Finder>) -> Path { Path::new(x) }
    match form.parse::<usize>().unwrap() {
        0 => { let j = object! {}; eq("object!{}", &j, &obj(&[])) }
        1 => { let j = object! { kk(0, &k[0]) => e(1, &v[0]) }; order(2)?; eq("object!", &j, &obj(&[(&k[0], &v[0])])) }
        2 => { let j = object! { kk(0, &k[0]) => e(1, &v[0]), kk(2, &k[1]) => e(3, &v[1]), }; order(4)?; eq("object!", &j, &obj(&[(&k[0], &v[0]), (&k[1], &v[1])])) }
        3 => { let j = object! { kk(0, &k[0]) => e(1, &v[0]), kk(2, &k[1]) => e(3, &v[1]), kk(4, &k[0]) => e(5, &v[2]) }; order(6)?; eq("object!", &j, &obj(&[(&k[0], &v[0]), (&k[1], &v[1]), (&k[0], &v[2])])) }
        4 => { let j = object! { &k[0] => v[0].to_string(), "lit" => 1, k[1].as_str() => true, 5 => None::<bool>, }; eq("object!", &j, &obj(&[(&k[0], &Json::String(v[0].to_string())), (&"lit".to_string(), &Json::Number(1.0)), (&k[1], &Json::Boolean(true)), (&"5".to_string(), &Json::Null)])) }
        5 => { let j = object! { "a" => object! { kk(0, &k[0]) => e(1, &v[0]) }, "b" => array![e(2, &v[1])], kk(3, &k[1]) => e(4, &v[2]), kk(5, &k[2]) => e(6, &v[3]) }; order(7)?; let o = obj(&[(&k[0], &v[0])]); let ar = Json::Array(vec![v[1].clone()]); eq("object!", &j, &obj(&[(&"a".to_string(), &o), (&"b".to_string(), &ar), (&k[1], &v[2]), (&k[2], &v[3])])) }
        6 => { let j = array![]; eq("array![]", &j, &Json::Array(vec![])) }
        7 => { let j = array![e(0, &v[0])]; order(1)?; eq("array!", &j, &Json::Array(vec![v[0].clone()])) }
        8 => { let j = array![e(0, &v[0]), e(1, &v[1]), e(2, &v[2]), e(3, &v[3]),]; order(4)?; eq("array!", &j, &Json::Array(v.clone())) }
        9 => { let j = array![1, "x", true, k[0], v[0], Some(2u8), vec![1.5f32], array![]]; eq("array!", &j, &Json::Array(vec![Json::Number(1.0), Json::String("x".into()), Json::Boolean(true), Json::String(k[0].clone()), v[0].clone(), Json::Number(2.0), Json::Array(vec![Json::Number(1.5)]), Json::Array(vec![])])) }
        10 => { let j = d.json(); same("find!", re(find!(j, k[0].as_str())), re(j.find(p1(k[0].as_str())))) }
        11 => { let j = d.json(); let mut p = p1(k[0].as_str()); p.append(i[0]); same("find!", re(find!(j, kk(0, &k[0]), i[0])), re(j.find(p)))?; order(1) }
        12 => { let j = d.json(); let mut p = p1(i[0]); p.append(k[0].as_str()); p.append(k[1].as_str()); same("find!", re(find!(j, i[0], kk(0, &k[0]), kk(1, &k[1]),)), re(j.find(p)))?; order(2) }
        13 => { let (mut j, mut h) = (d.json(), d.json()); same("update!", rm(update!(e(0, &v[0]) => j, k[0].as_str())), rm(h.update(p1(k[0].as_str()), v[0].clone())))?; order(1)?; eq("update!", &j, &h) }
        14 => { let (mut j, mut h) = (d.json(), d.json()); let mut p = p1(k[0].as_str()); p.append(i[0]); p.append(k[1].as_str()); same("update!", rm(update!(e(1, &v[0]) => j, kk(0, &k[0]), i[0], k[1].as_str(),)), rm(h.update(p, v[0].clone())))?; if log.borrow().len() != 2 { return Err("operands of update! not evaluated once".into()); } eq("update!", &j, &h) }
        15 => { let (mut j, mut h) = (d.json(), d.json()); let mut p = p1(i[0]); p.append(i[1]); same("update!", rm(update!(e(0, &v[0]) => j, i[0], i[1])), rm(h.update(p, v[0].clone())))?; eq("update!", &j, &h) }
        16 => { let (mut j, mut h) = (d.json(), d.json()); same("discard!", rv(discard!(j, k[0].as_str())), rv(h.discard(p1(k[0].as_str()))))?; eq("discard!", &j, &h) }
        17 => { let (mut j, mut h) = (d.json(), d.json()); let mut p = p1(k[0].as_str()); p.append(k[1].as_str()); p.append(i[0]); same("discard!", rv(discard!(j, kk(0, &k[0]), kk(1, &k[1]), i[0],)), rv(h.discard(p)))?; order(2)?; eq("discard!", &j, &h) }
        18 => { let j = d.json(); let p = path!(k[0].as_str()); same("path!", re(j.find(p)), re(j.find(p1(k[0].as_str())))) }
        19 => { let j = d.json(); let p = path!(kk(0, &k[0]), i[0], kk(1, &k[1]),); let mut q = p1(k[0].as_str()); q.append(i[0]); q.append(k[1].as_str()); order(2)?; same("path!", re(j.find(p)), re(j.find(q))) }
        // steps in order, on a document in which each order leads elsewhere
        20 => { let j = object! { "a" => object! { "b" => v[0].clone(), "a" => v[1].clone() }, "b" => object! { "a" => v[2].clone(), "b" => v[3].clone() } }; eq("find!", find!(j, "a", "b").map_err(|e| e.to_string())?, &v[0])?; eq("find!", find!(j, "b", "a").map_err(|e| e.to_string())?, &v[2])?; eq("find!", j.find(path!("a", "a")).map_err(|e| e.to_string())?, &v[1]) }
        21 => { let mut j = Json::Null; update!(v[0].clone() => j, "x", 1, "y").map_err(|e| e.to_string())?; let w = object! { "x" => array![Json::Null, object! { "y" => v[0].clone() }] }; eq("update!", &j, &w)?; let r = discard!(j, "x", 1, "y").map_err(|e| e.to_string())?; eq("discard!", &r, &v[0])?; eq("discard!", &j, &object! { "x" => array![Json::Null, object! {}] }) }
        22 => { let j = array![array![v[0], v[1]], array![v[2], v[3]]]; eq("find!", find!(j, 0, 1).map_err(|e| e.to_string())?, &v[1])?; eq("find!", find!(j, 1, 0).map_err(|e| e.to_string())?, &v[2])?; let p = path![1, 1]; eq("path!", j.find(p).map_err(|e| e.to_string())?, &v[3]) }
        23 => { let j = object! { "a" => array![object! { "b" => array![v[0], object! { "c" => v[1].clone() }] }] }; eq("find!", find!(j, "a", 0, "b", 1, "c").map_err(|e| e.to_string())?, &v[1])?; eq("find!", find!(j, "a", 0, "b", 0).map_err(|e| e.to_string())?, &v[0]) }
        n if n < FORMS => crate::shapes::check(n, &d, k, &v),
        n => {
            let st: Vec<json::Finder> = crate::steps_of(&a[11]).into_iter().map(|s| match s { Step::Key(k) => k.into(), Step::Idx(i) => i.into() }).collect();
            crate::arity::check(n - FORMS, &d, &st, k, &v)
        }
    }
}
