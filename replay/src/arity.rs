//! Every macro with 0 to 6 operands, with and without a trailing comma: results, order and number of evaluations.
//! (written by a script: one line per form)
use crate::mac::eq;
use crate::model::M;
use json::{array, discard, find, object, path, update, Finder, Json, Path};
use std::cell::RefCell;

pub const FORMS: usize = 74;
fn show(s: &[Finder]) -> String { format!("{:?}", s) }

/// `st`: up to six steps, `k`/`v`: keys and values
pub fn check(form: usize, d: &M, st: &[Finder], k: &[String], v: &[Json]) -> Result<(), String> {
    let log = RefCell::new(Vec::<usize>::new());
    let s = |n: usize| -> Finder { log.borrow_mut().push(n); match &st[n] { Finder::Key(k) => Finder::Key(k.clone()), Finder::Index(i) => Finder::Index(*i) } };
    let q = |n: usize| -> Path { let mut p = Path::new(match &st[0] { Finder::Key(k) => Finder::Key(k.clone()), Finder::Index(i) => Finder::Index(*i) }); for f in &st[1..n] { match f { Finder::Key(k) => p.append(k), Finder::Index(i) => p.append(*i) }; } p };
    let e = |n: usize| -> Json { log.borrow_mut().push(n); v[n % v.len()].clone() };
    let kk = |n: usize| -> String { log.borrow_mut().push(n); k[n % k.len()].clone() };
    let order = |what: &str, want: Vec<usize>| -> Result<(), String> { let l = log.borrow(); if *l == want { Ok(()) } else { Err(format!("{}: operands evaluated as {:?}", what, l)) } };
    // the receiver (90) and the stored value (91) once each, the steps in order
    let once = |what: &str, n: usize, others: &[usize]| -> Result<(), String> {
        let l = log.borrow();
        let steps: Vec<usize> = l.iter().cloned().filter(|x| *x < 90).collect();
        if steps != (0..n).collect::<Vec<_>>() || others.iter().any(|o| l.iter().filter(|x| *x == o).count() != 1) { return Err(format!("{}: operands evaluated as {:?} (90 is the document, 91 the value)", what, l)); }
        Ok(())
    };
    let b = d.json();
    let (mut j, mut h) = (d.json(), d.json());
    match form {
        0 => { let p = path!(s(0)); once("path!, 1 steps", 1, &[])?; same("path!, 1 steps", &st[..1], re(j.find(p)), re(b.find(q(1)))) }
        1 => { let r = re(find!({ log.borrow_mut().push(90); &j }, s(0))); once("find!, 1 steps", 1, &[90])?; same("find!, 1 steps", &st[..1], r, re(b.find(q(1)))) }
        2 => { let r = rv(discard!({ log.borrow_mut().push(90); &mut j }, s(0))); once("discard!, 1 steps", 1, &[90])?; same("discard!, 1 steps", &st[..1], r, rv(h.discard(q(1))))?; eq("discard!, 1 steps", &j, &h) }
        3 => { let r = rm(update!(e(91) => { log.borrow_mut().push(90); &mut j }, s(0))); once("update!, 1 steps", 1, &[90, 91])?; same("update!, 1 steps", &st[..1], r, rm(h.update(q(1), v[91 % v.len()].clone())))?; eq("update!, 1 steps", &j, &h) }
        4 => { let p = path!(s(0),); once("path!, 1 steps and a trailing comma", 1, &[])?; same("path!, 1 steps and a trailing comma", &st[..1], re(j.find(p)), re(b.find(q(1)))) }
        5 => { let r = re(find!({ log.borrow_mut().push(90); &j }, s(0),)); once("find!, 1 steps and a trailing comma", 1, &[90])?; same("find!, 1 steps and a trailing comma", &st[..1], r, re(b.find(q(1)))) }
        6 => { let r = rv(discard!({ log.borrow_mut().push(90); &mut j }, s(0),)); once("discard!, 1 steps and a trailing comma", 1, &[90])?; same("discard!, 1 steps and a trailing comma", &st[..1], r, rv(h.discard(q(1))))?; eq("discard!, 1 steps and a trailing comma", &j, &h) }
        7 => { let r = rm(update!(e(91) => { log.borrow_mut().push(90); &mut j }, s(0),)); once("update!, 1 steps and a trailing comma", 1, &[90, 91])?; same("update!, 1 steps and a trailing comma", &st[..1], r, rm(h.update(q(1), v[91 % v.len()].clone())))?; eq("update!, 1 steps and a trailing comma", &j, &h) }
        8 => { let p = path!(s(0), s(1)); once("path!, 2 steps", 2, &[])?; same("path!, 2 steps", &st[..2], re(j.find(p)), re(b.find(q(2)))) }
        9 => { let r = re(find!({ log.borrow_mut().push(90); &j }, s(0), s(1))); once("find!, 2 steps", 2, &[90])?; same("find!, 2 steps", &st[..2], r, re(b.find(q(2)))) }
        10 => { let r = rv(discard!({ log.borrow_mut().push(90); &mut j }, s(0), s(1))); once("discard!, 2 steps", 2, &[90])?; same("discard!, 2 steps", &st[..2], r, rv(h.discard(q(2))))?; eq("discard!, 2 steps", &j, &h) }
        11 => { let r = rm(update!(e(91) => { log.borrow_mut().push(90); &mut j }, s(0), s(1))); once("update!, 2 steps", 2, &[90, 91])?; same("update!, 2 steps", &st[..2], r, rm(h.update(q(2), v[91 % v.len()].clone())))?; eq("update!, 2 steps", &j, &h) }
        12 => { let p = path!(s(0), s(1),); once("path!, 2 steps and a trailing comma", 2, &[])?; same("path!, 2 steps and a trailing comma", &st[..2], re(j.find(p)), re(b.find(q(2)))) }
        13 => { let r = re(find!({ log.borrow_mut().push(90); &j }, s(0), s(1),)); once("find!, 2 steps and a trailing comma", 2, &[90])?; same("find!, 2 steps and a trailing comma", &st[..2], r, re(b.find(q(2)))) }
        14 => { let r = rv(discard!({ log.borrow_mut().push(90); &mut j }, s(0), s(1),)); once("discard!, 2 steps and a trailing comma", 2, &[90])?; same("discard!, 2 steps and a trailing comma", &st[..2], r, rv(h.discard(q(2))))?; eq("discard!, 2 steps and a trailing comma", &j, &h) }
        15 => { let r = rm(update!(e(91) => { log.borrow_mut().push(90); &mut j }, s(0), s(1),)); once("update!, 2 steps and a trailing comma", 2, &[90, 91])?; same("update!, 2 steps and a trailing comma", &st[..2], r, rm(h.update(q(2), v[91 % v.len()].clone())))?; eq("update!, 2 steps and a trailing comma", &j, &h) }
        16 => { let p = path!(s(0), s(1), s(2)); once("path!, 3 steps", 3, &[])?; same("path!, 3 steps", &st[..3], re(j.find(p)), re(b.find(q(3)))) }
        17 => { let r = re(find!({ log.borrow_mut().push(90); &j }, s(0), s(1), s(2))); once("find!, 3 steps", 3, &[90])?; same("find!, 3 steps", &st[..3], r, re(b.find(q(3)))) }
        18 => { let r = rv(discard!({ log.borrow_mut().push(90); &mut j }, s(0), s(1), s(2))); once("discard!, 3 steps", 3, &[90])?; same("discard!, 3 steps", &st[..3], r, rv(h.discard(q(3))))?; eq("discard!, 3 steps", &j, &h) }
        19 => { let r = rm(update!(e(91) => { log.borrow_mut().push(90); &mut j }, s(0), s(1), s(2))); once("update!, 3 steps", 3, &[90, 91])?; same("update!, 3 steps", &st[..3], r, rm(h.update(q(3), v[91 % v.len()].clone())))?; eq("update!, 3 steps", &j, &h) }
        20 => { let p = path!(s(0), s(1), s(2),); once("path!, 3 steps and a trailing comma", 3, &[])?; same("path!, 3 steps and a trailing comma", &st[..3], re(j.find(p)), re(b.find(q(3)))) }
        21 => { let r = re(find!({ log.borrow_mut().push(90); &j }, s(0), s(1), s(2),)); once("find!, 3 steps and a trailing comma", 3, &[90])?; same("find!, 3 steps and a trailing comma", &st[..3], r, re(b.find(q(3)))) }
        22 => { let r = rv(discard!({ log.borrow_mut().push(90); &mut j }, s(0), s(1), s(2),)); once("discard!, 3 steps and a trailing comma", 3, &[90])?; same("discard!, 3 steps and a trailing comma", &st[..3], r, rv(h.discard(q(3))))?; eq("discard!, 3 steps and a trailing comma", &j, &h) }
        23 => { let r = rm(update!(e(91) => { log.borrow_mut().push(90); &mut j }, s(0), s(1), s(2),)); once("update!, 3 steps and a trailing comma", 3, &[90, 91])?; same("update!, 3 steps and a trailing comma", &st[..3], r, rm(h.update(q(3), v[91 % v.len()].clone())))?; eq("update!, 3 steps and a trailing comma", &j, &h) }
        24 => { let p = path!(s(0), s(1), s(2), s(3)); once("path!, 4 steps", 4, &[])?; same("path!, 4 steps", &st[..4], re(j.find(p)), re(b.find(q(4)))) }
        25 => { let r = re(find!({ log.borrow_mut().push(90); &j }, s(0), s(1), s(2), s(3))); once("find!, 4 steps", 4, &[90])?; same("find!, 4 steps", &st[..4], r, re(b.find(q(4)))) }
        26 => { let r = rv(discard!({ log.borrow_mut().push(90); &mut j }, s(0), s(1), s(2), s(3))); once("discard!, 4 steps", 4, &[90])?; same("discard!, 4 steps", &st[..4], r, rv(h.discard(q(4))))?; eq("discard!, 4 steps", &j, &h) }
        27 => { let r = rm(update!(e(91) => { log.borrow_mut().push(90); &mut j }, s(0), s(1), s(2), s(3))); once("update!, 4 steps", 4, &[90, 91])?; same("update!, 4 steps", &st[..4], r, rm(h.update(q(4), v[91 % v.len()].clone())))?; eq("update!, 4 steps", &j, &h) }
        28 => { let p = path!(s(0), s(1), s(2), s(3),); once("path!, 4 steps and a trailing comma", 4, &[])?; same("path!, 4 steps and a trailing comma", &st[..4], re(j.find(p)), re(b.find(q(4)))) }
        29 => { let r = re(find!({ log.borrow_mut().push(90); &j }, s(0), s(1), s(2), s(3),)); once("find!, 4 steps and a trailing comma", 4, &[90])?; same("find!, 4 steps and a trailing comma", &st[..4], r, re(b.find(q(4)))) }
        30 => { let r = rv(discard!({ log.borrow_mut().push(90); &mut j }, s(0), s(1), s(2), s(3),)); once("discard!, 4 steps and a trailing comma", 4, &[90])?; same("discard!, 4 steps and a trailing comma", &st[..4], r, rv(h.discard(q(4))))?; eq("discard!, 4 steps and a trailing comma", &j, &h) }
        31 => { let r = rm(update!(e(91) => { log.borrow_mut().push(90); &mut j }, s(0), s(1), s(2), s(3),)); once("update!, 4 steps and a trailing comma", 4, &[90, 91])?; same("update!, 4 steps and a trailing comma", &st[..4], r, rm(h.update(q(4), v[91 % v.len()].clone())))?; eq("update!, 4 steps and a trailing comma", &j, &h) }
        32 => { let p = path!(s(0), s(1), s(2), s(3), s(4)); once("path!, 5 steps", 5, &[])?; same("path!, 5 steps", &st[..5], re(j.find(p)), re(b.find(q(5)))) }
        33 => { let r = re(find!({ log.borrow_mut().push(90); &j }, s(0), s(1), s(2), s(3), s(4))); once("find!, 5 steps", 5, &[90])?; same("find!, 5 steps", &st[..5], r, re(b.find(q(5)))) }
        34 => { let r = rv(discard!({ log.borrow_mut().push(90); &mut j }, s(0), s(1), s(2), s(3), s(4))); once("discard!, 5 steps", 5, &[90])?; same("discard!, 5 steps", &st[..5], r, rv(h.discard(q(5))))?; eq("discard!, 5 steps", &j, &h) }
        35 => { let r = rm(update!(e(91) => { log.borrow_mut().push(90); &mut j }, s(0), s(1), s(2), s(3), s(4))); once("update!, 5 steps", 5, &[90, 91])?; same("update!, 5 steps", &st[..5], r, rm(h.update(q(5), v[91 % v.len()].clone())))?; eq("update!, 5 steps", &j, &h) }
        36 => { let p = path!(s(0), s(1), s(2), s(3), s(4),); once("path!, 5 steps and a trailing comma", 5, &[])?; same("path!, 5 steps and a trailing comma", &st[..5], re(j.find(p)), re(b.find(q(5)))) }
        37 => { let r = re(find!({ log.borrow_mut().push(90); &j }, s(0), s(1), s(2), s(3), s(4),)); once("find!, 5 steps and a trailing comma", 5, &[90])?; same("find!, 5 steps and a trailing comma", &st[..5], r, re(b.find(q(5)))) }
        38 => { let r = rv(discard!({ log.borrow_mut().push(90); &mut j }, s(0), s(1), s(2), s(3), s(4),)); once("discard!, 5 steps and a trailing comma", 5, &[90])?; same("discard!, 5 steps and a trailing comma", &st[..5], r, rv(h.discard(q(5))))?; eq("discard!, 5 steps and a trailing comma", &j, &h) }
        39 => { let r = rm(update!(e(91) => { log.borrow_mut().push(90); &mut j }, s(0), s(1), s(2), s(3), s(4),)); once("update!, 5 steps and a trailing comma", 5, &[90, 91])?; same("update!, 5 steps and a trailing comma", &st[..5], r, rm(h.update(q(5), v[91 % v.len()].clone())))?; eq("update!, 5 steps and a trailing comma", &j, &h) }
        40 => { let p = path!(s(0), s(1), s(2), s(3), s(4), s(5)); once("path!, 6 steps", 6, &[])?; same("path!, 6 steps", &st[..6], re(j.find(p)), re(b.find(q(6)))) }
        41 => { let r = re(find!({ log.borrow_mut().push(90); &j }, s(0), s(1), s(2), s(3), s(4), s(5))); once("find!, 6 steps", 6, &[90])?; same("find!, 6 steps", &st[..6], r, re(b.find(q(6)))) }
        42 => { let r = rv(discard!({ log.borrow_mut().push(90); &mut j }, s(0), s(1), s(2), s(3), s(4), s(5))); once("discard!, 6 steps", 6, &[90])?; same("discard!, 6 steps", &st[..6], r, rv(h.discard(q(6))))?; eq("discard!, 6 steps", &j, &h) }
        43 => { let r = rm(update!(e(91) => { log.borrow_mut().push(90); &mut j }, s(0), s(1), s(2), s(3), s(4), s(5))); once("update!, 6 steps", 6, &[90, 91])?; same("update!, 6 steps", &st[..6], r, rm(h.update(q(6), v[91 % v.len()].clone())))?; eq("update!, 6 steps", &j, &h) }
        44 => { let p = path!(s(0), s(1), s(2), s(3), s(4), s(5),); once("path!, 6 steps and a trailing comma", 6, &[])?; same("path!, 6 steps and a trailing comma", &st[..6], re(j.find(p)), re(b.find(q(6)))) }
        45 => { let r = re(find!({ log.borrow_mut().push(90); &j }, s(0), s(1), s(2), s(3), s(4), s(5),)); once("find!, 6 steps and a trailing comma", 6, &[90])?; same("find!, 6 steps and a trailing comma", &st[..6], r, re(b.find(q(6)))) }
        46 => { let r = rv(discard!({ log.borrow_mut().push(90); &mut j }, s(0), s(1), s(2), s(3), s(4), s(5),)); once("discard!, 6 steps and a trailing comma", 6, &[90])?; same("discard!, 6 steps and a trailing comma", &st[..6], r, rv(h.discard(q(6))))?; eq("discard!, 6 steps and a trailing comma", &j, &h) }
        47 => { let r = rm(update!(e(91) => { log.borrow_mut().push(90); &mut j }, s(0), s(1), s(2), s(3), s(4), s(5),)); once("update!, 6 steps and a trailing comma", 6, &[90, 91])?; same("update!, 6 steps and a trailing comma", &st[..6], r, rm(h.update(q(6), v[91 % v.len()].clone())))?; eq("update!, 6 steps and a trailing comma", &j, &h) }
        48 => { let x = object! {  }; order("object!, 0 members", (0..0).collect())?; let mut y = Json::Object(Default::default()); for i in 0..0 { y.append(&k[2 * i % k.len()], v[(2 * i + 1) % v.len()].clone()).map_err(|e| e.to_string())?; } eq("object!, 0 members", &x, &y) }
        49 => { let x = array![]; order("array!, 0 elements", (0..0).collect())?; eq("array!, 0 elements", &x, &Json::Array((0..0).map(|i| v[i % v.len()].clone()).collect())) }
        50 => { let x = object! { kk(0) => e(1) }; order("object!, 1 members", (0..2).collect())?; let mut y = Json::Object(Default::default()); for i in 0..1 { y.append(&k[2 * i % k.len()], v[(2 * i + 1) % v.len()].clone()).map_err(|e| e.to_string())?; } eq("object!, 1 members", &x, &y) }
        51 => { let x = array![e(0)]; order("array!, 1 elements", (0..1).collect())?; eq("array!, 1 elements", &x, &Json::Array((0..1).map(|i| v[i % v.len()].clone()).collect())) }
        52 => { let x = object! { kk(0) => e(1), }; order("object!, 1 members and a trailing comma", (0..2).collect())?; let mut y = Json::Object(Default::default()); for i in 0..1 { y.append(&k[2 * i % k.len()], v[(2 * i + 1) % v.len()].clone()).map_err(|e| e.to_string())?; } eq("object!, 1 members and a trailing comma", &x, &y) }
        53 => { let x = array![e(0),]; order("array!, 1 elements and a trailing comma", (0..1).collect())?; eq("array!, 1 elements and a trailing comma", &x, &Json::Array((0..1).map(|i| v[i % v.len()].clone()).collect())) }
        54 => { let x = object! { kk(0) => e(1), kk(2) => e(3) }; order("object!, 2 members", (0..4).collect())?; let mut y = Json::Object(Default::default()); for i in 0..2 { y.append(&k[2 * i % k.len()], v[(2 * i + 1) % v.len()].clone()).map_err(|e| e.to_string())?; } eq("object!, 2 members", &x, &y) }
        55 => { let x = array![e(0), e(1)]; order("array!, 2 elements", (0..2).collect())?; eq("array!, 2 elements", &x, &Json::Array((0..2).map(|i| v[i % v.len()].clone()).collect())) }
        56 => { let x = object! { kk(0) => e(1), kk(2) => e(3), }; order("object!, 2 members and a trailing comma", (0..4).collect())?; let mut y = Json::Object(Default::default()); for i in 0..2 { y.append(&k[2 * i % k.len()], v[(2 * i + 1) % v.len()].clone()).map_err(|e| e.to_string())?; } eq("object!, 2 members and a trailing comma", &x, &y) }
        57 => { let x = array![e(0), e(1),]; order("array!, 2 elements and a trailing comma", (0..2).collect())?; eq("array!, 2 elements and a trailing comma", &x, &Json::Array((0..2).map(|i| v[i % v.len()].clone()).collect())) }
        58 => { let x = object! { kk(0) => e(1), kk(2) => e(3), kk(4) => e(5) }; order("object!, 3 members", (0..6).collect())?; let mut y = Json::Object(Default::default()); for i in 0..3 { y.append(&k[2 * i % k.len()], v[(2 * i + 1) % v.len()].clone()).map_err(|e| e.to_string())?; } eq("object!, 3 members", &x, &y) }
        59 => { let x = array![e(0), e(1), e(2)]; order("array!, 3 elements", (0..3).collect())?; eq("array!, 3 elements", &x, &Json::Array((0..3).map(|i| v[i % v.len()].clone()).collect())) }
        60 => { let x = object! { kk(0) => e(1), kk(2) => e(3), kk(4) => e(5), }; order("object!, 3 members and a trailing comma", (0..6).collect())?; let mut y = Json::Object(Default::default()); for i in 0..3 { y.append(&k[2 * i % k.len()], v[(2 * i + 1) % v.len()].clone()).map_err(|e| e.to_string())?; } eq("object!, 3 members and a trailing comma", &x, &y) }
        61 => { let x = array![e(0), e(1), e(2),]; order("array!, 3 elements and a trailing comma", (0..3).collect())?; eq("array!, 3 elements and a trailing comma", &x, &Json::Array((0..3).map(|i| v[i % v.len()].clone()).collect())) }
        62 => { let x = object! { kk(0) => e(1), kk(2) => e(3), kk(4) => e(5), kk(6) => e(7) }; order("object!, 4 members", (0..8).collect())?; let mut y = Json::Object(Default::default()); for i in 0..4 { y.append(&k[2 * i % k.len()], v[(2 * i + 1) % v.len()].clone()).map_err(|e| e.to_string())?; } eq("object!, 4 members", &x, &y) }
        63 => { let x = array![e(0), e(1), e(2), e(3)]; order("array!, 4 elements", (0..4).collect())?; eq("array!, 4 elements", &x, &Json::Array((0..4).map(|i| v[i % v.len()].clone()).collect())) }
        64 => { let x = object! { kk(0) => e(1), kk(2) => e(3), kk(4) => e(5), kk(6) => e(7), }; order("object!, 4 members and a trailing comma", (0..8).collect())?; let mut y = Json::Object(Default::default()); for i in 0..4 { y.append(&k[2 * i % k.len()], v[(2 * i + 1) % v.len()].clone()).map_err(|e| e.to_string())?; } eq("object!, 4 members and a trailing comma", &x, &y) }
        65 => { let x = array![e(0), e(1), e(2), e(3),]; order("array!, 4 elements and a trailing comma", (0..4).collect())?; eq("array!, 4 elements and a trailing comma", &x, &Json::Array((0..4).map(|i| v[i % v.len()].clone()).collect())) }
        66 => { let x = object! { kk(0) => e(1), kk(2) => e(3), kk(4) => e(5), kk(6) => e(7), kk(8) => e(9) }; order("object!, 5 members", (0..10).collect())?; let mut y = Json::Object(Default::default()); for i in 0..5 { y.append(&k[2 * i % k.len()], v[(2 * i + 1) % v.len()].clone()).map_err(|e| e.to_string())?; } eq("object!, 5 members", &x, &y) }
        67 => { let x = array![e(0), e(1), e(2), e(3), e(4)]; order("array!, 5 elements", (0..5).collect())?; eq("array!, 5 elements", &x, &Json::Array((0..5).map(|i| v[i % v.len()].clone()).collect())) }
        68 => { let x = object! { kk(0) => e(1), kk(2) => e(3), kk(4) => e(5), kk(6) => e(7), kk(8) => e(9), }; order("object!, 5 members and a trailing comma", (0..10).collect())?; let mut y = Json::Object(Default::default()); for i in 0..5 { y.append(&k[2 * i % k.len()], v[(2 * i + 1) % v.len()].clone()).map_err(|e| e.to_string())?; } eq("object!, 5 members and a trailing comma", &x, &y) }
        69 => { let x = array![e(0), e(1), e(2), e(3), e(4),]; order("array!, 5 elements and a trailing comma", (0..5).collect())?; eq("array!, 5 elements and a trailing comma", &x, &Json::Array((0..5).map(|i| v[i % v.len()].clone()).collect())) }
        70 => { let x = object! { kk(0) => e(1), kk(2) => e(3), kk(4) => e(5), kk(6) => e(7), kk(8) => e(9), kk(10) => e(11) }; order("object!, 6 members", (0..12).collect())?; let mut y = Json::Object(Default::default()); for i in 0..6 { y.append(&k[2 * i % k.len()], v[(2 * i + 1) % v.len()].clone()).map_err(|e| e.to_string())?; } eq("object!, 6 members", &x, &y) }
        71 => { let x = array![e(0), e(1), e(2), e(3), e(4), e(5)]; order("array!, 6 elements", (0..6).collect())?; eq("array!, 6 elements", &x, &Json::Array((0..6).map(|i| v[i % v.len()].clone()).collect())) }
        72 => { let x = object! { kk(0) => e(1), kk(2) => e(3), kk(4) => e(5), kk(6) => e(7), kk(8) => e(9), kk(10) => e(11), }; order("object!, 6 members and a trailing comma", (0..12).collect())?; let mut y = Json::Object(Default::default()); for i in 0..6 { y.append(&k[2 * i % k.len()], v[(2 * i + 1) % v.len()].clone()).map_err(|e| e.to_string())?; } eq("object!, 6 members and a trailing comma", &x, &y) }
        73 => { let x = array![e(0), e(1), e(2), e(3), e(4), e(5),]; order("array!, 6 elements and a trailing comma", (0..6).collect())?; eq("array!, 6 elements and a trailing comma", &x, &Json::Array((0..6).map(|i| v[i % v.len()].clone()).collect())) }
        _ => Ok(()),
    }
}
fn re(r: Result<&Json, json::Error>) -> Result<M, String> { r.map(M::of).map_err(|e| format!("{:?}", e.kind)) }
fn rm(r: Result<&mut Json, json::Error>) -> Result<M, String> { r.map(|x| M::of(x)).map_err(|e| format!("{:?}", e.kind)) }
fn rv(r: Result<Json, json::Error>) -> Result<M, String> { r.map(|x| M::of(&x)).map_err(|e| format!("{:?}", e.kind)) }
fn same(what: &str, st: &[Finder], a: Result<M, String>, b: Result<M, String>) -> Result<(), String> {
    if a == b { Ok(()) } else { Err(format!("{} on {}: gives {:?}, the calls give {:?}", what, show(st), a, b)) }
}
