//! The contracts that contracts/10_std.rs and contracts/11_std_more.rs ASSUME about std, compared with std on enumerated arguments. Bounded, and
//! nothing is counted as proved by it: it guards against an assumption that is wrong.
use std::cmp::Ordering;
use std::collections::{HashMap, LinkedList};

struct C { n: u64, bad: Vec<String>, name: &'static str, out: Vec<String> }
impl C {
    fn ok(&mut self, c: bool, what: impl FnOnce() -> String) {
        self.n += 1;
        if !c { self.bad.push(format!("{}: {}", self.name, what())); }
    }
    fn group(&mut self, name: &'static str) {
        if !self.name.is_empty() { self.out.push(format!("{} {}", self.name, self.n)); }
        self.n = 0;
        self.name = name;
    }
}
/// all words of up to `n` letters
fn words(a: &[char], n: usize) -> Vec<String> {
    let (mut all, mut last) = (vec![String::new()], vec![String::new()]);
    for _ in 0..n {
        last = last.iter().flat_map(|w| a.iter().map(move |c| format!("{}{}", w, c))).collect();
        all.extend(last.iter().cloned());
    }
    all
}
fn utf8_1(u: u32) -> Vec<u8> {
    if u < 0x80 { vec![u as u8] }
    else if u < 0x800 { vec![(0xC0 + u / 64) as u8, (0x80 + u % 64) as u8] }
    else if u < 0x10000 { vec![(0xE0 + u / 4096) as u8, (0x80 + u / 64 % 64) as u8, (0x80 + u % 64) as u8] }
    else { vec![(0xF0 + u / 262144) as u8, (0x80 + u / 4096 % 64) as u8, (0x80 + u / 64 % 64) as u8, (0x80 + u % 64) as u8] }
}
/// the characters whose encoding by `utf8_1` is `b`, by trying every length
fn decode(b: &[u8]) -> Option<Vec<char>> {
    let (mut r, mut i) = (vec![], 0);
    'next: while i < b.len() {
        for l in 1..=4.min(b.len() - i) {
            let x = &b[i..i + l];
            let bits = |k: usize| (x[k] & 0x3f) as u32;
            let u = match l { 1 => x[0] as u32, 2 => ((x[0] & 0x1f) as u32) << 6 | bits(1), 3 => ((x[0] & 0xf) as u32) << 12 | bits(1) << 6 | bits(2),
                              _ => ((x[0] & 7) as u32) << 18 | bits(1) << 12 | bits(2) << 6 | bits(3) };
            if let Some(c) = std::char::from_u32(u) { if utf8_1(u) == x { r.push(c); i += l; continue 'next; } }
        }
        return None;
    }
    Some(r)
}
fn json_number(s: &str) -> bool {
    let b = s.as_bytes();
    let d = |i: &mut usize| { let a = *i; while *i < b.len() && b[*i].is_ascii_digit() { *i += 1 } *i - a };
    let mut i = 0;
    if b.first() == Some(&b'-') { i = 1 }
    let z = b.get(i) == Some(&b'0');
    let n = d(&mut i);
    if n == 0 || z && n > 1 { return false }
    if b.get(i) == Some(&b'.') { i += 1; if d(&mut i) == 0 { return false } }
    if matches!(b.get(i), Some(b'e') | Some(b'E')) {
        i += 1;
        if matches!(b.get(i), Some(b'+') | Some(b'-')) { i += 1 }
        if d(&mut i) == 0 { return false }
    }
    i == b.len()
}

pub fn run() -> Result<Vec<String>, Vec<String>> {
    let mut c = C { n: 0, bad: vec![], name: "", out: vec![] };
    let mut seed = 0x1234_5678_9abc_def1u64;
    let mut rnd = move || { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; seed };

    c.group("chars/peekable/nth/skip/collect");
    for w in words(&['a', '\u{e9}', '\u{1F600}'], 4) {
        let t: Vec<char> = w.chars().collect();
        c.ok(t.iter().map(|x| x.len_utf8()).sum::<usize>() == w.len() && w.chars().collect::<String>() == w, || w.clone());
        for n in 0..6 {
            let mut p = w.chars().peekable();
            c.ok(p.peek() == t.first() && p.peek() == t.first(), || w.clone());
            let mut q = p.clone();
            let r = q.nth(n);
            c.ok(r == t.get(n).cloned() && q.clone().collect::<Vec<_>>() == t.get(n + 1..).unwrap_or(&[]), || format!("{} {}", w, n));
            c.ok(p.next() == t.first().cloned() && p.clone().collect::<Vec<_>>() == t.get(1..).unwrap_or(&[]), || w.clone());
            if t.len() <= 1 { c.ok(p.next().is_none() && p.peek().is_none() && p.next().is_none(), || w.clone()); }
            c.ok(w.chars().skip(n).collect::<Vec<_>>() == t.get(n..).unwrap_or(&[]), || format!("{} {}", w, n));
        }
    }
    c.group("String::with_capacity/starts_with/slice from/parse as usize");
    for n in [0, 1, 100] { c.ok(String::with_capacity(n).is_empty(), || n.to_string()); }
    for w in words(&['#', '\\', '0', '\u{e9}'], 4) {
        let t: Vec<char> = w.chars().collect();
        for x in ['#', '\\', '\u{e9}'] { c.ok(w.starts_with(x) == (t.first() == Some(&x)), || w.clone()); }
        for n in 0..=t.len() {
            if t[..n].iter().all(|x| (*x as u32) < 128) { c.ok(w[n..].chars().collect::<Vec<_>>() == t[n..], || w.clone()); }
        }
    }
    let mut nums = words(&['+', '-', '0', '7', '_', ' ', '\u{663}'], 5);
    for x in [0u128, 1, 9, u64::MAX as u128 - 1, u64::MAX as u128, u64::MAX as u128 + 1, u64::MAX as u128 * 10, u128::MAX] {
        for p in ["", "+", "-", "0", "+000", "++"] { nums.push(format!("{}{}", p, x)); }
    }
    for w in nums {
        let d = w.strip_prefix('+').unwrap_or(&w);
        let m = if !d.is_empty() && d.chars().all(|x| ('0'..='9').contains(&x)) {
            d.chars().try_fold(0u128, |a, x| a.checked_mul(10)?.checked_add(x as u128 - 48)).filter(|x| *x <= usize::MAX as u128)
        } else { None };
        c.ok(w.parse::<usize>().ok().map(|x| x as u128) == m, || w.clone());
    }
    c.group("trim_matches");
    for w in words(&[' ', '\n', 'a', '\u{a0}'], 6) {
        let t: Vec<char> = w.chars().collect();
        let p = |x: char| x == ' ' || x == '\n';
        let (mut a, mut b) = (0, t.len());
        while a < b && p(t[a]) { a += 1 }
        while a < b && p(t[b - 1]) { b -= 1 }
        c.ok(w.trim_matches(p).chars().collect::<Vec<_>>() == t[a..b], || w.clone());
    }
    c.group("str::from_utf8");
    for u in 0..0x110000 {
        if let Some(x) = std::char::from_u32(u) { c.ok(std::str::from_utf8(&utf8_1(u)) == Ok(x.to_string().as_str()), || u.to_string()); }
    }
    let edge = [0u8, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf3, 0xf4, 0xf5, 0xff];
    let mut go = |b: &[u8]| {
        let r = std::str::from_utf8(b).ok().map(|s| s.chars().collect::<Vec<_>>());
        c.ok(r == decode(b), || format!("{:?}", b));
    };
    for x in 0..=255u8 { go(&[x]); for y in 0..=255u8 { go(&[x, y]); } }
    for &x in &edge { for &y in &edge { for &z in &edge { go(&[x, y, z]); for &w in &edge { go(&[x, y, z, w]); } } } }
    c.group("f64: parse accepts JSON numbers, rejects a text ending in e, E, +, -");
    for w in words(&['0', '1', '-', '.', 'e', 'E', '+'], 6) {
        if json_number(&w) { c.ok(w.parse::<f64>().is_ok(), || w.clone()); }
        if w.ends_with(['e', 'E', '+', '-']) { c.ok(w.parse::<f64>().is_err(), || w.clone()); }
    }
    for w in ["inf", "nan", "infinity", "1", "1.5", "1e9", "", "."] { for x in ["e", "E", "+", "-"] { c.ok(format!("{}{}", w, x).parse::<f64>().is_err(), || w.to_string()); } }
    c.group("f64: a finite value displays as a JSON number that reads back");
    let mut fs: Vec<f64> = vec![0.0, -0.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::EPSILON, f64::from_bits(1), 1e21, 1e-7, 0.1, 9007199254740993.0];
    for e in 0..2048u64 { for m in [0u64, 1, (1 << 52) - 1] { fs.push(f64::from_bits(e << 52 | m)); fs.push(f64::from_bits(1 << 63 | e << 52 | m)); } }
    for _ in 0..20000 { fs.push(f64::from_bits(rnd())); }
    for f in fs {
        let s = f.to_string();
        c.ok(f.is_finite() == (f - f == 0.0), || s.clone());
        if f.is_finite() { c.ok(json_number(&s) && s.parse::<f64>().map(|x| x.to_bits()) == Ok(f.to_bits()), || s.clone()); }
    }
    c.group("Display of bool, str, String, references");
    c.ok(true.to_string() == "true" && false.to_string() == "false" && format!("{}", &&true) == "true", String::new);
    for w in words(&['{', '"', '\u{1F600}'], 3) { c.ok(w.to_string() == w && format!("{}{}", w, &w[..]) == w.clone() + &w && w.as_str().to_string() == w, || w.clone()); }
    c.group("LinkedList");
    for n in 0..7usize {
        let mut l = LinkedList::new();
        let mut m: Vec<usize> = vec![];
        for i in 0..n { l.push_front(i); m.insert(0, i); }
        c.ok(l.len() == n && l.iter().cloned().collect::<Vec<_>>() == m, || n.to_string());
        m.reverse();
        c.ok(l.iter().rev().cloned().collect::<Vec<_>>() == m && m.iter().rev().count() == n, || n.to_string());
    }
    c.group("String order");
    let ws = words(&['a', 'b', '\u{e9}', '\u{ffff}', '\u{10000}'], 3);
    for a in &ws { for b in &ws {
        let (x, y): (Vec<u32>, Vec<u32>) = (a.chars().map(|k| k as u32).collect(), b.chars().map(|k| k as u32).collect());
        let mut i = 0;
        while i < x.len() && i < y.len() && x[i] == y[i] { i += 1 }
        let o = if x == y { Ordering::Equal } else if i == y.len() { Ordering::Greater } else if i == x.len() || x[i] < y[i] { Ordering::Less } else { Ordering::Greater };
        c.ok(a.cmp(b) == o && a.as_str().cmp(b.as_str()) == o && (&a).cmp(&b) == o, || format!("{:?} {:?}", a, b));
    } }
    c.group("Vec: sort_by, reverse, extend, join, try_reserve");
    for w in words(&['a', 'b', 'c', 'd'], 5) {
        let v: Vec<char> = w.chars().collect();
        for f in [|a: &char, b: &char| a.cmp(b), |a: &char, b: &char| b.cmp(a)] {
            let mut s = v.clone();
            s.sort_by(f);
            let count = |v: &[char], k: char| v.iter().filter(|x| **x == k).count();
            c.ok(s.windows(2).all(|p| f(&p[0], &p[1]) != Ordering::Greater) && "abcd".chars().all(|k| count(&s, k) == count(&v, k)), || w.clone());
        }
        let mut r = v.clone();
        r.reverse();
        c.ok((0..v.len()).all(|i| r[i] == v[v.len() - 1 - i]) && r.len() == v.len(), || w.clone());
        let mut e = v.clone();
        e.extend(r.iter().cloned());
        c.ok(e.len() == 2 * v.len() && e[..v.len()] == v[..] && e[v.len()..] == r[..], || w.clone());
        let p: Vec<String> = v.iter().map(|x| if *x == 'd' { String::new() } else { x.to_string() }).collect();
        let mut j = String::new();
        for (i, x) in p.iter().enumerate() { if i > 0 { j.push_str(", ") } j.push_str(x) }
        c.ok(p.join(", ") == j, || w.clone());
        let mut t = v.clone();
        c.ok(t.try_reserve(usize::MAX).is_err() && t == v && t.try_reserve(usize::MAX / 8).is_err() && t == v && t.try_reserve(0).is_ok() && t.try_reserve(100).is_ok() && t == v, || w.clone());
    }
    c.group("HashMap with String keys, by &String and &str");
    let ks = words(&['a', '\u{e9}'], 2);
    for mask in 0..1u32 << ks.len() {
        let m: HashMap<String, usize> = ks.iter().cloned().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(i, k)| (k, i)).collect();
        let mut it: Vec<(String, usize)> = (&m).into_iter().map(|(k, v)| (k.clone(), *v)).collect();
        it.sort();
        let mut want: Vec<(String, usize)> = ks.iter().cloned().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(i, k)| (k, i)).collect();
        want.sort();
        c.ok(it == want && m.len() == want.len() && m.iter().count() == want.len(), || mask.to_string());
        for (i, k) in ks.iter().enumerate() {
            let has = mask >> i & 1 == 1;
            let mut x = m.clone();
            c.ok(m.get(k) == has.then(|| &i) && m.get(k.as_str()) == has.then(|| &i) && m.contains_key(k.as_str()) == has, || k.clone());
            if let Some(v) = x.get_mut(k.as_str()) { *v = 99 }
            c.ok(x.len() == m.len() && ks.iter().enumerate().all(|(j, q)| x.get(q) == (mask >> j & 1 == 1).then(|| if j == i { &99 } else { &m[q] })), || k.clone());
            let mut y = m.clone();
            c.ok(y.remove(k.as_str()) == has.then(|| i) && y.len() == m.len() - has as usize && ks.iter().enumerate().all(|(j, q)| y.contains_key(q) == (j != i && mask >> j & 1 == 1)), || k.clone());
            let mut z = m.clone();
            c.ok(z.insert(k.clone(), 7) == has.then(|| i) && z[k] == 7 && z.len() == m.len() + !has as usize, || k.clone());
        }
    }
    c.group("expect");
    c.ok(Some(3).expect("x") == 3 && Ok::<i32, String>(4).expect("x") == 4 && std::panic::catch_unwind(|| None::<i32>.expect("x")).is_err() && std::panic::catch_unwind(|| Err::<i32, i32>(1).expect("x")).is_err(), String::new);
    // ---- contracts/11_std_more.rs ----
    c.group("char: is_ascii*, is_control, to_digit, is_digit; u8::is_ascii_digit");
    for u in 0..0x110000u32 {
        let ch = match std::char::from_u32(u) { Some(x) => x, None => continue };
        let (d, l, h) = ('0' <= ch && ch <= '9', 'a' <= ch && ch <= 'z', 'A' <= ch && ch <= 'Z');
        c.ok(ch.is_ascii() == (u <= 0x7f) && ch.is_ascii_digit() == d && ch.is_ascii_lowercase() == l && ch.is_ascii_uppercase() == h && ch.is_ascii_alphabetic() == (l || h)
            && ch.is_ascii_hexdigit() == (d || 'a' <= ch && ch <= 'f' || 'A' <= ch && ch <= 'F') && ch.is_ascii_control() == (u < 0x20 || u == 0x7f)
            && ch.is_ascii_graphic() == (0x21 <= u && u <= 0x7e) && ch.is_ascii_whitespace() == [0x20, 9, 10, 12, 13].contains(&u)
            && ch.is_control() == (u < 0x20 || 0x7f <= u && u <= 0x9f), || format!("U+{:x}", u));
        if u < 0x200 || u % 97 == 0 || (0xff00..0xff60).contains(&u) {
            for radix in 2..37u32 {
                let v = if d { u - 0x30 } else if l { u - 0x61 + 10 } else if h { u - 0x41 + 10 } else { 99 };
                c.ok(ch.to_digit(radix) == if v < radix { Some(v) } else { None } && ch.is_digit(radix) == (v < radix), || format!("U+{:x} {}", u, radix));
            }
        }
        if u < 256 { c.ok((u as u8).is_ascii_digit() == (0x30 <= u && u <= 0x39), || u.to_string()); }
    }
    c.group("f64: is_nan, is_infinite");
    for x in [0.0, -0.0, 1.5, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -f64::NAN, f64::from_bits(0x7ff0000000000001), f64::from_bits(0xfff8000000000001)] {
        c.ok(x.is_finite() == !(x.is_nan() || x.is_infinite()), || x.to_string());
    }
    c.group("Option::or/and, Result::unwrap_or, bool::then_some, mem::replace");
    for a in [None, Some(1)] {
        for b in [None, Some(2)] {
            c.ok(a.or(b) == if a.is_some() { a } else { b } && a.and(b) == if a.is_some() { b } else { None }, || format!("{:?} {:?}", a, b));
            let mut m = a;
            let old = std::mem::replace(&mut m, b);
            c.ok(old == a && m == b, || format!("replace {:?} {:?}", a, b));
        }
        c.ok(a.ok_or(7).unwrap_or(3) == match a { Some(x) => x, None => 3 } && a.is_some().then_some(5) == if a.is_some() { Some(5) } else { None }, || format!("{:?}", a));
    }
    c.group("String::reserve, Vec::shrink_to_fit, LinkedList: push_back, pop_front, pop_back, is_empty, clear, front, back");
    for w in words(&['a', '\u{e9}'], 4) {
        let (mut s, v): (String, Vec<char>) = (w.clone(), w.chars().collect());
        s.reserve(100);
        let mut x = Vec::with_capacity(50);
        x.extend(v.iter().cloned());
        x.shrink_to_fit();
        let l: LinkedList<char> = v.iter().cloned().collect();
        let list = |l: &LinkedList<char>| l.iter().cloned().collect::<Vec<char>>();
        let (mut p, mut f, mut b, mut e) = (l.clone(), l.clone(), l.clone(), l.clone());
        p.push_back('z');
        let (rf, rb) = (f.pop_front(), b.pop_back());
        e.clear();
        let mut vz = v.clone();
        vz.push('z');
        c.ok(s == w && x == v && list(&p) == vz && rf == v.first().cloned() && rb == v.last().cloned() && list(&f) == v[1.min(v.len())..] && list(&b) == v[..v.len() - 1.min(v.len())]
            && e.len() == 0 && l.is_empty() == v.is_empty() && l.front() == v.first() && l.back() == v.last(), || w.clone());
    }
    c.group("");
    if c.bad.is_empty() { Ok(c.out) } else { Err(c.bad) }
}
