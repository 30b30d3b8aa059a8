//! Typed conversions: an independent encoding/decoding of Rust values, compared with ToJson/FromJson.
use crate::gen::G;
use crate::model::{kind, K, M};
use json::{FromJson, Json, ToJson};
use std::collections::{BTreeMap, HashMap};
use std::hash::Hash;
use std::str::FromStr;

pub trait Ty: Sized + ToJson + FromJson {
    fn gen(g: &mut G) -> M;
    fn m(&self) -> M;
    /// does `r` decode `m`?  None: an error is expected
    fn dec_ok(m: &M) -> bool;
    fn is_dec(m: &M, r: &Self) -> bool;
}
impl Ty for String {
    fn gen(g: &mut G) -> M { M::Str(g.string(300)) }
    fn m(&self) -> M { M::Str(self.clone()) }
    fn dec_ok(m: &M) -> bool { matches!(m, M::Str(_)) }
    fn is_dec(m: &M, r: &Self) -> bool { matches!(m, M::Str(s) if s == r) }
}
impl Ty for bool {
    fn gen(g: &mut G) -> M { M::Bool(g.r.one(2)) }
    fn m(&self) -> M { M::Bool(*self) }
    fn dec_ok(m: &M) -> bool { matches!(m, M::Bool(_)) }
    fn is_dec(m: &M, r: &Self) -> bool { matches!(m, M::Bool(s) if s == r) }
}
impl Ty for Json {
    fn gen(g: &mut G) -> M { g.doc(2, 10) }
    fn m(&self) -> M { M::of(self) }
    fn dec_ok(_: &M) -> bool { true }
    fn is_dec(m: &M, r: &Self) -> bool { *m == M::of(r) }
}
impl Ty for f64 {
    fn gen(g: &mut G) -> M { M::Num(g.num()) }
    fn m(&self) -> M { M::Num(*self) }
    fn dec_ok(m: &M) -> bool { matches!(m, M::Num(_)) }
    fn is_dec(m: &M, r: &Self) -> bool { *m == M::Num(*r) }
}
macro_rules! int_ty { ($($t:ident)*) => { $(impl Ty for $t {
    fn gen(g: &mut G) -> M { let x = g.r.next() as $t; M::Num(x as f64) }
    fn m(&self) -> M { M::Num(self.to_string().parse().unwrap()) }
    fn dec_ok(m: &M) -> bool { matches!(m, M::Num(_)) }
    fn is_dec(m: &M, r: &Self) -> bool { matches!(m, M::Num(f) if f64_to_int(*f, $t::MIN as i128, $t::MAX as i128) == *r as i128) }
})* } }
int_ty!(u8 i32 u64 i64);
/// truncate toward zero, saturate, NaN to zero
pub fn f64_to_int(f: f64, lo: i128, hi: i128) -> i128 {
    if f.is_nan() {
        return 0;
    }
    let b = f.to_bits();
    let e = ((b >> 52) & 0x7ff) as i32;
    let man = if e == 0 { b & ((1 << 52) - 1) } else { (b & ((1 << 52) - 1)) | (1 << 52) } as u128;
    let sh = e.max(1) - 1075;
    let mag: Option<u128> = if e == 0x7ff { None } else if sh >= 0 { if sh < 75 { Some(man << sh) } else { None } } else if sh > -64 { Some(man >> -sh) } else { Some(0) };
    let neg = f < 0.0;
    match mag {
        Some(v) if v <= i128::MAX as u128 => (if neg { -(v as i128) } else { v as i128 }).clamp(lo, hi),
        _ => if neg { lo } else { hi },
    }
}
impl<T: Ty> Ty for Vec<T> {
    fn gen(g: &mut G) -> M {
        let n = g.size(60);
        M::Arr((0..n).map(|_| T::gen(g)).collect())
    }
    fn m(&self) -> M { M::Arr(self.iter().map(|x| x.m()).collect()) }
    fn dec_ok(m: &M) -> bool { matches!(m, M::Arr(a) if a.iter().all(T::dec_ok)) }
    fn is_dec(m: &M, r: &Self) -> bool { matches!(m, M::Arr(a) if a.len() == r.len() && a.iter().zip(r).all(|(m, x)| T::is_dec(m, x))) }
}
impl<T: Ty> Ty for Option<T> {
    fn gen(g: &mut G) -> M { if g.r.one(3) { M::Null } else { T::gen(g) } }
    fn m(&self) -> M { match self { None => M::Null, Some(x) => x.m() } }
    fn dec_ok(m: &M) -> bool { matches!(m, M::Null) || T::dec_ok(m) }
    fn is_dec(m: &M, r: &Self) -> bool { match (m, r) { (M::Null, None) => true, (M::Null, _) => false, (m, Some(x)) => T::is_dec(m, x), _ => false } }
}
pub trait Key: ToString + FromStr { fn gen_key(g: &mut G) -> String; }
impl Key for String { fn gen_key(g: &mut G) -> String { g.key() } }
impl Key for i32 { fn gen_key(g: &mut G) -> String { (g.r.below(20) as i32 - 10).to_string() } }
impl Key for bool { fn gen_key(g: &mut G) -> String { g.r.one(2).to_string() } }
impl Key for char { fn gen_key(g: &mut G) -> String { g.ch().to_string() } }
fn gen_obj<K: Key, V: Ty>(g: &mut G, rep: bool) -> M {
    let n = g.size(60);
    let mut m: BTreeMap<String, Vec<M>> = BTreeMap::new();
    for _ in 0..n {
        let k = if g.r.one(25) { g.key() } else { K::gen_key(g) };
        let c = if rep && g.r.one(3) { 1 + g.size(20) } else { 1 };
        for _ in 0..c {
            let v = V::gen(g);
            m.entry(k.clone()).or_default().push(v);
        }
    }
    M::Obj(m)
}
impl<Q: Key, V: Ty> Ty for Vec<(Q, V)> {
    fn gen(g: &mut G) -> M { gen_obj::<Q, V>(g, true) }
    fn m(&self) -> M {
        let mut m: BTreeMap<String, Vec<M>> = BTreeMap::new();
        for (k, v) in self {
            m.entry(k.to_string()).or_default().push(v.m());
        }
        M::Obj(m)
    }
    fn dec_ok(m: &M) -> bool { matches!(m, M::Obj(o) if o.iter().all(|(k, v)| Q::from_str(k).is_ok() && v.iter().all(V::dec_ok))) }
    fn is_dec(m: &M, r: &Self) -> bool {
        let o = match m { M::Obj(o) => o, _ => return false };
        if o.values().map(|v| v.len()).sum::<usize>() != r.len() { return false; }
        // texts that parse to the same key are merged by the oracle below; values of one text keep their order
        let canon = |k: &str| Q::from_str(k).ok().unwrap().to_string();
        let mut left: BTreeMap<String, Vec<&[M]>> = BTreeMap::new();
        for (k, v) in o { left.entry(canon(k)).or_default().push(&v[..]); }
        for (k, x) in r {
            let l = match left.get_mut(&k.to_string()) { Some(l) => l, None => return false };
            match l.iter().position(|s| !s.is_empty() && V::is_dec(&s[0], x)) { Some(i) => l[i] = &l[i][1..], None => return false }
        }
        true
    }
}
impl<Q: Key + Hash + Eq, V: Ty> Ty for HashMap<Q, V> {
    fn gen(g: &mut G) -> M { gen_obj::<Q, V>(g, true) }
    fn m(&self) -> M { M::Obj(self.iter().map(|(k, v)| (k.to_string(), vec![v.m()])).collect()) }
    fn dec_ok(m: &M) -> bool { matches!(m, M::Obj(o) if o.iter().all(|(k, v)| Q::from_str(k).is_ok() && V::dec_ok(v.last().unwrap()))) }
    fn is_dec(m: &M, r: &Self) -> bool {
        let o = match m { M::Obj(o) => o, _ => return false };
        o.keys().all(|t| Q::from_str(t).ok().map(|k| r.contains_key(&k)).unwrap_or(false))
            && r.iter().all(|(k, x)| o.iter().any(|(t, v)| Q::from_str(t).ok().map(|q| q == *k).unwrap_or(false) && V::is_dec(v.last().unwrap(), x)))
    }
}
pub struct T {
    pub name: &'static str,
    pub gen: fn(&mut G) -> M,
    pub check: fn(&M) -> Result<(), String>,
}
fn check<X: Ty>(m: &M) -> Result<(), String> {
    let j = m.json();
    let r = X::from_json(&j);
    let c = j.convert::<X>();
    let d = json::decode::<X>(&m.norm().plain());
    if M::of(&j) != *m {
        return Err("converting changed the document".into());
    }
    for (w, mm, r) in [("from_json", m.clone(), r), ("convert", m.clone(), c), ("decode", m.norm(), d)] {
        match r {
            Ok(x) => {
                if !X::dec_ok(&mm) {
                    return Err(format!("{} succeeded, an error was expected", w));
                }
                if !X::is_dec(&mm, &x) {
                    return Err(format!("{} gave a wrong value", w));
                }
                // and back
                let e = M::of(&x.to_json());
                if e != x.m() {
                    return Err(format!("to_json gave {}, expected {}", e.plain(), x.m().plain()));
                }
                match X::from_json(&x.to_json()) {
                    Ok(y) if X::is_dec(&x.m(), &y) => {}
                    _ => return Err("decoding the encoded value gives something else".into()),
                }
            }
            Err(e) => {
                if X::dec_ok(&mm) {
                    return Err(format!("{} failed: {}", w, e));
                }
                if kind(&e) != K::Convert {
                    return Err(format!("{} failed with {}, expected a conversion error", w, e));
                }
            }
        }
    }
    Ok(())
}
fn check_slices(m: &M) -> Result<(), String> {
    // &[T], &[(K, V)], &str, &bool, str
    if let M::Arr(a) = m {
        let v: Vec<Json> = a.iter().map(|x| x.json()).collect();
        if M::of(&(&v[..]).to_json()) != *m {
            return Err("&[T]::to_json".into());
        }
        let kv: Vec<(String, Json)> = a.iter().enumerate().map(|(i, x)| ((i % 3).to_string(), x.json())).collect();
        if M::of(&(&kv[..]).to_json()) != kv.m() {
            return Err("&[(K, V)]::to_json".into());
        }
        if M::of(&kv.to_json()) != kv.m() {
            return Err("Vec<(K, V)>::to_json".into());
        }
    }
    if let M::Obj(o) = m {
        let kv: Vec<(&str, Json)> = o.iter().flat_map(|(k, v)| v.iter().map(move |x| (k.as_str(), x.json()))).collect();
        if M::of(&(&kv[..]).to_json()) != *m {
            return Err("&[(K, V)]::to_json".into());
        }
        if M::of(&kv.to_json()) != *m {
            return Err("Vec<(K, V)>::to_json".into());
        }
    }
    if let M::Str(s) = m {
        if M::of(&s.as_str().to_json()) != *m || M::of(&str::to_json(s)) != *m || M::of(&s.to_json()) != *m {
            return Err("str::to_json".into());
        }
    }
    if let M::Bool(s) = m {
        if M::of(&(&s).to_json()) != *m || M::of(&s.to_json()) != *m {
            return Err("bool::to_json".into());
        }
    }
    if M::of(&m.json().to_json()) != *m {
        return Err("Json::to_json".into());
    }
    Ok(())
}
macro_rules! tys { ($($t:ty),* $(,)?) => { &[$(T { name: stringify!($t), gen: <$t as Ty>::gen, check: check::<$t> }),*, T { name: "slices", gen: gen_any, check: check_slices }] } }
fn gen_any(g: &mut G) -> M { g.doc(2, 40) }
pub const TYS: &[T] = tys!(
    String, bool, Json, f64, i32, Vec<i32>, Vec<String>, Vec<bool>, Vec<Vec<u8>>, Vec<Json>, Option<i64>, Option<bool>, Option<String>, Option<Vec<u64>>, Vec<Option<String>>, Vec<Option<bool>>,
    Vec<(String, Json)>, Vec<(String, i32)>, Vec<(i32, String)>, Vec<(bool, bool)>, Vec<(char, Vec<u8>)>, Vec<(String, Vec<(String, bool)>)>, HashMap<String, Json>, HashMap<String, i32>, HashMap<i32, String>,
    HashMap<bool, Vec<u8>>, HashMap<char, bool>, HashMap<String, HashMap<String, Option<u8>>>, HashMap<String, Vec<(String, i64)>>, Option<HashMap<String, Json>>, Vec<HashMap<String, bool>>, Option<Option<bool>>,
);
