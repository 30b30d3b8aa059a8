//! Numeric conversions against arithmetic done without float casts.
use crate::gen::G;
use crate::model::{kind, K, M};
use crate::Case;
use json::{FromJson, Json, ToJson};

fn near(s: String) -> f64 { s.parse().unwrap() }
/// trunc, saturate, NaN to zero; as decimal text
fn to_int(f: f64, lo: &str, hi: &str, neg: bool) -> String {
    if f.is_nan() { return "0".into(); }
    if f.is_infinite() { return if f > 0.0 { hi.into() } else { lo.into() }; }
    // {:.0} rounds; print enough decimals and cut
    let s = format!("{:.1}", f.trunc());
    let t = s.split('.').next().unwrap().to_string();
    let t = if t == "-0" { "0".to_string() } else { t };
    let cmp = |a: &str, b: &str| a.len().cmp(&b.len()).then(a.cmp(b));
    if let Some(d) = t.strip_prefix('-') {
        if !neg { return "0".into(); }
        if cmp(d, &lo[1..]).is_gt() { lo.into() } else { t }
    } else if cmp(&t, hi).is_gt() { hi.into() } else { t }
}
fn go<T: ToJson + FromJson + ToString + Copy>(x: Option<T>, f: f64, want: String) -> Result<(), String>
where for<'a> &'a T: ToJson {
    if let Some(x) = x {
        let w = near(x.to_string());
        for (n, j) in [("T", x.to_json()), ("&T", <&T as ToJson>::to_json(&&x))] {
            match j { Json::Number(g) if g.to_bits() == w.to_bits() => {} o => return Err(format!("{}::to_json({}) is {:?}, expected {:?}", n, x.to_string(), o, w)) }
        }
    }
    match T::from_json(&Json::Number(f)) {
        Ok(r) if r.to_string() == want => {}
        Ok(r) => return Err(format!("{:?} converts to {}, expected {}", f, r.to_string(), want)),
        Err(e) => return Err(format!("{:?} does not convert: {}", f, e)),
    }
    for o in [M::Null, M::Bool(true), M::Str("1".into()), M::Arr(vec![M::Num(1.0)]), M::Obj(Default::default())] {
        match T::from_json(&o.json()) { Err(e) if kind(&e) == K::Convert => {} _ => return Err(format!("{} converts to a number", o.plain())) }
    }
    Ok(())
}
pub fn check(ty: &str, v: &str) -> Result<(), String> {
    // v: "<integer text or ->|<f64 bits>"
    let (i, b) = v.split_once('|').unwrap();
    let f = f64::from_bits(u64::from_str_radix(b, 16).unwrap());
    macro_rules! int { ($t:ident) => { go::<$t>(i.parse().ok(), f, to_int(f, &$t::MIN.to_string(), &$t::MAX.to_string(), $t::MIN != 0)) } }
    match ty {
        "u8" => int!(u8), "u16" => int!(u16), "u32" => int!(u32), "u64" => int!(u64), "u128" => int!(u128), "usize" => int!(usize),
        "i8" => int!(i8), "i16" => int!(i16), "i32" => int!(i32), "i64" => int!(i64), "i128" => int!(i128), "isize" => int!(isize),
        "f64" => {
            for j in [f.to_json(), <&f64 as ToJson>::to_json(&&f)] { match j { Json::Number(g) if M::Num(g) == M::Num(f) => {} o => return Err(format!("f64 {:?} becomes {:?}", f, o)) } }
            match f64::from_json(&Json::Number(f)) { Ok(g) if M::Num(g) == M::Num(f) => {} o => return Err(format!("{:?} converts to f64 {:?}", f, o)) }
            for o in [M::Null, M::Bool(true), M::Str("1".into()), M::Arr(vec![M::Num(1.0)]), M::Obj(Default::default())] {
                match f64::from_json(&o.json()) { Err(e) if kind(&e) == K::Convert => {} _ => return Err(format!("{} converts to f64", o.plain())) }
            }
            Ok(())
        }
        _ => {
            let x = f32::from_bits(f.to_bits() as u32);
            let w: f64 = if x.is_nan() { f64::NAN } else if x.is_infinite() { if x > 0.0 { f64::INFINITY } else { f64::NEG_INFINITY } } else { near(format!("{:.160}", x)) };
            for j in [x.to_json(), <&f32 as ToJson>::to_json(&&x)] { match j { Json::Number(g) if M::Num(g) == M::Num(w) => {} o => return Err(format!("f32 {:?} becomes {:?}", x, o)) } }
            let w: f32 = if f.is_nan() { f32::NAN } else if f.is_infinite() { if f > 0.0 { f32::INFINITY } else { f32::NEG_INFINITY } } else { format!("{:.1100}", f).parse().unwrap() };
            match f32::from_json(&Json::Number(f)) { Ok(g) if g.to_bits() == w.to_bits() || g.is_nan() && w.is_nan() => {} o => return Err(format!("{:?} converts to f32 {:?}, expected {:?}", f, o, w)) }
            for o in [M::Null, M::Bool(true), M::Str("1".into()), M::Arr(vec![M::Num(1.0)]), M::Obj(Default::default())] {
                match f32::from_json(&o.json()) { Err(e) if kind(&e) == K::Convert => {} _ => return Err(format!("{} converts to f32", o.plain())) }
            }
            Ok(())
        }
    }
}
const TYPES: &[&str] = &["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64"];
pub fn case(g: &mut G) -> Case {
    let ty = *g.r.pick(TYPES);
    let bits = match ty { "u8" | "i8" => 8, "u16" | "i16" => 16, "u32" | "i32" => 32, "u128" | "i128" => 128, _ => 64 };
    let raw = ((g.r.next() as u128) << 64) | g.r.next() as u128;
    let v = match g.r.below(5) { 0 => raw, 1 => (1u128 << g.r.below(128)).wrapping_add(g.r.below(5) as u128).wrapping_sub(2), 2 => g.r.below(300) as u128, 3 if !g.l.hot_ints.is_empty() => g.r.pick(&g.l.hot_ints.clone()).wrapping_add(g.r.below(3) as u128).wrapping_sub(1), _ => u128::MAX - g.r.below(300) as u128 };
    let i = if ty.starts_with('u') {
        if bits == 128 { v.to_string() } else { (v & ((1u128 << bits) - 1)).to_string() }
    } else {
        let sh = 128 - bits;
        (((v << sh) as i128) >> sh).to_string()
    };
    let f = match g.r.below(4) {
        0 => g.num(),
        1 => { let e = g.r.below(130) as i32; let x = 2f64.powi(e); let d = [0.0, 1.0, -1.0, 0.5, -0.5]; let y = x + *g.r.pick(&d); if g.r.one(2) { -y } else { y } }
        2 => f64::from_bits(g.r.next()),
        _ => { let x = i.parse::<f64>().unwrap(); f64::from_bits(x.to_bits().wrapping_add(g.r.below(3) as u64).wrapping_sub(1)) }
    };
    vec!["num".into(), ty.into(), format!("{}|{:016x}", i, f.to_bits())]
}
