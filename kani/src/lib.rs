//! Contracts on the numeric conversions of the real crate, for every input (no loops: nothing is bounded).
//! The reference arithmetic uses integers only.
#![cfg(kani)]
use json::{FromJson, Json, ToJson};

/// bits of the f64 nearest to the magnitude `m`, ties to even
fn nearest(m: u128, neg: bool) -> u64 {
    let s = (neg as u64) << 63;
    if m == 0 { return s; }
    let e = 127 - m.leading_zeros();
    if e <= 52 { return s | (((e + 1023) as u64) << 52) | (((m << (52 - e)) as u64) & ((1 << 52) - 1)); }
    let sh = e - 52;
    let q = (m >> sh) as u64;
    let rem = m & ((1u128 << sh) - 1);
    let half = 1u128 << (sh - 1);
    let q = if rem > half || (rem == half && q & 1 == 1) { q + 1 } else { q };
    // q is in [2^52, 2^53]; a carry moves into the exponent
    s | ((((e + 1023) as u64) << 52) + (q - (1 << 52)))
}
/// (magnitude truncated toward zero, saturated at 2^128 - 1; negative; NaN)
fn parts(b: u64) -> (u128, bool, bool) {
    let neg = b >> 63 == 1;
    let e = ((b >> 52) & 0x7FF) as i32;
    let f = b & ((1 << 52) - 1);
    if e == 0x7FF { return (if f == 0 { u128::MAX } else { 0 }, neg, f != 0); }
    if e < 1023 { return (0, neg, false); }
    let m = (f | (1 << 52)) as u128;
    let x = e - 1023;
    if x >= 128 { (u128::MAX, neg, false) } else if x <= 52 { (m >> (52 - x), neg, false) } else { (m << (x - 52), neg, false) }
}
macro_rules! int {
    ($t:ident, $enc:ident, $dec:ident, $rt:ident) => {
        #[kani::proof]
        fn $enc() {
            let x: $t = kani::any();
            #[allow(unused_comparisons)]
            let neg = x < 0;
            let m = if neg { (x as i128).unsigned_abs() } else { x as u128 };
            let want = nearest(m, neg);
            match x.to_json() { Json::Number(f) => assert!(f.to_bits() == want, "encoding is the nearest f64"), _ => panic!("not a number") }
            match <&$t as ToJson>::to_json(&&x) { Json::Number(f) => assert!(f.to_bits() == want, "encoding of a reference is the nearest f64"), _ => panic!("not a number") }
        }
        #[kani::proof]
        fn $dec() {
            let b: u64 = kani::any();
            let (m, neg, nan) = parts(b);
            let j = Json::Number(f64::from_bits(b));
            let r = <$t>::from_json(&j);
            let ok = match &r {
                Ok(x) => {
                    let want: $t = if nan { 0 } else if !neg { if m > $t::MAX as u128 { $t::MAX } else { m as $t } }
                        else if $t::MIN == 0 { 0 } else if m > ($t::MIN as i128).unsigned_abs() { $t::MIN } else { (m as $t).wrapping_neg() };
                    *x == want
                }
                Err(_) => false,
            };
            std::mem::forget(r);
            std::mem::forget(j);
            assert!(ok, "decoding truncates, saturates, maps NaN to zero");
        }
        #[kani::proof]
        fn $rt() {
            let x: $t = kani::any();
            #[allow(unused_comparisons)]
            let m = if x < 0 { (x as i128).unsigned_abs() } else { x as u128 };
            kani::assume(m <= 1 << 53);
            let j = x.to_json();
            let r = <$t>::from_json(&j);
            let ok = matches!(&r, Ok(y) if *y == x);
            std::mem::forget(r);
            std::mem::forget(j);
            assert!(ok, "an integer of magnitude up to 2^53 survives");
        }
    };
}
int!(u8, enc_u8, dec_u8, rt_u8);
int!(u16, enc_u16, dec_u16, rt_u16);
int!(u32, enc_u32, dec_u32, rt_u32);
int!(u64, enc_u64, dec_u64, rt_u64);
int!(u128, enc_u128, dec_u128, rt_u128);
int!(usize, enc_usize, dec_usize, rt_usize);
int!(i8, enc_i8, dec_i8, rt_i8);
int!(i16, enc_i16, dec_i16, rt_i16);
int!(i32, enc_i32, dec_i32, rt_i32);
int!(i64, enc_i64, dec_i64, rt_i64);
int!(i128, enc_i128, dec_i128, rt_i128);
int!(isize, enc_isize, dec_isize, rt_isize);

/// bits of the f64 equal to the f32 with bits `b` (not NaN)
fn widen(b: u32) -> u64 {
    let s = ((b >> 31) as u64) << 63;
    let e = ((b >> 23) & 0xFF) as u64;
    let f = (b & 0x7F_FFFF) as u64;
    if e == 0xFF { return s | (0x7FF << 52); }
    if e != 0 { return s | ((e + 1023 - 127) << 52) | (f << 29); }
    if f == 0 { return s; }
    // subnormal: f * 2^-149
    let k = 63 - f.leading_zeros();
    s | ((k as u64 + 1023 - 149) << 52) | ((f << (52 - k)) & ((1 << 52) - 1))
}
/// bits of the f32 nearest to the f64 with bits `b` (not NaN), ties to even
fn narrow(b: u64) -> u32 {
    let s = ((b >> 63) as u32) << 31;
    let e = ((b >> 52) & 0x7FF) as i32;
    let f = b & ((1 << 52) - 1);
    if e == 0x7FF { return s | 0x7F80_0000; }
    if e == 0 { return s; } // below 2^-1022
    let m = f | (1 << 52); // value = m * 2^(e - 1075)
    let x = e - 1023;
    if x > 127 { return s | 0x7F80_0000; }
    // normal results drop 29 bits, subnormal ones more; the unit of the result is 2^(max(x, -126) - 23)
    let sh = if x >= -126 { 29 } else { 29 + (-126 - x) };
    if sh > 54 { return s; }
    let q = m >> sh;
    let rem = m & ((1 << sh) - 1);
    let half = 1u64 << (sh - 1);
    let q = (if rem > half || (rem == half && q & 1 == 1) { q + 1 } else { q }) as u32;
    // a carry moves into the exponent, up to infinity
    if x >= -126 { s | ((((x + 127) as u32) << 23) + (q - (1 << 23))) } else { s | q }
}
#[kani::proof]
fn enc_f64() {
    let b: u64 = kani::any();
    let x = f64::from_bits(b);
    match x.to_json() { Json::Number(f) => assert!(f.to_bits() == b || (x.is_nan() && f.is_nan()), "an f64 is encoded as itself"), _ => panic!("not a number") }
    match <&f64 as ToJson>::to_json(&&x) { Json::Number(f) => assert!(f.to_bits() == b || (x.is_nan() && f.is_nan()), "a reference to an f64 is encoded as itself"), _ => panic!("not a number") }
}
#[kani::proof]
fn dec_f64() {
    let b: u64 = kani::any();
    let x = f64::from_bits(b);
    let j = Json::Number(x);
    let r = f64::from_json(&j);
    let ok = matches!(&r, Ok(f) if f.to_bits() == b || (x.is_nan() && f.is_nan()));
    std::mem::forget(r);
    std::mem::forget(j);
    assert!(ok, "an f64 is decoded as itself");
}
#[kani::proof]
fn enc_f32() {
    let b: u32 = kani::any();
    let x = f32::from_bits(b);
    let w = widen(b);
    match x.to_json() { Json::Number(f) => assert!(if x.is_nan() { f.is_nan() } else { f.to_bits() == w }, "an f32 is encoded exactly"), _ => panic!("not a number") }
    match <&f32 as ToJson>::to_json(&&x) { Json::Number(f) => assert!(if x.is_nan() { f.is_nan() } else { f.to_bits() == w }, "a reference to an f32 is encoded exactly"), _ => panic!("not a number") }
}
#[kani::proof]
fn dec_f32() {
    let b: u64 = kani::any();
    let x = f64::from_bits(b);
    let j = Json::Number(x);
    let r = f32::from_json(&j);
    let ok = match &r { Ok(f) => if x.is_nan() { f.is_nan() } else { f.to_bits() == narrow(b) }, Err(_) => false };
    std::mem::forget(r);
    std::mem::forget(j);
    assert!(ok, "a number is rounded to the nearest f32");
}
#[kani::proof]
fn rt_f32() {
    let x = f32::from_bits(kani::any());
    let j = x.to_json();
    let r = f32::from_json(&j);
    let ok = matches!(&r, Ok(y) if y.to_bits() == x.to_bits() || (x.is_nan() && y.is_nan()));
    std::mem::forget(r);
    std::mem::forget(j);
    assert!(ok, "an f32 survives");
}
fn no_text(_: std::fmt::Arguments<'_>) -> String { String::new() }
macro_rules! other {
    ($t:ident, $f:ident) => {
        #[kani::proof]
        #[kani::stub(std::fmt::format, no_text)]
        fn $f() {
            let j = match kani::any::<u8>() % 5 { 0 => Json::Null, 1 => Json::Boolean(kani::any()), 2 => Json::String(String::new()), 3 => Json::Array(Vec::new()), _ => Json::Boolean(true) };
            let r = <$t>::from_json(&j);
            let ok = matches!(&r, Err(e) if matches!(e.kind, json::ErrorKind::ConvertError));
            std::mem::forget(r);
            std::mem::forget(j);
            assert!(ok, "a value that is not a number is a conversion error");
        }
    };
}
other!(u8, other_u8);
other!(u16, other_u16);
other!(u32, other_u32);
other!(u64, other_u64);
other!(u128, other_u128);
other!(usize, other_usize);
other!(i8, other_i8);
other!(i16, other_i16);
other!(i32, other_i32);
other!(i64, other_i64);
other!(i128, other_i128);
other!(isize, other_isize);
other!(f32, other_f32);
other!(f64, other_f64);
