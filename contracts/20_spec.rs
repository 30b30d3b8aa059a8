// ------------------------------------------------------------------------------------------------
// vx_spec: what the library has to compute (definitions only, plus the axioms on f64 <-> text).
// ------------------------------------------------------------------------------------------------
pub mod vx_spec {
use vstd::prelude::*;
use std::collections::{HashMap, LinkedList};
use crate::vx_std::*;
use std::str::FromStr;
use crate::{Json, Error, ErrorKind, ToJson, FromJson};
use ErrorKind::*;
use vstd::float::float_cast_spec;
verus! {

// ---- values -------------------------------------------------------------------------------------
/// A JSON value.  An object maps each key to the non-empty list of values it was given, oldest first.
pub ghost enum JV { Obj(Map<Seq<char>, Seq<JV>>), Arr(Seq<JV>), Str(Seq<char>), Num(f64), Bool(bool), Null }

/// the abstract value of a `Json`
pub open spec fn jv(j: Json) -> JV decreases j via jv_dec {
    match j {
        Json::Null => JV::Null,
        Json::Boolean(b) => JV::Bool(b),
        Json::Number(f) => JV::Num(f),
        Json::String(s) => JV::Str(s@),
        Json::Array(v) => JV::Arr(Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { jv(v@[i]) } else { JV::Null })),
        Json::Object(m) => JV::Obj(Map::new(m@.dom().map(|k: String| k@), |k: Seq<char>| jve(keyof(m@.dom(), k), m))),
    }
}
/// the String in `d` with the characters `k`
pub open spec fn keyof(d: Set<String>, k: Seq<char>) -> String { choose|s: String| s@ == k && #[trigger] d.contains(s) }
pub open spec fn jve(k: String, m: HashMap<String, (Json, LinkedList<Json>)>) -> Seq<JV> decreases m via jve_dec {
    if m@.dom().contains(k) {
        let e = m@[k];
        let l = e.1;
        Seq::new((ll(&l).len() + 1) as nat, |i: int| if 0 <= i < ll(&l).len() { jv(ll(&l)[ll(&l).len() - 1 - i]) } else { jv(e.0) })
    } else {
        Seq::empty()
    }
}
#[via_fn]
proof fn jv_dec(j: Json) {
    match j {
        Json::Array(v) => {
            assert forall|i: int| 0 <= i < v@.len() implies decreases_to!(j => v@[i]) by { vstd::std_specs::vec::axiom_vec_index_decreases(v, i); }
        }
        Json::Object(m) => { assert(decreases_to!(j => m)); }
        _ => {}
    }
}
#[via_fn]
proof fn jve_dec(k: String, m: HashMap<String, (Json, LinkedList<Json>)>) {
    if m@.dom().contains(k) {
        vstd::std_specs::hash::axiom_hashmap_decreases(m);
        assert(decreases_to!(m => m@));
        assert(decreases_to!(m@ => m@[k]));
        let e = m@[k];
        assert(decreases_to!(e => e.1));
        assert forall|i: int| 0 <= i < ll(&e.1).len() implies decreases_to!(m => ll(&e.1)[i]) by { axiom_ll_decreases(e.1, i); }
    }
}
/// all values of one object entry, oldest first
pub open spec fn ent(e: (Json, LinkedList<Json>)) -> Seq<JV> {
    Seq::new((ll(&e.1).len() + 1) as nat, |i: int| if 0 <= i < ll(&e.1).len() { jv(ll(&e.1)[ll(&e.1).len() - 1 - i]) } else { jv(e.0) })
}
pub open spec fn jmap(m: Map<String, (Json, LinkedList<Json>)>) -> Map<Seq<char>, Seq<JV>> {
    Map::new(m.dom().map(|k: String| k@), |k: Seq<char>| ent(m[keyof(m.dom(), k)]))
}
pub open spec fn jarr(v: Seq<Json>) -> Seq<JV> { v.map_values(|j: Json| jv(j)) }

/// add one more value to a key, after the values it already has
pub open spec fn obj_append(m: Map<Seq<char>, Seq<JV>>, k: Seq<char>, v: JV) -> Map<Seq<char>, Seq<JV>> {
    m.insert(k, if m.dom().contains(k) { m[k].push(v) } else { seq![v] })
}

// ---- characters ---------------------------------------------------------------------------------
pub open spec fn ws(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' }
pub open spec fn all_ws(s: Seq<char>) -> bool decreases s.len() { s.len() == 0 || (ws(s[0]) && all_ws(s.skip(1))) }
pub open spec fn ltrim(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() > 0 && ws(s[0]) { ltrim(s.skip(1)) } else { s }
}
pub open spec fn rtrim(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() > 0 && ws(s.last()) { rtrim(s.drop_last()) } else { s }
}
/// without leading and trailing whitespace
pub open spec fn trim(s: Seq<char>) -> Seq<char> { rtrim(ltrim(s)) }
pub open spec fn dig(c: char) -> bool { '0' <= c <= '9' }
/// value of a hex digit, -1 for anything else
pub open spec fn hexd(c: char) -> int {
    if '0' <= c <= '9' { c as int - '0' as int }
    else if 'A' <= c <= 'F' { c as int - 'A' as int + 10 }
    else if 'a' <= c <= 'f' { c as int - 'a' as int + 10 }
    else { -1 }
}
pub open spec fn chr(u: int) -> char { u as char }
pub open spec fn is_high(u: int) -> bool { 0xD800 <= u <= 0xDBFF }
pub open spec fn is_low(u: int) -> bool { 0xDC00 <= u <= 0xDFFF }

// ---- numbers ------------------------------------------------------------------------------------
pub open spec fn drop_digits(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() > 0 && dig(s[0]) { drop_digits(s.skip(1)) } else { s }
}
/// RFC 8259 number = [ "-" ] int [ frac ] [ exp ].  With `lax`, an exponent may have no digits.
pub open spec fn num_text(s: Seq<char>, lax: bool) -> bool {
    if s.len() > 0 && s[0] == '-' { num_int(s.skip(1), lax) } else { num_int(s, lax) }
}
pub open spec fn num_int(s: Seq<char>, lax: bool) -> bool {
    if s.len() == 0 { false }
    else if s[0] == '0' { num_frac(s.skip(1), lax) }
    else if dig(s[0]) { num_frac(drop_digits(s), lax) }
    else { false }
}
pub open spec fn num_frac(s: Seq<char>, lax: bool) -> bool {
    if s.len() > 0 && s[0] == '.' { s.len() > 1 && dig(s[1]) && num_exp(drop_digits(s.skip(2)), lax) } else { num_exp(s, lax) }
}
pub open spec fn num_exp(s: Seq<char>, lax: bool) -> bool {
    if s.len() > 0 && (s[0] == 'e' || s[0] == 'E') {
        let t = s.skip(1);
        let d = if t.len() > 0 && (t[0] == '+' || t[0] == '-') { t.skip(1) } else { t };
        (lax || (d.len() > 0 && dig(d[0]))) && drop_digits(d).len() == 0
    } else { s.len() == 0 }
}
pub open spec fn json_number(s: Seq<char>) -> bool { num_text(s, false) }
/// the number a text denotes: strict grammar and finite as an f64
pub open spec fn sp_num(s: Seq<char>) -> Option<JV> {
    if json_number(s) && f64_parse(s) is Some && f64_finite(f64_parse(s).unwrap()) { Some(JV::Num(f64_parse(s).unwrap())) } else { None }
}
// Documented behaviour of `f64::from_str` and of `Display for f64`:
/// every JSON number is in the accepted float grammar
#[verifier::external_body]
pub proof fn axiom_f64_parse_accepts(s: Seq<char>) requires json_number(s) ensures f64_parse(s) is Some {}
/// the float grammar has no text that ends in an exponent letter or a sign
#[verifier::external_body]
pub proof fn axiom_f64_parse_rejects(s: Seq<char>)
    requires s.len() > 0, s.last() == 'e' || s.last() == 'E' || s.last() == '+' || s.last() == '-'
    ensures f64_parse(s) is None {}
/// a finite f64 prints as a JSON number that parses back to the same f64
#[verifier::external_body]
pub proof fn axiom_f64_roundtrip(f: f64) requires f64_finite(f)
    ensures json_number(f64_display(f)), f64_parse(f64_display(f)) == Some(f) {}

// ---- strings ------------------------------------------------------------------------------------
// Decoding of a string literal after its opening quote, with the characters decoded so far.
pub open spec fn str_k(t: Seq<char>, acc: Seq<char>) -> Option<Seq<char>> decreases t.len(), 0int {
    if t.len() == 0 { None }
    else if t[0] == '"' { if all_ws(t.skip(1)) { Some(acc) } else { None } }
    else if t[0] == '\\' {
        if t.len() < 2 { None }
        else if t[1] == '"' || t[1] == '\\' || t[1] == '/' { str_k(t.skip(2), acc.push(t[1])) }
        else if t[1] == 'b' { str_k(t.skip(2), acc.push('\x08')) }
        else if t[1] == 'f' { str_k(t.skip(2), acc.push('\x0C')) }
        else if t[1] == 'n' { str_k(t.skip(2), acc.push('\n')) }
        else if t[1] == 'r' { str_k(t.skip(2), acc.push('\r')) }
        else if t[1] == 't' { str_k(t.skip(2), acc.push('\t')) }
        else if t[1] == 'u' { str_u(t.skip(2), 4, 0, acc) }
        else { None }
    }
    else if (t[0] as int) < 0x20 { None }
    else { str_k(t.skip(1), acc.push(t[0])) }
}
/// `n` more digits of a \u escape whose value so far is `u`
pub open spec fn str_u(t: Seq<char>, n: int, u: int, acc: Seq<char>) -> Option<Seq<char>> decreases t.len(), (if n <= 0 { 1 } else { 1 + n }) {
    if n <= 0 {
        if is_high(u) { if t.len() >= 2 && t[0] == '\\' && t[1] == 'u' { str_u2(t.skip(2), 4, 0, u, acc) } else { None } }
        else if is_low(u) { None }
        else { str_k(t, acc.push(chr(u))) }
    }
    else if t.len() == 0 || hexd(t[0]) < 0 { None }
    else { str_u(t.skip(1), n - 1, u * 16 + hexd(t[0]), acc) }
}
/// `n` more digits of a low surrogate `u2` that follows the high surrogate `u`
pub open spec fn str_u2(t: Seq<char>, n: int, u2: int, u: int, acc: Seq<char>) -> Option<Seq<char>> decreases t.len(), (if n <= 0 { 1 } else { 1 + n }) {
    if n <= 0 {
        if is_low(u2) { str_k(t, acc.push(chr((u - 0xD800) * 1024 + (u2 - 0xDC00) + 0x10000))) } else { None }
    }
    else if t.len() == 0 || hexd(t[0]) < 0 { None }
    else { str_u2(t.skip(1), n - 1, u2 * 16 + hexd(t[0]), u, acc) }
}
pub open spec fn sp_str(s: Seq<char>) -> Option<JV> {
    match str_k(s.skip(1), Seq::empty()) { Some(x) => Some(JV::Str(x)), None => None }
}

// ---- arrays and objects -------------------------------------------------------------------------
/// The value of a text with optional surrounding whitespace.
pub open spec fn sp(s: Seq<char>) -> Option<JV> decreases s.len(), 3int, 0int via sp_dec {
    spt(trim(s))
}
#[via_fn]
proof fn sp_dec(s: Seq<char>) { lemma_trim_len(s); }
pub proof fn lemma_ltrim_len(s: Seq<char>) ensures ltrim(s).len() <= s.len() decreases s.len() {
    if s.len() > 0 && ws(s[0]) { lemma_ltrim_len(s.skip(1)); }
}
pub proof fn lemma_rtrim_len(s: Seq<char>) ensures rtrim(s).len() <= s.len() decreases s.len() {
    if s.len() > 0 && ws(s.last()) { lemma_rtrim_len(s.drop_last()); }
}
pub proof fn lemma_trim_len(s: Seq<char>) ensures trim(s).len() <= s.len() {
    lemma_ltrim_len(s);
    lemma_rtrim_len(ltrim(s));
}
/// The value of a text without surrounding whitespace, by its first character.
pub open spec fn spt(s: Seq<char>) -> Option<JV> decreases s.len(), 2int, 0int {
    if s.len() == 0 { None }
    else if s[0] == 'n' { if s == "null"@ { Some(JV::Null) } else { None } }
    else if s[0] == 't' || s[0] == 'f' { if s == "true"@ { Some(JV::Bool(true)) } else if s == "false"@ { Some(JV::Bool(false)) } else { None } }
    else if s[0] == '-' || dig(s[0]) { sp_num(s) }
    else if s[0] == '"' { sp_str(s) }
    else if s[0] == '[' { match arr_k(s.skip(1), Seq::empty(), Seq::empty(), 0, false) { Some(x) => Some(JV::Arr(x)), None => None } }
    else if s[0] == '{' { match obj_k(s.skip(1), Map::empty(), Seq::empty(), Seq::empty(), true, 0, false) { Some(x) => Some(JV::Obj(x)), None => None } }
    else { None }
}
/// Array text after '[': elements so far, characters of the current element, bracket depth, in-string.
pub open spec fn arr_k(t: Seq<char>, acc: Seq<JV>, cur: Seq<char>, i: int, j: bool) -> Option<Seq<JV>>
    decreases cur.len() + t.len() + 1, 1int, t.len()
{
    if t.len() == 0 { None }
    else if t[0] == ']' && i == 0 && !j {
        if acc.len() == 0 && all_ws(cur) { if all_ws(t.skip(1)) { Some(acc) } else { None } }
        else { match sp(cur) { Some(v) => if all_ws(t.skip(1)) { Some(acc.push(v)) } else { None }, None => None } }
    }
    else if t[0] == ',' && i == 0 && !j {
        match sp(cur) { Some(v) => arr_k(t.skip(1), acc.push(v), Seq::empty(), 0, false), None => None }
    }
    else if t[0] == '\\' {
        if t.len() < 2 { None } else { arr_k(t.skip(2), acc, cur.push(t[0]).push(t[1]), i, j) }
    }
    else { arr_k(t.skip(1), acc, cur.push(t[0]), next_i(t[0], i, j), next_j(t[0], j)) }
}
pub open spec fn next_j(c: char, j: bool) -> bool { if c == '"' { !j } else { j } }
pub open spec fn next_i(c: char, i: int, j: bool) -> int {
    if j { i } else if c == '[' || c == '{' { i + 1 } else if c == ']' || c == '}' { i - 1 } else { i }
}
/// Object text after '{': members so far, characters of the current key and value, which of them is read.
pub open spec fn obj_k(t: Seq<char>, acc: Map<Seq<char>, Seq<JV>>, k: Seq<char>, v: Seq<char>, on_key: bool, i: int, j: bool) -> Option<Map<Seq<char>, Seq<JV>>>
    decreases k.len() + v.len() + t.len() + 1, 1int, t.len()
{
    if t.len() == 0 { None }
    else if t[0] == '}' && i == 0 && !j && on_key && acc == Map::<Seq<char>, Seq<JV>>::empty() && all_ws(k) {
        if all_ws(t.skip(1)) { Some(acc) } else { None }
    }
    else if t[0] == '}' && i == 0 && !j && !on_key {
        match (sp(k), sp(v)) {
            (Some(JV::Str(kk)), Some(vv)) => if all_ws(t.skip(1)) { Some(obj_append(acc, kk, vv)) } else { None },
            _ => None,
        }
    }
    else if t[0] == ',' && i == 0 && !j && !on_key {
        match (sp(k), sp(v)) {
            (Some(JV::Str(kk)), Some(vv)) => obj_k(t.skip(1), obj_append(acc, kk, vv), Seq::empty(), Seq::empty(), true, 0, false),
            _ => None,
        }
    }
    else if t[0] == ':' && i == 0 && !j && on_key { obj_k(t.skip(1), acc, k, v, false, i, j) }
    else if t[0] == '\\' {
        if t.len() < 2 { None }
        else if on_key { obj_k(t.skip(2), acc, k.push(t[0]).push(t[1]), v, on_key, i, j) }
        else { obj_k(t.skip(2), acc, k, v.push(t[0]).push(t[1]), on_key, i, j) }
    }
    else if on_key { obj_k(t.skip(1), acc, k.push(t[0]), v, on_key, next_i(t[0], i, j), next_j(t[0], j)) }
    else { obj_k(t.skip(1), acc, k, v.push(t[0]), on_key, next_i(t[0], i, j), next_j(t[0], j)) }
}

// ---- serialization -------------------------------------------------------------------------------
pub open spec fn hexch(d: int) -> char { if d < 10 { ('0' as int + d) as char } else { ('A' as int + d - 10) as char } }
/// a \\u escape
pub open spec fn hex4(u: int) -> Seq<char> { seq!['\\', 'u', hexch(u / 4096 % 16), hexch(u / 256 % 16), hexch(u / 16 % 16), hexch(u % 16)] }
/// the text of one character inside a string literal
pub open spec fn esc1(c: char) -> Seq<char> {
    let u = c as int;
    if c == '"' { seq!['\\', '"'] }
    else if c == '\\' { seq!['\\', '\\'] }
    else if c == '/' { seq!['\\', '/'] }
    else if u == 0x08 { seq!['\\', 'b'] }
    else if u == 0x0C { seq!['\\', 'f'] }
    else if c == '\n' { seq!['\\', 'n'] }
    else if c == '\r' { seq!['\\', 'r'] }
    else if c == '\t' { seq!['\\', 't'] }
    else if 0x20 <= u <= 0x7E { seq![c] }
    else if u <= 0xFFFF { hex4(u) }
    else { hex4((u - 0x10000) / 1024 + 0xD800) + hex4((u - 0x10000) % 1024 + 0xDC00) }
}
pub open spec fn esc_body(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { esc_body(s.drop_last()) + esc1(s.last()) }
}
/// string literal
pub open spec fn esc(s: Seq<char>) -> Seq<char> { seq!['"'] + esc_body(s) + seq!['"'] }

pub open spec fn sorted_enum(ks: Seq<Seq<char>>, d: Set<Seq<char>>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < ks.len() ==> str_lt(#[trigger] ks[i], #[trigger] ks[j])
    &&& forall|k: Seq<char>| #[trigger] d.contains(k) ==> ks.contains(k)
    &&& forall|i: int| 0 <= i < ks.len() ==> d.contains(#[trigger] ks[i])
}
/// the elements of `d`, in ascending order
pub open spec fn sorted_keys(d: Set<Seq<char>>) -> Seq<Seq<char>> { choose|ks: Seq<Seq<char>>| sorted_enum(ks, d) }

pub open spec fn member_text(k: Seq<char>, v: Seq<char>) -> Seq<char> { esc(k) + seq![':', ' '] + v }
pub open spec fn comma() -> Seq<char> { seq![',', ' '] }
/// the text of a value
pub open spec fn ser(v: JV) -> Seq<char> decreases v, 0int via ser_dec {
    match v {
        JV::Null => "null"@,
        JV::Bool(b) => if b { "true"@ } else { "false"@ },
        JV::Num(f) => if f64_finite(f) { f64_display(f) } else { "null"@ },
        JV::Str(s) => esc(s),
        JV::Arr(a) => seq!['['] + join(ser_list(a, a.len() as int), comma()) + seq![']'],
        JV::Obj(m) => seq!['{'] + join(ser_objs(m, sorted_keys(m.dom()), sorted_keys(m.dom()).len() as int), comma()) + seq!['}'],
    }
}
/// the texts of the first `n` elements
pub open spec fn ser_list(a: Seq<JV>, n: int) -> Seq<Seq<char>> decreases a, n {
    if 0 < n <= a.len() { ser_list(a, n - 1).push(ser(a[n - 1])) } else { Seq::empty() }
}
/// the members for one key with values `a`, oldest value first
pub open spec fn ser_vals(k: Seq<char>, a: Seq<JV>, n: int) -> Seq<Seq<char>> decreases a, n {
    if 0 < n <= a.len() { ser_vals(k, a, n - 1).push(member_text(k, ser(a[n - 1]))) } else { Seq::empty() }
}
/// the members for each of the first `n` keys
pub open spec fn ser_objs(m: Map<Seq<char>, Seq<JV>>, ks: Seq<Seq<char>>, n: int) -> Seq<Seq<char>> decreases m, n via ser_objs_dec {
    if 0 < n <= ks.len() && m.dom().contains(ks[n - 1]) {
        ser_objs(m, ks, n - 1).push(join(ser_vals(ks[n - 1], m[ks[n - 1]], m[ks[n - 1]].len() as int), comma()))
    } else { Seq::empty() }
}
#[via_fn]
proof fn ser_dec(v: JV) {
    match v {
        JV::Arr(a) => { assert(decreases_to!(v => a)); }
        JV::Obj(m) => { assert(decreases_to!(v => m)); }
        _ => {}
    }
}
#[via_fn]
proof fn ser_objs_dec(m: Map<Seq<char>, Seq<JV>>, ks: Seq<Seq<char>>, n: int) {
    if 0 < n <= ks.len() && m.dom().contains(ks[n - 1]) { assert(decreases_to!(m => m[ks[n - 1]])); }
}

/// result of a parsing function against the value the text denotes
pub open spec fn agrees(r: Result<Json, Error>, o: Option<JV>) -> bool {
    match r { Ok(v) => o == Some(jv(v)), Err(e) => o is None && parse_kind(e.kind) }
}
pub open spec fn parse_kind(k: ErrorKind) -> bool {
    k is InvalidJson || k is ParseObjectError || k is ParseArrayError || k is ParseStringError
        || k is ParseNumberError || k is ParseBooleanError || k is ParseNullError
}

/// a failing operation: the error kind, and the value left as it was
pub open spec fn failed<T>(r: Result<T, Error>, old: Json, new: Json, k: ErrorKind) -> bool {
    &&& r matches Err(e) && e.kind == k
    &&& jv(new) == jv(old)
}
pub open spec fn parse_err<T>(r: Result<T, Error>) -> bool { r matches Err(e) && parse_kind(e.kind) }
pub open spec fn conv_err<T>(r: Result<T, Error>) -> bool { r matches Err(e) && e.kind is ConvertError }
pub open spec fn refs(v: Seq<&Json>) -> Seq<JV> { v.map_values(|j: &Json| jv(*j)) }

global size_of usize == 8;
// ---- numeric casts of usize and isize (64 bits) ---------------------------------------------------
pub trait VxCast<T>: Sized {
    spec fn cast_spec(self, r: T) -> bool;
    fn vx_cast_(self) -> (r: T) ensures self.cast_spec(r);
}
impl VxCast<f64> for usize {
    open spec fn cast_spec(self, r: f64) -> bool { float_cast_spec::<u64, f64>(self as u64, r) }
    fn vx_cast_(self) -> (r: f64) { self as u64 as f64 }
}
impl VxCast<f64> for isize {
    open spec fn cast_spec(self, r: f64) -> bool { float_cast_spec::<i64, f64>(self as i64, r) }
    fn vx_cast_(self) -> (r: f64) { self as i64 as f64 }
}
impl VxCast<usize> for f64 {
    open spec fn cast_spec(self, r: usize) -> bool { float_cast_spec::<f64, u64>(self, r as u64) }
    fn vx_cast_(self) -> (r: usize) { self as u64 as usize }
}
impl VxCast<isize> for f64 {
    open spec fn cast_spec(self, r: isize) -> bool { float_cast_spec::<f64, i64>(self, r as i64) }
    fn vx_cast_(self) -> (r: isize) { self as i64 as isize }
}
pub fn vx_cast<S: VxCast<T>, T>(x: S) -> (r: T) ensures x.cast_spec(r) { x.vx_cast_() }

// ---- conversions ---------------------------------------------------------------------------------
pub open spec fn enc_seq<T: ToJson>(s: Seq<T>, v: JV) -> bool {
    v matches JV::Arr(a) && a.len() == s.len() && forall|i: int| 0 <= i < a.len() ==> s[i].enc(#[trigger] a[i])
}
pub open spec fn dec_seq_err<T: FromJson>(a: Seq<JV>, e: Error) -> bool { exists|i: int| 0 <= i < a.len() && #[trigger] T::dec(a[i], Err(e)) }
pub open spec fn kv_keys<K: ToString, V>(s: Seq<(K, V)>) -> Seq<Seq<char>> { s.map_values(|e: (K, V)| e.0.to_string_spec()) }
/// the object made of the first `n` keys and values, in order
pub open spec fn kv_obj(ks: Seq<Seq<char>>, vs: Seq<JV>, n: int) -> Map<Seq<char>, Seq<JV>> decreases n {
    if n <= 0 { Map::empty() } else { obj_append(kv_obj(ks, vs, n - 1), ks[n - 1], vs[n - 1]) }
}
pub open spec fn enc_kvs_upto<K: ToString, V: ToJson>(s: Seq<(K, V)>, w: Seq<JV>, n: int) -> bool {
    w.len() == n && forall|i: int| 0 <= i < n ==> s[i].1.enc(#[trigger] w[i])
}
pub open spec fn enc_kvs<K: ToString, V: ToJson>(s: Seq<(K, V)>, v: JV) -> bool {
    exists|w: Seq<JV>| #[trigger] enc_kvs_upto(s, w, s.len() as int) && v == JV::Obj(kv_obj(kv_keys(s), w, s.len() as int))
}
/// the pairs `x` are stored values of `m`; `src` says which; values of one key in order
pub open spec fn dec_kvs<K: FromStr, V: FromJson>(m: Map<Seq<char>, Seq<JV>>, x: Seq<(K, V)>, src: Seq<(Seq<char>, int)>) -> bool {
    &&& x.len() == src.len()
    &&& forall|i: int| 0 <= i < src.len() ==> dec_kv1(m, #[trigger] src[i], x[i])
    &&& forall|i: int, j: int| 0 <= i < j < src.len() && (#[trigger] src[i]).0 == (#[trigger] src[j]).0 ==> src[i].1 < src[j].1
}
/// the pairs are all the stored values, each once
pub open spec fn dec_kvs_all<K: FromStr, V: FromJson>(m: Map<Seq<char>, Seq<JV>>, x: Seq<(K, V)>) -> bool {
    exists|src: Seq<(Seq<char>, int)>| #[trigger] dec_kvs(m, x, src) && (forall|k: Seq<char>, j: int| m.dom().contains(k) && 0 <= j < m[k].len() ==> #[trigger] src.contains((k, j)))
}
pub open spec fn dec_kv1<K: FromStr, V: FromJson>(m: Map<Seq<char>, Seq<JV>>, s: (Seq<char>, int), x: (K, V)) -> bool {
    &&& m.dom().contains(s.0) && 0 <= s.1 < m[s.0].len()
    &&& K::from_str_spec(s.0, Ok(x.0))
    &&& V::dec(m[s.0][s.1], Ok(x.1))
}
pub open spec fn bad_key<K: FromStr>(k: Seq<char>) -> bool { exists|f: K::Err| #[trigger] K::from_str_spec(k, Err(f)) }
pub open spec fn dec_kv_err<K: FromStr, V: FromJson>(m: Map<Seq<char>, Seq<JV>>, e: Error) -> bool {
    ||| e.kind is ConvertError && exists|k: Seq<char>| #[trigger] m.dom().contains(k) && bad_key::<K>(k)
    ||| exists|k: Seq<char>| #[trigger] m.dom().contains(k) && dec_seq_err::<V>(m[k], e)
}
pub open spec fn enc_map<K: ToString, V: ToJson>(s: Map<K, V>, v: JV) -> bool {
    v matches JV::Obj(m)
    && (forall|k: K| #[trigger] s.dom().contains(k) ==> m.dom().contains(k.to_string_spec()))
    && (forall|t: Seq<char>| #[trigger] m.dom().contains(t) ==> exists|k: K, x: JV| s.dom().contains(k) && k.to_string_spec() == t && m[t] == seq![x] && #[trigger] s[k].enc(x))
}
pub open spec fn dec_map<K: FromStr, V: FromJson>(m: Map<Seq<char>, Seq<JV>>, x: Map<K, V>) -> bool {
    &&& forall|t: Seq<char>| #[trigger] m.dom().contains(t) ==> exists|k: K| x.dom().contains(k) && #[trigger] K::from_str_spec(t, Ok(k))
    &&& forall|k: K| #[trigger] x.dom().contains(k) ==> exists|t: Seq<char>| m.dom().contains(t) && #[trigger] K::from_str_spec(t, Ok(k)) && V::dec(m[t].last(), Ok(x[k]))
}
} // verus!
}
