pub mod vx_lemmas {
use vstd::prelude::*;
use std::collections::{HashMap, LinkedList};
use crate::vx_std::*;
use crate::vx_spec::*;
use std::str::FromStr;
use crate::{Json, Error, ErrorKind, ToJson, FromJson};

verus! {
pub open spec fn opt_str(o: Option<Seq<char>>) -> Option<JV> { match o { Some(x) => Some(JV::Str(x)), None => None } }
pub open spec fn opt_arr(o: Option<Seq<JV>>) -> Option<JV> { match o { Some(x) => Some(JV::Arr(x)), None => None } }
pub open spec fn opt_obj(o: Option<Map<Seq<char>, Seq<JV>>>) -> Option<JV> { match o { Some(x) => Some(JV::Obj(x)), None => None } }
pub open spec fn pow16(k: int) -> int { if k <= 0 { 1 } else if k == 1 { 16 } else if k == 2 { 256 } else if k == 3 { 4096 } else { 65536 } }

pub broadcast proof fn lemma_hex_shift(u: usize, d: usize)
    requires u < 0x10000, d < 16
    ensures #[trigger] ((u << 4) | d) == u * 16 + d
{
    assert(((u << 4) | d) == u * 16 + d) by (bit_vector) requires u < 0x10000, d < 16;
}
pub broadcast proof fn lemma_surrogate_shift(u: usize, d: usize)
    requires u < 0x400, d < 0x400
    ensures #[trigger] ((u << 10) | d) == u * 1024 + d
{
    assert(((u << 10) | d) == u * 1024 + d) by (bit_vector) requires u < 0x400, d < 0x400;
}
pub broadcast proof fn lemma_shr4(u: usize) ensures #[trigger] (u >> 4) == u / 16 { assert(u >> 4 == u / 16) by (bit_vector); }
pub broadcast proof fn lemma_and15(u: usize) ensures #[trigger] (u & 0b1111) == u % 16 { assert(u & 0b1111 == u % 16) by (bit_vector); }
pub broadcast proof fn lemma_shr10(u: usize) ensures #[trigger] (u >> 10) == u / 1024 { assert(u >> 10 == u / 1024) by (bit_vector); }
pub broadcast proof fn lemma_and1023(u: usize) ensures #[trigger] (u & 0b1111111111) == u % 1024 { assert(u & 0b1111111111 == u % 1024) by (bit_vector); }
pub proof fn lemma_hex_step(u: int, n: int)
    requires 0 <= u <= 0xFFFF, 0 <= n <= 4
    ensures u / pow16(n) / 16 == u / pow16(n + 1) || n == 4, n == 4 ==> u / pow16(n) == 0,
        u / pow16(n) == 0 ==> forall|i: int| n <= i < 4 ==> #[trigger] (u / pow16(i)) == 0
{}
pub proof fn lemma_lits()
    ensures "["@ == seq!['['], "]"@ == seq![']'], "{"@ == seq!['{'], "}"@ == seq!['}'], ", "@ == comma(), ": "@ == seq![':', ' '],
        "\\\""@ == seq!['\\', '"'], "\\\\"@ == seq!['\\', '\\'], "\\/"@ == seq!['\\', '/'], "\\b"@ == seq!['\\', 'b'], "\\f"@ == seq!['\\', 'f'],
        "\\n"@ == seq!['\\', 'n'], "\\r"@ == seq!['\\', 'r'], "\\t"@ == seq!['\\', 't'], "\\u0000"@ == hex4(0)
{
    reveal_strlit("["); reveal_strlit("]"); reveal_strlit("{"); reveal_strlit("}"); reveal_strlit(", "); reveal_strlit(": ");
    reveal_strlit("\\\""); reveal_strlit("\\\\"); reveal_strlit("\\/"); reveal_strlit("\\b"); reveal_strlit("\\f");
    reveal_strlit("\\n"); reveal_strlit("\\r"); reveal_strlit("\\t"); reveal_strlit("\\u0000");
    assert("["@ =~= seq!['[']); assert("]"@ =~= seq![']']); assert("{"@ =~= seq!['{']); assert("}"@ =~= seq!['}']);
    assert(", "@ =~= comma()); assert(": "@ =~= seq![':', ' ']);
    assert("\\\""@ =~= seq!['\\', '"']); assert("\\\\"@ =~= seq!['\\', '\\']); assert("\\/"@ =~= seq!['\\', '/']); assert("\\b"@ =~= seq!['\\', 'b']);
    assert("\\f"@ =~= seq!['\\', 'f']); assert("\\n"@ =~= seq!['\\', 'n']); assert("\\r"@ =~= seq!['\\', 'r']); assert("\\t"@ =~= seq!['\\', 't']);
    assert("\\u0000"@ =~= hex4(0));
}
pub proof fn lemma_utf8_bits(u: usize)
    ensures u <= 0x10FFFF ==> {
        &&& (0xC0 | (u >> 6)) as u8 == (if u < 0x800 { (0xC0 + u / 64) as u8 } else { (0xC0 | (u >> 6)) as u8 })
        &&& (0x80 | (u & 0x3F)) as u8 == (0x80 + u % 64) as u8
        &&& (0x80 | ((u >> 6) & 0x3F)) as u8 == (0x80 + u / 64 % 64) as u8
        &&& (0x80 | ((u >> 12) & 0x3F)) as u8 == (0x80 + u / 4096 % 64) as u8
        &&& (u < 0x10000 ==> (0xE0 | (u >> 12)) as u8 == (0xE0 + u / 4096) as u8)
        &&& (0xF0 | (u >> 18)) as u8 == (0xF0 + u / 262144) as u8
    }
{
    if u <= 0x10FFFF {
        assert(u < 0x800 ==> (0xC0usize | (u >> 6usize)) == 0xC0 + u / 64) by (bit_vector) requires u <= 0x10FFFF;
        assert((0x80usize | (u & 0x3F)) == 0x80 + u % 64) by (bit_vector) requires u <= 0x10FFFF;
        assert((0x80usize | ((u >> 6usize) & 0x3F)) == 0x80 + u / 64 % 64) by (bit_vector) requires u <= 0x10FFFF;
        assert((0x80usize | ((u >> 12usize) & 0x3F)) == 0x80 + u / 4096 % 64) by (bit_vector) requires u <= 0x10FFFF;
        assert(u < 0x10000 ==> (0xE0usize | (u >> 12usize)) == 0xE0 + u / 4096) by (bit_vector) requires u <= 0x10FFFF;
        assert((0xF0usize | (u >> 18usize)) == 0xF0 + u / 262144) by (bit_vector) requires u <= 0x10FFFF;
    }
}

// ---- sequences
pub broadcast proof fn lemma_skip_skip(s: Seq<char>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len()
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b)
{
    assert(s.skip(a).skip(b) =~= s.skip(a + b));
}
pub broadcast proof fn lemma_skip_0(s: Seq<char>)
    ensures #[trigger] s.skip(0) == s
{
    assert(s.skip(0) =~= s);
}
pub proof fn lemma_all_ws(s: Seq<char>)
    ensures all_ws(s) <==> forall|i: int| 0 <= i < s.len() ==> ws(#[trigger] s[i])
    decreases s.len()
{
    if s.len() > 0 {
        lemma_all_ws(s.skip(1));
        assert forall|i: int| 0 <= i < s.len() - 1 implies s.skip(1)[i] == s[i + 1] by {}
        if all_ws(s) {
            assert forall|i: int| 0 <= i < s.len() implies ws(#[trigger] s[i]) by { if i > 0 { assert(ws(s.skip(1)[i - 1])); } }
        }
    }
}
// ---- abstract values
pub broadcast proof fn lemma_jarr_push(v: Seq<Json>, x: Json)
    ensures #[trigger] jarr(v.push(x)) == jarr(v).push(jv(x))
{
    assert(jarr(v.push(x)) =~= jarr(v).push(jv(x)));
}
pub broadcast proof fn lemma_jarr_empty(v: Seq<Json>)
    requires v.len() == 0
    ensures #[trigger] jarr(v) == Seq::<JV>::empty()
{
    assert(jarr(v) =~= Seq::<JV>::empty());
}
pub broadcast proof fn lemma_jv_array(v: Vec<Json>)
    ensures #[trigger] jv(Json::Array(v)) == JV::Arr(jarr(v@))
{
    assert(jv(Json::Array(v))->Arr_0 =~= jarr(v@));
}
pub proof fn lemma_jmap_at(m: Map<String, (Json, LinkedList<Json>)>, k: String)
    ensures jmap(m).dom().contains(k@) == m.dom().contains(k), m.dom().contains(k) ==> jmap(m)[k@] == ent(m[k])
{
    if m.dom().contains(k) {
        assert(m.dom().map(|s: String| s@).contains(k@));
        let kk = keyof(m.dom(), k@);
        assert(kk@ == k@ && m.dom().contains(kk));
        axiom_string_ext(k, kk);
    }
    if jmap(m).dom().contains(k@) {
        let s = choose|s: String| m.dom().contains(s) && s@ == k@;
        axiom_string_ext(k, s);
    }
}
pub broadcast proof fn lemma_jmap_contains(m: Map<String, (Json, LinkedList<Json>)>, k: String)
    ensures #![trigger jmap(m), m.dom().contains(k)] jmap(m).dom().contains(k@) == m.dom().contains(k), m.dom().contains(k) ==> jmap(m)[k@] == ent(m[k])
{
    lemma_jmap_at(m, k);
}
pub proof fn lemma_jmap_key(m: Map<String, (Json, LinkedList<Json>)>, ks: Seq<char>) -> (k: String)
    requires jmap(m).dom().contains(ks)
    ensures k@ == ks, m.dom().contains(k)
{
    keyof(m.dom(), ks)
}
pub broadcast proof fn lemma_jmap_insert(m: Map<String, (Json, LinkedList<Json>)>, k: String, e: (Json, LinkedList<Json>))
    ensures #[trigger] jmap(m.insert(k, e)) == jmap(m).insert(k@, ent(e))
{
    let m2 = m.insert(k, e);
    assert forall|ks: Seq<char>| jmap(m2).dom().contains(ks) == jmap(m).insert(k@, ent(e)).dom().contains(ks) by {
        if jmap(m2).dom().contains(ks) {
            let s = lemma_jmap_key(m2, ks);
            lemma_jmap_at(m, s);
        }
        if jmap(m).dom().contains(ks) {
            let s = lemma_jmap_key(m, ks);
            lemma_jmap_at(m2, s);
        }
        lemma_jmap_at(m2, k);
    }
    assert forall|ks: Seq<char>| jmap(m2).dom().contains(ks) implies jmap(m2)[ks] == jmap(m).insert(k@, ent(e))[ks] by {
        let s = lemma_jmap_key(m2, ks);
        lemma_jmap_at(m2, s);
        if ks == k@ { axiom_string_ext(s, k); } else { lemma_jmap_at(m, s); }
    }
    assert(jmap(m2) =~= jmap(m).insert(k@, ent(e)));
}
pub broadcast proof fn lemma_jmap_remove(m: Map<String, (Json, LinkedList<Json>)>, k: String)
    ensures #[trigger] jmap(m.remove(k)) == jmap(m).remove(k@)
{
    let m2 = m.remove(k);
    assert forall|ks: Seq<char>| jmap(m2).dom().contains(ks) == jmap(m).remove(k@).dom().contains(ks) by {
        if jmap(m2).dom().contains(ks) {
            let s = lemma_jmap_key(m2, ks);
            lemma_jmap_at(m, s);
            if ks == k@ { axiom_string_ext(s, k); }
        }
        if jmap(m).dom().contains(ks) {
            let s = lemma_jmap_key(m, ks);
            lemma_jmap_at(m2, s);
        }
    }
    assert forall|ks: Seq<char>| jmap(m2).dom().contains(ks) implies jmap(m2)[ks] == jmap(m).remove(k@)[ks] by {
        let s = lemma_jmap_key(m2, ks);
        lemma_jmap_at(m2, s);
        lemma_jmap_at(m, s);
    }
    assert(jmap(m2) =~= jmap(m).remove(k@));
}
pub broadcast proof fn lemma_jmap_empty(m: Map<String, (Json, LinkedList<Json>)>)
    ensures #[trigger] jmap(m) == Map::<Seq<char>, Seq<JV>>::empty() <==> m == Map::<String, (Json, LinkedList<Json>)>::empty()
{
    if m == Map::<String, (Json, LinkedList<Json>)>::empty() {
        assert forall|ks: Seq<char>| !jmap(m).dom().contains(ks) by {
            if jmap(m).dom().contains(ks) { let s = lemma_jmap_key(m, ks); }
        }
        assert(jmap(m) =~= Map::<Seq<char>, Seq<JV>>::empty());
    }
    if jmap(m) == Map::<Seq<char>, Seq<JV>>::empty() {
        assert forall|k: String| !m.dom().contains(k) by { lemma_jmap_at(m, k); }
        assert(m =~= Map::<String, (Json, LinkedList<Json>)>::empty());
    }
}
pub broadcast proof fn lemma_map_is_empty(m: Map<String, (Json, LinkedList<Json>)>)
    ensures #[trigger] m.is_empty() <==> m == Map::<String, (Json, LinkedList<Json>)>::empty()
{
    if m.is_empty() { assert(m =~= Map::<String, (Json, LinkedList<Json>)>::empty()); }
}
pub broadcast proof fn lemma_jv_object(m: HashMap<String, (Json, LinkedList<Json>)>)
    ensures #[trigger] jv(Json::Object(m)) == JV::Obj(jmap(m@))
{
    let o = jv(Json::Object(m))->Obj_0;
    assert forall|ks: Seq<char>| o.dom().contains(ks) implies o[ks] == jmap(m@)[ks] by {
        let k = keyof(m@.dom(), ks);
        let s = lemma_jmap_key(m@, ks);
        assert(jve(k, m) =~= ent(m@[k]));
    }
    assert(o =~= jmap(m@));
}
pub broadcast proof fn lemma_ent_new(v: Json, l: LinkedList<Json>)
    requires ll(&l).len() == 0
    ensures #[trigger] ent((v, l)) == seq![jv(v)]
{
    assert(ent((v, l)) =~= seq![jv(v)]);
}
pub broadcast proof fn lemma_ent_push(d: (Json, LinkedList<Json>), e: (Json, LinkedList<Json>))
    requires ll(&e.1) == seq![d.0] + ll(&d.1)
    ensures #![trigger ent(d), ent(e)] ent(e) == ent(d).push(jv(e.0))
{
    let x = ent(e);
    let y = ent(d).push(jv(e.0));
    let n = ll(&d.1).len() as int;
    assert(x.len() == y.len());
    assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by {
        if i < n { assert(ll(&e.1)[n - i] == ll(&d.1)[n - i - 1]); }
    }
    assert(x =~= y);
}
pub broadcast group group_vx {
    lemma_hex_shift, lemma_surrogate_shift, lemma_shr4, lemma_and15, lemma_shr10, lemma_and1023, lemma_skip_skip, lemma_skip_0, lemma_jarr_push, lemma_jarr_update, lemma_jarr_remove, lemma_jarr_empty, lemma_jv_array,
    lemma_jmap_contains, lemma_jmap_insert, lemma_jmap_remove, lemma_jmap_empty, lemma_jv_object, lemma_ent_new, lemma_ent_push, lemma_map_is_empty,
    lemma_trim_blank, lemma_sp_blank, lemma_sp_empty, lemma_arr_trailing, lemma_obj_trailing, lemma_obj_append_nonempty,
    lemma_utf8_one, lemma_utf8_of_chr, lemma_add_one, lemma_str_lt_tri, lemma_str_lt_trans, lemma_ser_list, lemma_ser_objs,
}

pub proof fn lemma_drop_digits(s: Seq<char>)
    ensures drop_digits(s).len() <= s.len(), drop_digits(s) == s.skip(s.len() - drop_digits(s).len())
    decreases s.len()
{
    if s.len() > 0 && dig(s[0]) {
        lemma_drop_digits(s.skip(1));
        assert(drop_digits(s) =~= s.skip(s.len() - drop_digits(s).len()));
    } else {
        assert(s.skip(0) =~= s);
    }
}
/// a lax number that f64 parsing accepts is a strict one
pub proof fn lemma_number_lax(s: Seq<char>)
    ensures num_text(s, false) ==> num_text(s, true) && f64_parse(s) is Some,
        num_text(s, true) && !num_text(s, false) ==> f64_parse(s) is None
{
    if num_text(s, false) { axiom_f64_parse_accepts(s); }
    if num_text(s, true) && !num_text(s, false) {
        assert(s.len() > 0);
        // the text after the exponent letter has no digits, so it is empty or a single sign
        let a = if s[0] == '-' { s.skip(1) } else { s };
        let b = if a[0] == '0' { a.skip(1) } else { drop_digits(a) };
        lemma_drop_digits(a);
        let c = if b.len() > 0 && b[0] == '.' { drop_digits(b.skip(2)) } else { b };
        if b.len() > 0 && b[0] == '.' { lemma_drop_digits(b.skip(2)); }
        assert(c.len() > 0 && (c[0] == 'e' || c[0] == 'E'));
        let t = c.skip(1);
        assert(s.last() == c.last());
        axiom_f64_parse_rejects(s);
    }
}
/// trimming with a predicate that decides whitespace
pub proof fn lemma_trimmed<P: Fn(char) -> bool>(s: Seq<char>, p: P, r: Seq<char>)
    requires trimmed(s, p, r), forall|c: char, b: bool| p.ensures((c,), b) ==> b == ws(c)
    ensures r == trim(s)
{
    let (a, b) = choose|a: int, b: int| 0 <= a <= b <= s.len() && r == #[trigger] s.subrange(a, b)
        && (forall|i: int| 0 <= i < a ==> p.ensures((#[trigger] s[i],), true))
        && (forall|i: int| b <= i < s.len() ==> p.ensures((#[trigger] s[i],), true))
        && (a < b ==> p.ensures((s[a],), false) && p.ensures((s[b - 1],), false));
    assert forall|i: int| 0 <= i < a implies ws(s[i]) by { assert(p.ensures((s[i],), true)); }
    assert forall|i: int| b <= i < s.len() implies ws(s[i]) by { assert(p.ensures((s[i],), true)); }
    if a < b {
        lemma_ltrim_at(s, a);
        assert(s.skip(a).len() == s.len() - a);
        lemma_rtrim_at(s.skip(a), b - a);
        assert(s.skip(a).take(b - a) =~= s.subrange(a, b));
    } else {
        lemma_all_ws(s);
        lemma_trim_ws(s);
        assert(s.subrange(a, b) =~= Seq::<char>::empty());
    }
}
/// only whitespace has nothing left after trimming
pub broadcast proof fn lemma_trim_blank(s: Seq<char>)
    ensures #![trigger trim(s), all_ws(s)] trim(s).len() == 0 <==> all_ws(s)
{
    if all_ws(s) { lemma_trim_ws(s); } else { lemma_ltrim_nonblank(s); lemma_rtrim_len1(ltrim(s)); }
}
pub proof fn lemma_ltrim_nonblank(s: Seq<char>)
    requires !all_ws(s)
    ensures ltrim(s).len() > 0, !ws(ltrim(s)[0])
    decreases s.len()
{
    if ws(s[0]) { lemma_ltrim_nonblank(s.skip(1)); }
}
pub proof fn lemma_rtrim_len1(s: Seq<char>)
    requires s.len() > 0, !ws(s[0])
    ensures rtrim(s).len() > 0, rtrim(s)[0] == s[0]
    decreases s.len()
{
    if ws(s.last()) { lemma_rtrim_len1(s.drop_last()); }
}
/// a text that starts with a closing bracket or comma has no value
pub proof fn lemma_sp_first(s: Seq<char>)
    requires s.len() > 0, !ws(s[0])
    ensures trim(s).len() > 0, trim(s)[0] == s[0]
{
    lemma_rtrim_len1(s);
}
pub broadcast proof fn lemma_sp_blank(s: Seq<char>)
    requires all_ws(s)
    ensures (#[trigger] sp(s)) is None
{
    lemma_trim_ws(s);
}
pub broadcast proof fn lemma_sp_empty(s: Seq<char>)
    requires s.len() == 0
    ensures (#[trigger] sp(s)) is None
{
    lemma_trim_ws(s);
}
/// nothing between ',' and ']'
pub broadcast proof fn lemma_arr_trailing(t: Seq<char>, acc: Seq<JV>, cur: Seq<char>)
    requires t.len() > 0, t[0] == ',', cur.len() == 0 || (t.len() > 1 && t[1] == ']')
    ensures (#[trigger] arr_k(t, acc, cur, 0, false)) is None
{
    lemma_sp_empty(Seq::empty());
    if cur.len() == 0 { lemma_sp_empty(cur); }
    reveal_with_fuel(arr_k, 2);
}
/// nothing between ',' and '}'
pub broadcast proof fn lemma_obj_trailing(t: Seq<char>, acc: Map<Seq<char>, Seq<JV>>, k: Seq<char>, v: Seq<char>)
    requires t.len() > 0, t[0] == ',', k.len() == 0 || v.len() == 0 || (t.len() > 1 && t[1] == '}')
    ensures (#[trigger] obj_k(t, acc, k, v, false, 0, false)) is None
{
    if k.len() == 0 { lemma_sp_empty(k); return; }
    if v.len() == 0 { lemma_sp_empty(v); return; }
    let kk = (sp(k)->Some_0)->Str_0;
    let vv = sp(v)->Some_0;
    let acc2 = obj_append(acc, kk, vv);
    let t2 = t.skip(1);
    lemma_obj_append_nonempty(acc, kk, vv);
    lemma_obj_bad_key(t2.skip(1), acc2, Seq::empty().push('}'), Seq::empty(), true, -1, false);
    assert(obj_k(t2, acc2, Seq::empty(), Seq::empty(), true, 0, false) is None);
}
pub proof fn lemma_obj_bad_key(t: Seq<char>, acc: Map<Seq<char>, Seq<JV>>, k: Seq<char>, v: Seq<char>, on_key: bool, i: int, j: bool)
    requires k.len() > 0, k[0] == '}'
    ensures obj_k(t, acc, k, v, on_key, i, j) is None
    decreases t.len()
{
    lemma_sp_first(k);
    assert(sp(k) is None);
    if t.len() > 0 {
        let c = t[0];
        if c == ':' && i == 0 && !j && on_key {
            lemma_obj_bad_key(t.skip(1), acc, k, v, false, i, j);
        } else if c == '\\' {
            if t.len() >= 2 {
                lemma_obj_bad_key(t.skip(2), acc, k.push(t[0]).push(t[1]), v, on_key, i, j);
                lemma_obj_bad_key(t.skip(2), acc, k, v.push(t[0]).push(t[1]), on_key, i, j);
            }
        } else {
            lemma_obj_bad_key(t.skip(1), acc, k.push(c), v, on_key, next_i(c, i, j), next_j(c, j));
            lemma_obj_bad_key(t.skip(1), acc, k, v.push(c), on_key, next_i(c, i, j), next_j(c, j));
        }
    }
}
pub broadcast proof fn lemma_obj_append_nonempty(m: Map<Seq<char>, Seq<JV>>, k: Seq<char>, v: JV)
    ensures (#[trigger] obj_append(m, k, v)) != Map::<Seq<char>, Seq<JV>>::empty()
{
    assert(obj_append(m, k, v).dom().contains(k));
}
// ---- UTF-8
pub open spec fn scalar(u: int) -> bool { 0 <= u <= 0x10FFFF && !(0xD800 <= u <= 0xDFFF) }
pub proof fn lemma_char_scalar(c: char) ensures scalar(c as int), c as int == c as u32 {}
pub proof fn lemma_utf8_prefix(a: int, b: int, x: Seq<u8>, y: Seq<u8>)
    requires 0 <= a <= 0x10FFFF, 0 <= b <= 0x10FFFF, utf8_1(a) + x == utf8_1(b) + y
    ensures a == b, x == y
{
    let p = utf8_1(a) + x;
    let q = utf8_1(b) + y;
    assert(p[0] == utf8_1(a)[0] && q[0] == utf8_1(b)[0]);
    assert(utf8_1(a).len() == utf8_1(b).len());
    let n = utf8_1(a).len() as int;
    assert forall|i: int| 0 <= i < n implies utf8_1(a)[i] == utf8_1(b)[i] by { assert(p[i] == q[i]); }
    lemma_utf8_1_inj(a, b);
    assert(x =~= p.skip(n));
    assert(y =~= q.skip(n));
}
spec fn utf8_inv(s: Seq<u8>) -> int {
    if s.len() == 1 { s[0] as int }
    else if s.len() == 2 { (s[0] - 0xC0) * 64 + (s[1] - 0x80) }
    else if s.len() == 3 { (s[0] - 0xE0) * 4096 + (s[1] - 0x80) * 64 + (s[2] - 0x80) }
    else { (s[0] - 0xF0) * 262144 + (s[1] - 0x80) * 4096 + (s[2] - 0x80) * 64 + (s[3] - 0x80) }
}
proof fn lemma_div64(u: int) requires 0 <= u
    ensures u == u / 64 * 64 + u % 64, u / 64 == u / 4096 * 64 + u / 64 % 64, u / 4096 == u / 262144 * 64 + u / 4096 % 64
{
    assert(u / 4096 == (u / 64) / 64) by(nonlinear_arith) requires 0 <= u;
    assert(u / 262144 == (u / 4096) / 64) by(nonlinear_arith) requires 0 <= u;
}
proof fn lemma_utf8_1_inv(u: int) requires 0 <= u <= 0x10FFFF ensures utf8_inv(utf8_1(u)) == u {
    lemma_div64(u);
    let s = utf8_1(u);
    if u < 0x80 { assert(s.len() == 1 && s[0] == u); }
    else if u < 0x800 { assert(s.len() == 2 && s[0] == 0xC0 + u / 64 && s[1] == 0x80 + u % 64); }
    else if u < 0x10000 { assert(s.len() == 3 && s[0] == 0xE0 + u / 4096 && s[1] == 0x80 + u / 64 % 64 && s[2] == 0x80 + u % 64); }
    else { assert(s.len() == 4 && s[0] == 0xF0 + u / 262144 && s[1] == 0x80 + u / 4096 % 64 && s[2] == 0x80 + u / 64 % 64 && s[3] == 0x80 + u % 64); }
}
proof fn lemma_utf8_1_inj(a: int, b: int)
    requires 0 <= a <= 0x10FFFF, 0 <= b <= 0x10FFFF, utf8_1(a).len() == utf8_1(b).len(),
        forall|i: int| 0 <= i < utf8_1(a).len() ==> utf8_1(a)[i] == utf8_1(b)[i]
    ensures a == b
{
    lemma_utf8_1_inv(a);
    lemma_utf8_1_inv(b);
    assert(utf8_1(a) =~= utf8_1(b));
}
/// the UTF-8 form of one scalar value is the UTF-8 form of that character alone; surrogates have none
pub broadcast proof fn lemma_utf8_one(t: Seq<char>, u: int)
    requires 0 <= u <= 0x10FFFF
    ensures #![trigger utf8(t), utf8_1(u)] utf8(t) == utf8_1(u) ==> scalar(u) && t == seq![chr(u)]
{
    if utf8(t) == utf8_1(u) {
        assert(utf8_1(u).len() > 0);
        assert(t.len() > 0);
        lemma_char_scalar(t[0]);
        assert(utf8_1(u) =~= utf8_1(u) + Seq::<u8>::empty());
        lemma_utf8_prefix(t[0] as int, u, utf8(t.skip(1)), Seq::empty());
        if t.len() > 1 { assert(utf8(t.skip(1)).len() > 0); }
        assert(t =~= seq![chr(u)]);
    }
}
pub broadcast proof fn lemma_utf8_of_chr(u: int)
    requires scalar(u)
    ensures #![trigger utf8_1(u)] utf8(seq![chr(u)]) == utf8_1(u)
{
    let t = seq![chr(u)];
    assert(t[0] as int == u);
    assert(t.skip(1) =~= Seq::empty());
    assert(utf8(t.skip(1)) =~= Seq::empty());
    assert(utf8(t) =~= utf8_1(u));
}
pub broadcast proof fn lemma_add_one(s: Seq<char>, c: char)
    ensures #[trigger] (s + seq![c]) == s.push(c)
{
    assert(s + seq![c] =~= s.push(c));
}
pub proof fn lemma_ltrim_at(s: Seq<char>, a: int)
    requires 0 <= a < s.len(), forall|i: int| 0 <= i < a ==> ws(s[i]), !ws(s[a])
    ensures ltrim(s) == s.skip(a)
    decreases a
{
    if a > 0 {
        assert forall|i: int| 0 <= i < a - 1 implies ws(s.skip(1)[i]) by { assert(s.skip(1)[i] == s[i + 1]); }
        lemma_ltrim_at(s.skip(1), a - 1);
        assert(s.skip(1).skip(a - 1) =~= s.skip(a));
    } else {
        assert(s.skip(0) =~= s);
    }
}
pub proof fn lemma_rtrim_at(s: Seq<char>, b: int)
    requires 0 < b <= s.len(), forall|i: int| b <= i < s.len() ==> ws(s[i]), !ws(s[b - 1])
    ensures rtrim(s) == s.take(b)
    decreases s.len()
{
    if b < s.len() {
        lemma_rtrim_at(s.drop_last(), b);
        assert(s.drop_last().take(b) =~= s.take(b));
    } else {
        assert(s.take(b) =~= s);
    }
}
pub proof fn lemma_trim_ws(s: Seq<char>)
    requires all_ws(s)
    ensures trim(s) == Seq::<char>::empty()
    decreases s.len()
{
    if s.len() > 0 {
        lemma_trim_ws(s.skip(1));
    } else {
        assert(s =~= Seq::<char>::empty());
    }
}

// ---- order of texts
pub broadcast proof fn lemma_str_lt_tri(a: Seq<char>, b: Seq<char>)
    ensures #![trigger str_lt(a, b)] !(str_lt(a, b) && str_lt(b, a)), !str_lt(a, b) && !str_lt(b, a) ==> a == b, a == b ==> !str_lt(a, b)
    decreases a.len()
{
    if a.len() == 0 || b.len() == 0 {
        if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
    } else if a[0] == b[0] {
        lemma_str_lt_tri(a.skip(1), b.skip(1));
        assert(a =~= seq![a[0]] + a.skip(1));
        assert(b =~= seq![b[0]] + b.skip(1));
    }
}
pub broadcast proof fn lemma_str_lt_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires #[trigger] str_lt(a, b), #[trigger] str_lt(b, c)
    ensures str_lt(a, c)
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] { lemma_str_lt_trans(a.skip(1), b.skip(1), c.skip(1)); }
}
pub proof fn lemma_sorted_unique(x: Seq<Seq<char>>, y: Seq<Seq<char>>, d: Set<Seq<char>>)
    requires sorted_enum(x, d), sorted_enum(y, d)
    ensures x == y
    decreases x.len()
{
    broadcast use {lemma_str_lt_tri, lemma_str_lt_trans};
    if x.len() == 0 {
        if y.len() > 0 { assert(d.contains(y[0])); assert(x.contains(y[0])); }
        assert(x =~= y);
    } else {
        assert(d.contains(x[0]));
        assert(y.contains(x[0]));
        assert(d.contains(y[0]));
        assert(x.contains(y[0]));
        if x[0] != y[0] {
            let i = choose|i: int| 0 <= i < x.len() && x[i] == y[0];
            let j = choose|j: int| 0 <= j < y.len() && y[j] == x[0];
            assert(str_lt(x[0], x[i]));
            assert(str_lt(y[0], y[j]));
            assert(false);
        }
        let d2 = d.remove(x[0]);
        let (x2, y2) = (x.skip(1), y.skip(1));
        assert forall|k: Seq<char>| #[trigger] d2.contains(k) implies x2.contains(k) && y2.contains(k) by {
            let i = choose|i: int| 0 <= i < x.len() && x[i] == k;
            let j = choose|j: int| 0 <= j < y.len() && y[j] == k;
            assert(x.contains(k) && y.contains(k));
            assert(x2[i - 1] == k && y2[j - 1] == k);
        }
        assert forall|i: int| 0 <= i < x2.len() implies d2.contains(#[trigger] x2[i]) by { assert(str_lt(x[0], x[i + 1])); assert(d.contains(x[i + 1])); }
        assert forall|i: int| 0 <= i < y2.len() implies d2.contains(#[trigger] y2[i]) by { assert(str_lt(y[0], y[i + 1])); assert(d.contains(y[i + 1])); }
        assert forall|i: int, j: int| 0 <= i < j < x2.len() implies str_lt(#[trigger] x2[i], #[trigger] x2[j]) by { assert(str_lt(x[i + 1], x[j + 1])); }
        assert forall|i: int, j: int| 0 <= i < j < y2.len() implies str_lt(#[trigger] y2[i], #[trigger] y2[j]) by { assert(str_lt(y[i + 1], y[j + 1])); }
        lemma_sorted_unique(x2, y2, d2);
        assert(x =~= seq![x[0]] + x2);
        assert(y =~= seq![y[0]] + y2);
    }
}
pub type Ent<'a> = (&'a String, &'a (Json, LinkedList<Json>));
/// `s` lists every entry of `m` once
pub open spec fn lists(s: Seq<Ent>, m: Map<String, (Json, LinkedList<Json>)>) -> bool {
    &&& s.no_duplicates()
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains(*(#[trigger] s[i]).0) && m[*s[i].0] == *s[i].1
    &&& forall|k: String| #[trigger] m.dom().contains(k) ==> s.contains((&k, &m[k]))
}
pub open spec fn lists_sorted(s: Seq<Ent>, m: Map<String, (Json, LinkedList<Json>)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains(*(#[trigger] s[i]).0) && m[*s[i].0] == *s[i].1
    &&& s.len() == sorted_keys(jmap(m).dom()).len()
    &&& forall|i: int| 0 <= i < s.len() ==> sorted_keys(jmap(m).dom())[i] == (#[trigger] s[i]).0@
}
pub proof fn lemma_sorted_entries(a: Seq<Ent>, s: Seq<Ent>, m: Map<String, (Json, LinkedList<Json>)>)
    requires
        lists(a, m),
        s.len() == a.len(), s.no_duplicates(),
        forall|x: Ent| #[trigger] s.contains(x) <==> a.contains(x),
        forall|i: int, j: int| 0 <= i < j < s.len() ==> !(str_ord((#[trigger] s[i]).0@, (#[trigger] s[j]).0@) is Greater)
    ensures lists_sorted(s, m)
{
    let ks = s.map_values(|e: Ent| e.0@);
    let d = jmap(m).dom();
    assert forall|i: int| 0 <= i < s.len() implies m.dom().contains(*(#[trigger] s[i]).0) && m[*s[i].0] == *s[i].1 by {
        assert(s.contains(s[i]));
        assert(a.contains(s[i]));
    }
    assert forall|k: Seq<char>| #[trigger] d.contains(k) implies ks.contains(k) by {
        let kk = lemma_jmap_key(m, k);
        assert(a.contains((&kk, &m[kk])));
        assert(s.contains((&kk, &m[kk])));
        let i = choose|i: int| 0 <= i < s.len() && s[i] == (&kk, &m[kk]);
        assert(ks[i] == k);
    }
    assert forall|i: int| 0 <= i < ks.len() implies d.contains(#[trigger] ks[i]) by { lemma_jmap_at(m, *s[i].0); }
    assert forall|i: int, j: int| 0 <= i < j < ks.len() implies str_lt(#[trigger] ks[i], #[trigger] ks[j]) by {
        let (x, y) = (s[i], s[j]);
        assert(!(str_ord(x.0@, y.0@) is Greater));
        if x.0@ == y.0@ {
            axiom_string_ext(*x.0, *y.0);
            assert(x == y);
        }
    }
    assert(sorted_enum(ks, d));
    lemma_sorted_unique(ks, sorted_keys(d), d);
}
pub proof fn lemma_sorted_dom(m: Map<String, (Json, LinkedList<Json>)>, s: Seq<Ent>)
    requires lists_sorted(s, m)
    ensures forall|i: int| 0 <= i < s.len() ==> jmap(m).dom().contains(#[trigger] sorted_keys(jmap(m).dom())[i])
{
    assert forall|i: int| 0 <= i < s.len() implies jmap(m).dom().contains(#[trigger] sorted_keys(jmap(m).dom())[i]) by {
        lemma_jmap_at(m, *s[i].0);
    }
}
pub proof fn lemma_obj_dec(j: Json, k: String)
    requires j is Object, j->Object_0@.dom().contains(k)
    ensures
        decreases_to!(j => j->Object_0@[k].0),
        forall|i: int| 0 <= i < ll(&j->Object_0@[k].1).len() ==> decreases_to!(j => #[trigger] ll(&j->Object_0@[k].1)[i])
{
    let m = j->Object_0;
    vstd::std_specs::hash::axiom_hashmap_decreases(m);
    assert(decreases_to!(j => m));
    assert(decreases_to!(m => m@));
    assert(decreases_to!(m@ => m@[k]));
    let e = m@[k];
    assert(decreases_to!(e => e.0));
    assert(decreases_to!(e => e.1));
    assert forall|i: int| 0 <= i < ll(&e.1).len() implies decreases_to!(j => #[trigger] ll(&e.1)[i]) by { axiom_ll_decreases(e.1, i); }
}
/// the parts joined, with a separator after each
pub open spec fn jpre(parts: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> {
    if parts.len() == 0 { Seq::empty() } else { join(parts, sep) + sep }
}
pub proof fn lemma_jpre(parts: Seq<Seq<char>>, sep: Seq<char>, n: int)
    requires 0 <= n < parts.len()
    ensures
        jpre(parts.take(n + 1), sep) == jpre(parts.take(n), sep) + parts[n] + sep,
        join(parts.take(n + 1), sep) == jpre(parts.take(n), sep) + parts[n]
{
    let p = parts.take(n + 1);
    assert(p.drop_last() =~= parts.take(n));
    if n == 0 { assert(jpre(parts.take(n), sep) + parts[n] =~= parts[n]); }
}
pub broadcast proof fn lemma_ser_list(a: Seq<JV>, n: int)
    requires 0 <= n <= a.len()
    ensures (#[trigger] ser_list(a, n)).len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] ser_list(a, n)[i]) == ser(a[i])
    decreases n
{ if n > 0 { lemma_ser_list(a, n - 1); } }
pub broadcast proof fn lemma_ser_vals(k: Seq<char>, a: Seq<JV>, n: int)
    requires 0 <= n <= a.len()
    ensures (#[trigger] ser_vals(k, a, n)).len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] ser_vals(k, a, n)[i]) == member_text(k, ser(a[i]))
    decreases n
{ if n > 0 { lemma_ser_vals(k, a, n - 1); } }
pub open spec fn members(m: Map<Seq<char>, Seq<JV>>, k: Seq<char>) -> Seq<Seq<char>> { ser_vals(k, m[k], m[k].len() as int) }
pub broadcast proof fn lemma_ser_objs(m: Map<Seq<char>, Seq<JV>>, ks: Seq<Seq<char>>, n: int)
    requires 0 <= n <= ks.len(), forall|i: int| 0 <= i < ks.len() ==> m.dom().contains(#[trigger] ks[i])
    ensures (#[trigger] ser_objs(m, ks, n)).len() == n,
        forall|i: int| 0 <= i < n ==> (#[trigger] ser_objs(m, ks, n)[i]) == join(members(m, ks[i]), comma())
    decreases n
{ if n > 0 { lemma_ser_objs(m, ks, n - 1); } }
/// `ps` are the members of a key with last value `js` and older values `l` (newest first)
pub open spec fn members_of(ps: Seq<Seq<char>>, k: Seq<char>, js: Json, l: Seq<Json>) -> bool {
    &&& ps.len() == l.len() + 1
    &&& forall|i: int| 0 <= i < l.len() ==> (#[trigger] ps[i]) == member_text(k, ser(jv(l[l.len() - 1 - i])))
    &&& ps[l.len() as int] == member_text(k, ser(jv(js)))
}
pub proof fn lemma_members(m: Map<String, (Json, LinkedList<Json>)>, k: String)
    requires m.dom().contains(k)
    ensures members_of(members(jmap(m), k@), k@, m[k].0, ll(&m[k].1))
{
    lemma_jmap_at(m, k);
    lemma_ser_vals(k@, jmap(m)[k@], jmap(m)[k@].len() as int);
}
pub proof fn lemma_kv_obj_push(ks: Seq<Seq<char>>, w: Seq<JV>, x: JV, n: int)
    requires 0 <= n == w.len()
    ensures kv_obj(ks, w.push(x), n + 1) == obj_append(kv_obj(ks, w, n), ks[n], x)
{
    lemma_kv_obj_prefix(ks, w, w.push(x), n);
}
pub proof fn lemma_kv_obj_prefix(ks: Seq<Seq<char>>, a: Seq<JV>, b: Seq<JV>, n: int)
    requires forall|i: int| 0 <= i < n ==> a[i] == b[i]
    ensures kv_obj(ks, a, n) == kv_obj(ks, b, n)
    decreases n
{
    if n > 0 { lemma_kv_obj_prefix(ks, a, b, n - 1); }
}
pub broadcast proof fn lemma_jarr_update(v: Seq<Json>, i: int, x: Json)
    requires 0 <= i < v.len()
    ensures #[trigger] jarr(v.update(i, x)) == jarr(v).update(i, jv(x))
{ assert(jarr(v.update(i, x)) =~= jarr(v).update(i, jv(x))); }
pub broadcast proof fn lemma_jarr_remove(v: Seq<Json>, i: int)
    requires 0 <= i < v.len()
    ensures #[trigger] jarr(v.remove(i)) == jarr(v).remove(i)
{ assert(jarr(v.remove(i)) =~= jarr(v).remove(i)); }
pub proof fn lemma_dec_kvs_push<K: FromStr, V: FromJson>(m: Map<Seq<char>, Seq<JV>>, x: Seq<(K, V)>, src: Seq<(Seq<char>, int)>, k: Seq<char>, j: int, p: (K, V))
    requires dec_kvs(m, x, src), dec_kv1(m, (k, j), p), forall|i: int| 0 <= i < src.len() && (#[trigger] src[i]).0 == k ==> src[i].1 < j
    ensures dec_kvs(m, x.push(p), src.push((k, j))),
        forall|q: (Seq<char>, int)| src.contains(q) ==> #[trigger] src.push((k, j)).contains(q),
        src.push((k, j)).contains((k, j))
{
    let s2 = src.push((k, j));
    assert(s2[src.len() as int] == (k, j));
    assert forall|q: (Seq<char>, int)| src.contains(q) implies #[trigger] s2.contains(q) by {
        let i = choose|i: int| 0 <= i < src.len() && src[i] == q;
        assert(s2[i] == q);
    }
}
pub open spec fn map_listed<K, V>(s: Seq<(&K, &V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains(*(#[trigger] s[i]).0) && m[*s[i].0] == *s[i].1
    &&& forall|k: K| #[trigger] m.dom().contains(k) ==> s.contains((&k, &m[k]))
}
pub open spec fn enc_map_upto<K: ToString, V: ToJson>(s: Map<K, V>, l: Seq<(&K, &V)>, n: int, m: Map<Seq<char>, Seq<JV>>) -> bool {
    &&& forall|i: int| 0 <= i < n ==> m.dom().contains((#[trigger] l[i]).0.to_string_spec())
    &&& forall|t: Seq<char>| #[trigger] m.dom().contains(t) ==> exists|k: K, x: JV| s.dom().contains(k) && k.to_string_spec() == t && m[t] == seq![x] && #[trigger] s[k].enc(x)
}
pub proof fn lemma_enc_map_push<K: ToString, V: ToJson>(s: Map<K, V>, l: Seq<(&K, &V)>, n: int, m: Map<Seq<char>, Seq<JV>>, x: JV)
    requires enc_map_upto(s, l, n, m), map_listed(l, s), 0 <= n < l.len(), l[n].1.enc(x)
    ensures enc_map_upto(s, l, n + 1, m.insert(l[n].0.to_string_spec(), seq![x]))
{
    let m2 = m.insert(l[n].0.to_string_spec(), seq![x]);
    let k = *l[n].0;
    assert(s.dom().contains(k) && s[k].enc(x));
    assert forall|t: Seq<char>| #[trigger] m2.dom().contains(t) implies exists|k: K, x: JV| s.dom().contains(k) && k.to_string_spec() == t && m2[t] == seq![x] && #[trigger] s[k].enc(x) by {
        if t != k.to_string_spec() { assert(m.dom().contains(t)); }
    }
}
pub open spec fn dec_map_upto<K: FromStr, V: FromJson>(m: Map<Seq<char>, Seq<JV>>, done: Seq<Seq<char>>, x: Map<K, V>) -> bool {
    &&& forall|i: int| 0 <= i < done.len() ==> m.dom().contains(#[trigger] done[i]) && exists|k: K| x.dom().contains(k) && #[trigger] K::from_str_spec(done[i], Ok(k))
    &&& forall|k: K| #[trigger] x.dom().contains(k) ==> exists|t: Seq<char>| m.dom().contains(t) && #[trigger] K::from_str_spec(t, Ok(k)) && V::dec(m[t].last(), Ok(x[k]))
}
pub proof fn lemma_dec_map_push<K: FromStr, V: FromJson>(m: Map<Seq<char>, Seq<JV>>, done: Seq<Seq<char>>, x: Map<K, V>, t: Seq<char>, k: K, v: V)
    requires dec_map_upto(m, done, x), m.dom().contains(t), K::from_str_spec(t, Ok(k)), V::dec(m[t].last(), Ok(v))
    ensures dec_map_upto(m, done.push(t), x.insert(k, v))
{
    let x2 = x.insert(k, v);
    let d2 = done.push(t);
    assert forall|i: int| 0 <= i < d2.len() implies m.dom().contains(#[trigger] d2[i]) && exists|k: K| x2.dom().contains(k) && #[trigger] K::from_str_spec(d2[i], Ok(k)) by {
        if i < done.len() {
            assert(d2[i] == done[i]);
            let kk = choose|kk: K| x.dom().contains(kk) && #[trigger] K::from_str_spec(done[i], Ok(kk));
            assert(x2.dom().contains(kk) && K::from_str_spec(d2[i], Ok(kk)));
        } else { assert(x2.dom().contains(k) && K::from_str_spec(d2[i], Ok(k))); }
    }
    assert forall|q: K| #[trigger] x2.dom().contains(q) implies exists|t: Seq<char>| m.dom().contains(t) && #[trigger] K::from_str_spec(t, Ok(q)) && V::dec(m[t].last(), Ok(x2[q])) by {
        if q != k { assert(x.dom().contains(q)); }
    }
}
} // verus!
}
