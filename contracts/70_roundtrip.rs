// ------------------------------------------------------------------------------------------------
// vx_roundtrip: the serializer's text is in the grammar, is ASCII, and denotes the value (C03-C05)
// ------------------------------------------------------------------------------------------------
pub mod vx_roundtrip {
use vstd::prelude::*;
use std::collections::{HashMap, LinkedList};
use crate::vx_std::*;
use crate::vx_spec::*;
use crate::vx_lemmas::*;
use crate::vx_grammar::*;
use crate::vx_path::*;
use crate::vx_laws::*;
use crate::{Json, ErrorKind};
use ErrorKind::*;
verus! {

/// values there are: every key of an object has a value
pub open spec fn wf(v: JV) -> bool decreases v, 0int via wf_dec {
    match v {
        JV::Arr(a) => wf_all(a),
        JV::Obj(m) => forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> wf_key(m, k),
        _ => true,
    }
}
pub open spec fn wf_all(a: Seq<JV>) -> bool decreases a, 0int via wf_all_dec { forall|i: int| 0 <= i < a.len() ==> wf(#[trigger] a[i]) }
pub open spec fn wf_key(m: Map<Seq<char>, Seq<JV>>, k: Seq<char>) -> bool decreases m, 0int via wf_key_dec { m.dom().contains(k) && m[k].len() > 0 && wf_all(m[k]) }
#[via_fn]
proof fn wf_dec(v: JV) {
    match v { JV::Arr(a) => { assert(decreases_to!(v => a)); } JV::Obj(m) => { assert(decreases_to!(v => m)); } _ => {} }
}
#[via_fn]
proof fn wf_all_dec(a: Seq<JV>) { assert forall|i: int| 0 <= i < a.len() implies decreases_to!(a => a[i]) by {} }
#[via_fn]
proof fn wf_key_dec(m: Map<Seq<char>, Seq<JV>>, k: Seq<char>) { if m.dom().contains(k) { assert(decreases_to!(m => m[k])); } }

/// the value with null for every number JSON cannot represent
pub open spec fn norm(v: JV) -> JV decreases v, 0int via norm_dec {
    match v {
        JV::Num(f) => if f64_finite(f) { v } else { JV::Null },
        JV::Arr(a) => JV::Arr(norm_all(a)),
        JV::Obj(m) => JV::Obj(Map::new(m.dom(), |k: Seq<char>| norm_key(m, k))),
        _ => v,
    }
}
pub open spec fn norm_all(a: Seq<JV>) -> Seq<JV> decreases a, 0int via norm_all_dec { Seq::new(a.len(), |i: int| if 0 <= i < a.len() { norm(a[i]) } else { JV::Null }) }
pub open spec fn norm_key(m: Map<Seq<char>, Seq<JV>>, k: Seq<char>) -> Seq<JV> decreases m, 0int via norm_key_dec { if m.dom().contains(k) { norm_all(m[k]) } else { Seq::empty() } }
#[via_fn]
proof fn norm_dec(v: JV) {
    match v { JV::Arr(a) => { assert(decreases_to!(v => a)); } JV::Obj(m) => { assert(decreases_to!(v => m)); } _ => {} }
}
#[via_fn]
proof fn norm_all_dec(a: Seq<JV>) { assert forall|i: int| 0 <= i < a.len() implies decreases_to!(a => a[i]) by {} }
#[via_fn]
proof fn norm_key_dec(m: Map<Seq<char>, Seq<JV>>, k: Seq<char>) { if m.dom().contains(k) { assert(decreases_to!(m => m[k])); } }

/// every number in it is finite
pub open spec fn finite(v: JV) -> bool decreases v, 0int via finite_dec {
    match v {
        JV::Num(f) => f64_finite(f),
        JV::Arr(a) => finite_all(a),
        JV::Obj(m) => forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> finite_key(m, k),
        _ => true,
    }
}
pub open spec fn finite_all(a: Seq<JV>) -> bool decreases a, 0int via finite_all_dec { forall|i: int| 0 <= i < a.len() ==> finite(#[trigger] a[i]) }
pub open spec fn finite_key(m: Map<Seq<char>, Seq<JV>>, k: Seq<char>) -> bool decreases m, 0int via finite_key_dec { m.dom().contains(k) && finite_all(m[k]) }
#[via_fn]
proof fn finite_dec(v: JV) {
    match v { JV::Arr(a) => { assert(decreases_to!(v => a)); } JV::Obj(m) => { assert(decreases_to!(v => m)); } _ => {} }
}
#[via_fn]
proof fn finite_all_dec(a: Seq<JV>) { assert forall|i: int| 0 <= i < a.len() implies decreases_to!(a => a[i]) by {} }
#[via_fn]
proof fn finite_key_dec(m: Map<Seq<char>, Seq<JV>>, k: Seq<char>) { if m.dom().contains(k) { assert(decreases_to!(m => m[k])); } }

/// a value whose numbers are all finite is its own normal form
pub proof fn lemma_norm_finite(v: JV)
    requires finite(v)
    ensures norm(v) == v
    decreases v, 0int
{
    match v {
        JV::Arr(a) => { assert(decreases_to!(v => a)); lemma_norm_finite_all(a); }
        JV::Obj(m) => {
            assert(decreases_to!(v => m));
            assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies norm_key(m, k) == m[k] by {
                assert(decreases_to!(m => m[k]));
                assert(finite_key(m, k));
                lemma_norm_finite_all(m[k]);
            }
            let w = norm(v)->Obj_0;
            assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies w[k] == m[k] by { assert(w[k] == norm_key(m, k)); }
            assert(w =~= m);
        }
        _ => {}
    }
}
proof fn lemma_norm_finite_all(a: Seq<JV>)
    requires finite_all(a)
    ensures norm_all(a) == a
    decreases a, 0int
{
    assert forall|i: int| 0 <= i < a.len() implies norm(#[trigger] a[i]) == a[i] by { assert(decreases_to!(a => a[i])); lemma_norm_finite(a[i]); }
    assert(norm_all(a) =~= a);
}

// ---- every Json has such a value ------------------------------------------------------------------------
pub proof fn lemma_jv_wf(j: Json)
    ensures wf(jv(j))
    decreases j
{
    match j {
        Json::Array(v) => {
            lemma_jv_array(v);
            assert forall|i: int| 0 <= i < jarr(v@).len() implies wf(#[trigger] jarr(v@)[i]) by {
                vstd::std_specs::vec::axiom_vec_index_decreases(v, i);
                lemma_jv_wf(v@[i]);
            }
            assert(wf_all(jarr(v@)));
        }
        Json::Object(h) => {
            lemma_jv_object(h);
            let m = jmap(h@);
            assert(m.dom() == h@.dom().map(|k: String| k@));
            assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies wf_key(m, k) by {
                let s = lemma_jmap_key(h@, k);
                lemma_jmap_at(h@, s);
                lemma_obj_dec(j, s);
                let e = h@[s];
                assert forall|i: int| 0 <= i < m[k].len() implies wf(#[trigger] m[k][i]) by {
                    if i < ll(&e.1).len() { lemma_jv_wf(ll(&e.1)[ll(&e.1).len() - 1 - i]); } else { lemma_jv_wf(e.0); }
                }
                assert(wf_all(m[k]));
            }
        }
        _ => {}
    }
}

// ---- strings --------------------------------------------------------------------------------------------
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> 0x20 <= (#[trigger] s[i]) as int <= 0x7E }
proof fn lemma_ascii_cat(a: Seq<char>, b: Seq<char>)
    requires ascii(a), ascii(b)
    ensures ascii(a + b)
{
    assert forall|i: int| 0 <= i < (a + b).len() implies 0x20 <= (#[trigger] (a + b)[i]) as int <= 0x7E by {
        if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); }
    }
}
proof fn lemma_hexch(d: int)
    requires 0 <= d < 16
    ensures hexd(hexch(d)) == d, 0x20 <= hexch(d) as int <= 0x7E, hexch(d) != '"', hexch(d) != '\\'
{}
/// four hex digits spell their value
proof fn lemma_hex4(u: int)
    requires 0 <= u <= 0xFFFF
    ensures hex4(u).len() == 6, hex4(u)[0] == '\\', hex4(u)[1] == 'u', hex_quad(hex4(u).skip(2), u), ascii(hex4(u))
{
    let h = hex4(u).skip(2);
    lemma_hexch(u / 4096 % 16); lemma_hexch(u / 256 % 16); lemma_hexch(u / 16 % 16); lemma_hexch(u % 16);
    assert(u / 4096 % 16 * 4096 + u / 256 % 16 * 256 + u / 16 % 16 * 16 + u % 16 == u) by (nonlinear_arith) requires 0 <= u <= 0xFFFF;
}
/// the text of one character is a unit that denotes it
proof fn lemma_esc1(c: char)
    ensures g_unit(esc1(c), c), ascii(esc1(c))
{
    let u = c as int;
    lemma_char_scalar(c);
    if c == '"' || c == '\\' || c == '/' || u == 0x08 || u == 0x0C || c == '\n' || c == '\r' || c == '\t' {}
    else if 0x20 <= u <= 0x7E { assert(esc1(c) =~= seq![c]); }
    else if u <= 0xFFFF {
        lemma_hex4(u);
        assert(chr(u) == c);
    } else {
        let a = (u - 0x10000) / 1024 + 0xD800;
        let b = (u - 0x10000) % 1024 + 0xDC00;
        lemma_hex4(a);
        lemma_hex4(b);
        let s = hex4(a) + hex4(b);
        assert(s.subrange(2, 6) =~= hex4(a).skip(2));
        assert(s.skip(8) =~= hex4(b).skip(2));
        assert(chr((a - 0xD800) * 1024 + (b - 0xDC00) + 0x10000) == c);
        assert(s[6] == hex4(b)[0] && s[7] == hex4(b)[1]);
        lemma_ascii_cat(hex4(a), hex4(b));
    }
}
proof fn lemma_chars_push(a: Seq<char>, x: Seq<char>, u: Seq<char>, c: char)
    requires g_chars(a, x), g_unit(u, c)
    ensures g_chars(a + u, x.push(c))
    decreases x.len()
{
    let y = x.push(c);
    let s = a + u;
    if x.len() == 0 {
        assert(s =~= u);
        assert(s.take(u.len() as int) =~= u);
        assert(s.skip(u.len() as int).len() == 0);
        assert(y.skip(1).len() == 0);
        assert(g_chars(s.skip(u.len() as int), y.skip(1)));
        assert(g_unit(s.take(u.len() as int), y[0]));
    } else {
        let n = choose|n: int| 0 <= n <= a.len() && #[trigger] g_unit(a.take(n), x[0]) && g_chars(a.skip(n), x.skip(1));
        lemma_chars_push(a.skip(n), x.skip(1), u, c);
        assert(s.take(n) =~= a.take(n));
        assert(s.skip(n) =~= a.skip(n) + u);
        assert(y.skip(1) =~= x.skip(1).push(c));
        assert(y[0] == x[0]);
        assert(g_unit(s.take(n), y[0]));
    }
}
pub proof fn lemma_esc_body(s: Seq<char>)
    ensures g_chars(esc_body(s), s), ascii(esc_body(s))
    decreases s.len()
{
    if s.len() > 0 {
        lemma_esc_body(s.drop_last());
        lemma_esc1(s.last());
        lemma_chars_push(esc_body(s.drop_last()), s.drop_last(), esc1(s.last()), s.last());
        assert(s.drop_last().push(s.last()) =~= s);
        lemma_ascii_cat(esc_body(s.drop_last()), esc1(s.last()));
    }
}
/// C05: the literal the serializer writes for a string is ASCII and denotes exactly that string
pub proof fn theorem_string(s: Seq<char>)
    ensures json_text(esc(s), JV::Str(s)), sp(esc(s)) == Some(JV::Str(s)), ascii(esc(s))
{
    lemma_good_str(s);
    lemma_good_text(esc(s), JV::Str(s));
    theorem_parse(esc(s), JV::Str(s));
}
/// the text is ASCII and a value of the grammar that denotes `v`
pub open spec fn good(t: Seq<char>, v: JV) -> bool { g_val(t, v) && ascii(t) }
proof fn lemma_good_str(s: Seq<char>)
    ensures good(esc(s), JV::Str(s))
{
    lemma_esc_body(s);
    let t = esc(s);
    let q = seq!['"'];
    assert(t.subrange(1, t.len() - 1) =~= esc_body(s));
    lemma_ascii_cat(q, esc_body(s));
    lemma_ascii_cat(q + esc_body(s), q);
}
proof fn lemma_good_text(t: Seq<char>, v: JV)
    requires good(t, v)
    ensures json_text(t, v)
{
    assert(t.subrange(0, t.len() as int) =~= t);
    assert(t.take(0).len() == 0 && t.skip(t.len() as int).len() == 0);
    assert(g_val(t.subrange(0, t.len() as int), v));
}

// ---- lists ----------------------------------------------------------------------------------------------
proof fn lemma_commas_push(ps: Seq<Seq<char>>, p: Seq<char>)
    requires ps.len() > 0
    ensures commas(ps.push(p)) == commas(ps) + seq![','] + p
    decreases ps.len()
{
    let qs = ps.push(p);
    assert(qs.skip(1) =~= ps.skip(1).push(p));
    if ps.len() == 1 {
        assert(qs.skip(1) =~= seq![p]);
        assert(commas(qs) == qs[0] + seq![','] + commas(qs.skip(1)));
        assert(commas(qs.skip(1)) == p);
    } else {
        assert(qs[0] == ps[0]);
        lemma_commas_push(ps.skip(1), p);
        assert(commas(qs) =~= commas(ps) + seq![','] + p);
    }
}
/// a space before every part but the first
pub open spec fn spaced(ps: Seq<Seq<char>>) -> Seq<Seq<char>> { Seq::new(ps.len(), |i: int| if i == 0 { ps[0] } else { seq![' '] + ps[i] }) }
proof fn lemma_join_commas(ps: Seq<Seq<char>>)
    ensures join(ps, comma()) == commas(spaced(ps))
    decreases ps.len()
{
    if ps.len() > 1 {
        lemma_join_commas(ps.drop_last());
        assert(spaced(ps) =~= spaced(ps.drop_last()).push(seq![' '] + ps.last()));
        lemma_commas_push(spaced(ps.drop_last()), seq![' '] + ps.last());
        assert(commas(spaced(ps)) =~= join(ps, comma()));
    }
}
proof fn lemma_join_ascii(ps: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < ps.len() ==> ascii(#[trigger] ps[i])
    ensures ascii(join(ps, comma()))
    decreases ps.len()
{
    if ps.len() > 1 {
        let d = ps.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies ascii(#[trigger] d[i]) by { assert(d[i] == ps[i]); }
        lemma_join_ascii(d);
        lemma_ascii_cat(join(d, comma()), comma());
        lemma_ascii_cat(join(d, comma()) + comma(), ps.last());
    } else if ps.len() == 1 { assert(ascii(ps[0])); }
}
proof fn lemma_join_len(ps: Seq<Seq<char>>, i: int)
    requires 0 <= i < ps.len()
    ensures ps[i].len() <= join(ps, comma()).len(), i > 0 ==> ps[i].len() + 1 <= join(ps, comma()).len()
    decreases ps.len()
{
    if ps.len() > 1 && i < ps.len() - 1 { lemma_join_len(ps.drop_last(), i); assert(ps.drop_last()[i] == ps[i]); }
}
proof fn lemma_join_cat(a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    requires a.len() > 0, b.len() > 0
    ensures join(a + b, comma()) == join(a, comma()) + comma() + join(b, comma())
    decreases b.len()
{
    let c = a + b;
    assert(c.last() == b.last());
    assert(c.drop_last() =~= a + b.drop_last());
    if b.len() == 1 { assert(a + b.drop_last() =~= a); }
    else {
        lemma_join_cat(a, b.drop_last());
        assert(join(c, comma()) =~= join(a, comma()) + comma() + join(b, comma()));
    }
}
/// a good text after an optional space
proof fn lemma_spaced_text(n: nat, t: Seq<char>, v: JV, sp_: bool)
    requires good(t, v), t.len() + 1 < n || (t.len() < n && !sp_)
    ensures g_text_below(n, if sp_ { seq![' '] + t } else { t }, v)
{
    let s = if sp_ { seq![' '] + t } else { t };
    let a = if sp_ { 1int } else { 0int };
    let e = s.len() as int;
    assert(s.subrange(a, e) =~= t);
    lemma_ws_iff(s.take(a));
    assert(s.skip(e).len() == 0);
    assert(g_val(s.subrange(a, e), v));
}

// ---- arrays and objects -----------------------------------------------------------------------------------
proof fn lemma_good_arr(ts: Seq<Seq<char>>, vs: Seq<JV>)
    requires ts.len() == vs.len(), forall|i: int| 0 <= i < ts.len() ==> good(#[trigger] ts[i], vs[i])
    ensures good(seq!['['] + join(ts, comma()) + seq![']'], JV::Arr(vs))
{
    let m = join(ts, comma());
    let s = seq!['['] + m + seq![']'];
    assert(s.subrange(1, s.len() - 1) =~= m);
    lemma_join_ascii(ts);
    lemma_ascii_cat(seq!['['], m);
    lemma_ascii_cat(seq!['['] + m, seq![']']);
    let ps = spaced(ts);
    lemma_join_commas(ts);
    if ts.len() > 0 {
        assert forall|i: int| 0 <= i < ps.len() implies g_text_below(s.len(), #[trigger] ps[i], vs[i]) by {
            lemma_join_len(ts, i);
            assert(good(ts[i], vs[i]));
            lemma_spaced_text(s.len(), ts[i], vs[i], i > 0);
        }
        assert(g_elems(s.len(), ps, vs));
        assert(s.subrange(1, s.len() - 1) == commas(ps));
    }
}
/// the text of a member
pub open spec fn good_member(t: Seq<char>, k: Seq<char>, v: JV) -> bool { exists|x: Seq<char>| t == #[trigger] member_text(k, x) && good(x, v) }
proof fn lemma_good_obj(ts: Seq<Seq<char>>, ks: Seq<Seq<char>>, vs: Seq<JV>)
    requires ts.len() == vs.len(), ts.len() == ks.len(), forall|i: int| 0 <= i < ts.len() ==> good_member(#[trigger] ts[i], ks[i], vs[i])
    ensures good(seq!['{'] + join(ts, comma()) + seq!['}'], JV::Obj(append_all(Map::empty(), ks, vs)))
{
    let m = join(ts, comma());
    let s = seq!['{'] + m + seq!['}'];
    assert(s.subrange(1, s.len() - 1) =~= m);
    assert forall|i: int| 0 <= i < ts.len() implies ascii(#[trigger] ts[i]) by {
        assert(good_member(ts[i], ks[i], vs[i]));
        let x = choose|x: Seq<char>| ts[i] == #[trigger] member_text(ks[i], x) && good(x, vs[i]);
        lemma_good_str(ks[i]);
        lemma_ascii_cat(esc(ks[i]), seq![':', ' ']);
        lemma_ascii_cat(esc(ks[i]) + seq![':', ' '], x);
    }
    lemma_join_ascii(ts);
    lemma_ascii_cat(seq!['{'], m);
    lemma_ascii_cat(seq!['{'] + m, seq!['}']);
    let ps = spaced(ts);
    lemma_join_commas(ts);
    if ts.len() > 0 {
        assert forall|i: int| 0 <= i < ps.len() implies g_member(s.len(), #[trigger] ps[i], ks[i], vs[i]) by {
            lemma_join_len(ts, i);
            assert(good_member(ts[i], ks[i], vs[i]));
            let x = choose|x: Seq<char>| ts[i] == #[trigger] member_text(ks[i], x) && good(x, vs[i]);
            lemma_good_str(ks[i]);
            let q = ps[i];
            let c = esc(ks[i]).len() + if i > 0 { 1int } else { 0int };
            assert(q.take(c) =~= if i > 0 { seq![' '] + esc(ks[i]) } else { esc(ks[i]) });
            assert(q.skip(c + 1) =~= seq![' '] + x);
            assert(q[c] == ':');
            lemma_spaced_text(s.len(), esc(ks[i]), JV::Str(ks[i]), i > 0);
            lemma_spaced_text(s.len(), x, vs[i], true);
        }
        assert(g_members(s.len(), ps, ks, vs));
        assert(s.subrange(1, s.len() - 1) == commas(ps));
    }
}
proof fn lemma_append_cat(m: Map<Seq<char>, Seq<JV>>, a: Seq<Seq<char>>, x: Seq<JV>, b: Seq<Seq<char>>, y: Seq<JV>)
    requires a.len() == x.len(), b.len() == y.len()
    ensures append_all(m, a + b, x + y) == append_all(append_all(m, a, x), b, y)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(x + y =~= y); }
    else {
        assert((a + b).skip(1) =~= a.skip(1) + b);
        assert((x + y).skip(1) =~= x.skip(1) + y);
        lemma_append_cat(obj_append(m, a[0], x[0]), a.skip(1), x.skip(1), b, y);
    }
}
pub open spec fn same_key(k: Seq<char>, n: nat) -> Seq<Seq<char>> { Seq::new(n, |i: int| k) }
/// several values appended to one key
proof fn lemma_append_key(m: Map<Seq<char>, Seq<JV>>, k: Seq<char>, vs: Seq<JV>)
    requires vs.len() > 0
    ensures append_all(m, same_key(k, vs.len()), vs) == m.insert(k, (if m.dom().contains(k) { m[k] } else { Seq::empty() }) + vs)
    decreases vs.len()
{
    let ks = same_key(k, vs.len());
    let old_ = if m.dom().contains(k) { m[k] } else { Seq::empty() };
    let n = obj_append(m, k, vs[0]);
    assert(ks.skip(1) =~= same_key(k, (vs.len() - 1) as nat));
    assert(n[k] =~= old_ + seq![vs[0]]);
    if vs.len() == 1 {
        assert(vs =~= seq![vs[0]]);
        assert(append_all(n, ks.skip(1), vs.skip(1)) == n);
        assert(n =~= m.insert(k, old_ + vs));
    } else {
        lemma_append_key(n, k, vs.skip(1));
        assert(old_ + seq![vs[0]] + vs.skip(1) =~= old_ + vs);
        assert(n.insert(k, old_ + vs) =~= m.insert(k, old_ + vs));
    }
}
// the members of the first `n` keys: their texts, keys and values
pub open spec fn flat_t(m: Map<Seq<char>, Seq<JV>>, ks: Seq<Seq<char>>, n: int) -> Seq<Seq<char>> decreases n {
    if n <= 0 { Seq::empty() } else { flat_t(m, ks, n - 1) + members(m, ks[n - 1]) }
}
pub open spec fn flat_k(m: Map<Seq<char>, Seq<JV>>, ks: Seq<Seq<char>>, n: int) -> Seq<Seq<char>> decreases n {
    if n <= 0 { Seq::empty() } else { flat_k(m, ks, n - 1) + same_key(ks[n - 1], m[ks[n - 1]].len()) }
}
pub open spec fn flat_v(m: Map<Seq<char>, Seq<JV>>, ks: Seq<Seq<char>>, n: int) -> Seq<JV> decreases n {
    if n <= 0 { Seq::empty() } else { flat_v(m, ks, n - 1) + norm_all(m[ks[n - 1]]) }
}
pub open spec fn good_key(m: Map<Seq<char>, Seq<JV>>, k: Seq<char>) -> bool {
    m.dom().contains(k) && m[k].len() > 0 && forall|i: int| 0 <= i < m[k].len() ==> good(ser(#[trigger] m[k][i]), norm(m[k][i]))
}
proof fn lemma_flat(m: Map<Seq<char>, Seq<JV>>, ks: Seq<Seq<char>>, n: int)
    requires
        0 <= n <= ks.len(), forall|i: int| 0 <= i < ks.len() ==> good_key(m, #[trigger] ks[i]),
        forall|i: int, j: int| 0 <= i < j < ks.len() ==> #[trigger] ks[i] != #[trigger] ks[j],
    ensures ({
        let (t, k, v) = (flat_t(m, ks, n), flat_k(m, ks, n), flat_v(m, ks, n));
        let o = append_all(Map::empty(), k, v);
        &&& t.len() == k.len() && t.len() == v.len() && (n > 0 ==> t.len() > 0)
        &&& forall|i: int| 0 <= i < t.len() ==> good_member(#[trigger] t[i], k[i], v[i])
        &&& join(t, comma()) == join(ser_objs(m, ks, n), comma())
        &&& forall|x: Seq<char>| #[trigger] o.dom().contains(x) <==> ks.take(n).contains(x)
        &&& forall|i: int| 0 <= i < n ==> o[#[trigger] ks[i]] == norm_all(m[ks[i]])
    })
    decreases n
{
    let (t, k, v) = (flat_t(m, ks, n), flat_k(m, ks, n), flat_v(m, ks, n));
    let e = Map::<Seq<char>, Seq<JV>>::empty();
    if n == 0 {
        lemma_ser_objs(m, ks, 0);
        assert(append_all(e, k, v) == e);
        assert(ks.take(0).len() == 0);
    } else {
        lemma_flat(m, ks, n - 1);
        let key = ks[n - 1];
        assert(good_key(m, key));
        let a = m[key];
        let (t0, k0, v0) = (flat_t(m, ks, n - 1), flat_k(m, ks, n - 1), flat_v(m, ks, n - 1));
        let (t1, k1, v1) = (members(m, key), same_key(key, a.len()), norm_all(a));
        lemma_ser_vals(key, a, a.len() as int);
        assert forall|i: int| 0 <= i < t.len() implies good_member(#[trigger] t[i], k[i], v[i]) by {
            if i < t0.len() { assert(t[i] == t0[i] && k[i] == k0[i] && v[i] == v0[i]); }
            else {
                let j = i - t0.len();
                assert(t[i] == t1[j]);
                assert(good(ser(a[j]), norm(a[j])));
                assert(v[i] == v1[j]);
                assert(v1[j] == norm(a[j]));
                assert(t[i] == member_text(key, ser(a[j])));
                assert(k[i] == key);
            }
        }
        assert forall|i: int| 0 <= i < ks.len() implies m.dom().contains(#[trigger] ks[i]) by { assert(good_key(m, ks[i])); }
        lemma_ser_objs(m, ks, n);
        lemma_ser_objs(m, ks, n - 1);
        let x = ser_objs(m, ks, n - 1);
        assert(ser_objs(m, ks, n) =~= x.push(join(t1, comma())));
        assert(x.push(join(t1, comma())).drop_last() =~= x);
        if n == 1 { assert(t =~= t1); assert(x.len() == 0); } else { lemma_join_cat(t0, t1); }
        let o0 = append_all(e, k0, v0);
        let o = append_all(e, k, v);
        lemma_append_cat(e, k0, v0, k1, v1);
        lemma_append_key(o0, key, v1);
        assert(!ks.take(n - 1).contains(key)) by {
            if ks.take(n - 1).contains(key) { let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] ks.take(n - 1)[i]) == key; assert(ks[i] == ks[n - 1]); }
        }
        assert(Seq::<JV>::empty() + v1 =~= v1);
        assert(o == o0.insert(key, v1));
        assert forall|y: Seq<char>| #[trigger] o.dom().contains(y) <==> ks.take(n).contains(y) by {
            if ks.take(n).contains(y) { let i = choose|i: int| 0 <= i < n && (#[trigger] ks.take(n)[i]) == y; if i < n - 1 { assert(ks.take(n - 1)[i] == y); } }
            if ks.take(n - 1).contains(y) { let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] ks.take(n - 1)[i]) == y; assert(ks.take(n)[i] == y); }
            assert(ks.take(n)[n - 1] == key);
            assert(o0.dom().contains(y) <==> ks.take(n - 1).contains(y));
        }
    }
}
/// every set of texts can be put in order
pub proof fn lemma_sorted_keys(d: Set<Seq<char>>)
    ensures sorted_enum(sorted_keys(d), d)
{
    lemma_sorted_exists(d);
}
proof fn lemma_sorted_exists(d: Set<Seq<char>>)
    ensures exists|ks: Seq<Seq<char>>| sorted_enum(ks, d)
    decreases d.len()
{
    if d.len() == 0 {
        assert(d =~= Set::empty());
        assert(sorted_enum(Seq::empty(), d));
    } else {
        let x = d.choose();
        assert(d.contains(x));
        let r = d.remove(x);
        lemma_sorted_exists(r);
        let ks = choose|ks: Seq<Seq<char>>| sorted_enum(ks, r);
        let p = lemma_insert_at(ks, x, r);
        let l = ks.insert(p, x);
        assert forall|i: int, j: int| 0 <= i < j < l.len() implies str_lt(#[trigger] l[i], #[trigger] l[j]) by {
            let a = if i < p { ks[i] } else if i == p { x } else { ks[i - 1] };
            let b = if j < p { ks[j] } else if j == p { x } else { ks[j - 1] };
            assert(l[i] == a && l[j] == b);
        }
        assert forall|k: Seq<char>| #[trigger] d.contains(k) implies l.contains(k) by {
            if k == x { assert(l[p] == k); }
            else { assert(r.contains(k)); let i = choose|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]) == k; assert(l[if i < p { i } else { i + 1 }] == k); }
        }
        assert forall|i: int| 0 <= i < l.len() implies d.contains(#[trigger] l[i]) by { if i != p { let y = if i < p { ks[i] } else { ks[i - 1] }; assert(l[i] == y); assert(r.contains(y)); } }
        assert(sorted_enum(l, d));
    }
}
proof fn lemma_insert_at(ks: Seq<Seq<char>>, x: Seq<char>, r: Set<Seq<char>>) -> (p: int)
    requires sorted_enum(ks, r), !r.contains(x)
    ensures 0 <= p <= ks.len(), forall|i: int| 0 <= i < p ==> str_lt(#[trigger] ks[i], x), forall|i: int| p <= i < ks.len() ==> str_lt(x, #[trigger] ks[i])
{
    lemma_insert_from(ks, x, r, 0)
}
proof fn lemma_insert_from(ks: Seq<Seq<char>>, x: Seq<char>, r: Set<Seq<char>>, n: int) -> (p: int)
    requires sorted_enum(ks, r), !r.contains(x), 0 <= n <= ks.len(), forall|i: int| 0 <= i < n ==> str_lt(#[trigger] ks[i], x)
    ensures 0 <= p <= ks.len(), forall|i: int| 0 <= i < p ==> str_lt(#[trigger] ks[i], x), forall|i: int| p <= i < ks.len() ==> str_lt(x, #[trigger] ks[i])
    decreases ks.len() - n
{
    if n == ks.len() { n }
    else if str_lt(ks[n], x) { lemma_insert_from(ks, x, r, n + 1) }
    else {
        assert(r.contains(ks[n]));
        lemma_str_lt_tri(ks[n], x);
        assert(str_lt(x, ks[n]));
        assert forall|i: int| n <= i < ks.len() implies str_lt(x, #[trigger] ks[i]) by { if i > n { assert(str_lt(ks[n], ks[i])); lemma_str_lt_trans(x, ks[n], ks[i]); } }
        n
    }
}

// ---- the theorems -----------------------------------------------------------------------------------------
proof fn lemma_ser(v: JV)
    requires wf(v)
    ensures good(ser(v), norm(v))
    decreases v, 0int
{
    reveal_strlit("null"); reveal_strlit("true"); reveal_strlit("false");
    match v {
        JV::Num(f) => { if f64_finite(f) { axiom_f64_roundtrip(f); theorem_number(f64_display(f)); lemma_num_ascii(f64_display(f)); } }
        JV::Str(s) => { lemma_good_str(s); }
        JV::Arr(a) => {
            assert(decreases_to!(v => a));
            lemma_ser_all(a);
            lemma_ser_list(a, a.len() as int);
            let ts = ser_list(a, a.len() as int);
            lemma_good_arr(ts, norm_all(a));
            assert(norm(v)->Arr_0 =~= norm_all(a));
        }
        JV::Obj(m) => {
            assert(decreases_to!(v => m));
            let ks = sorted_keys(m.dom());
            lemma_sorted_keys(m.dom());
            assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies good_key(m, k) by {
                assert(decreases_to!(m => m[k]));
                assert(wf_key(m, k));
                lemma_ser_all(m[k]);
            }
            assert forall|i: int, j: int| 0 <= i < j < ks.len() implies #[trigger] ks[i] != #[trigger] ks[j] by { assert(str_lt(ks[i], ks[j])); lemma_str_lt_tri(ks[i], ks[j]); }
            let n = ks.len() as int;
            lemma_flat(m, ks, n);
            let (t, k, w) = (flat_t(m, ks, n), flat_k(m, ks, n), flat_v(m, ks, n));
            lemma_good_obj(t, k, w);
            let o = append_all(Map::empty(), k, w);
            let z = norm(v)->Obj_0;
            assert(ks.take(n) =~= ks);
            assert forall|x: Seq<char>| #[trigger] z.dom().contains(x) <==> o.dom().contains(x) by {
                assert(z.dom().contains(x) <==> m.dom().contains(x));
                if ks.contains(x) { let i = choose|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]) == x; assert(m.dom().contains(ks[i])); }
            }
            assert forall|x: Seq<char>| #[trigger] z.dom().contains(x) implies z[x] == o[x] by {
                assert(m.dom().contains(x));
                let i = choose|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]) == x;
                assert(o[ks[i]] == norm_all(m[ks[i]]));
                assert(z[x] == norm_key(m, x));
            }
            assert(z =~= o);
        }
        _ => {}
    }
}
proof fn lemma_ser_all(a: Seq<JV>)
    requires wf_all(a)
    ensures forall|i: int| 0 <= i < a.len() ==> good(ser(#[trigger] a[i]), norm(a[i]))
    decreases a, 0int
{
    assert forall|i: int| 0 <= i < a.len() implies good(ser(#[trigger] a[i]), norm(a[i])) by { assert(decreases_to!(a => a[i])); lemma_ser(a[i]); }
}
proof fn lemma_num_ascii(s: Seq<char>)
    requires g_num(s)
    ensures ascii(s)
{
    lemma_num_chars(s);
    assert forall|i: int| 0 <= i < s.len() implies 0x20 <= (#[trigger] s[i]) as int <= 0x7E by { assert(num_char(s[i])); }
}
/// C03: the serialized text of every value is an RFC 8259 text, in printable ASCII, that denotes it (numbers JSON does not have as null)
pub proof fn theorem_serialize(v: JV)
    requires wf(v)
    ensures json_text(ser(v), norm(v)), ascii(ser(v))
{
    lemma_ser(v);
    lemma_good_text(ser(v), norm(v));
}
/// C04: parsing what the serializer writes for a value gives the value back
pub proof fn theorem_roundtrip(j: Json)
    ensures sp(ser(jv(j))) == Some(norm(jv(j))), finite(jv(j)) ==> sp(ser(jv(j))) == Some(jv(j))
{
    lemma_jv_wf(j);
    theorem_serialize(jv(j));
    theorem_parse(ser(jv(j)), norm(jv(j)));
    if finite(jv(j)) { lemma_norm_finite(jv(j)); }
}

// ---- text-level operations (C18) --------------------------------------------------------------------------
pub open spec fn norm_r(r: Result<JV, ErrorKind>) -> Result<JV, ErrorKind> { match r { Ok(x) => Ok(norm(x)), Err(e) => Err(e) } }
proof fn lemma_norm_step(v: JV, s: Step)
    requires wf(v)
    ensures step_get(norm(v), s) == norm_r(step_get(v, s)), step_get(v, s) matches Ok(x) ==> wf(x)
{
    match v {
        JV::Obj(m) => {
            if let Step::Key(k) = s {
                let z = norm(v)->Obj_0;
                assert(z.dom() =~= m.dom());
                if m.dom().contains(k) {
                    assert(wf_key(m, k));
                    assert(z[k] == norm_key(m, k));
                    assert(norm_key(m, k) == norm_all(m[k]));
                    assert(wf(m[k][m[k].len() - 1]));
                    assert(norm_all(m[k])[m[k].len() - 1] == norm(m[k][m[k].len() - 1]));
                }
            }
        }
        JV::Arr(a) => {
            if let Step::Idx(i) = s {
                assert(norm(v)->Arr_0 =~= norm_all(a));
                if 0 <= i < a.len() { assert(wf_all(a)); assert(wf(a[i])); assert(norm_all(a)[i] == norm(a[i])); }
            }
        }
        _ => {}
    }
}
/// a lookup in the parsed text of a document finds what the lookup in the document finds
pub proof fn lemma_norm_path(v: JV, p: Seq<Step>)
    requires wf(v)
    ensures get_path(norm(v), p) == norm_r(get_path(v, p))
    decreases p.len()
{
    if p.len() > 0 {
        lemma_norm_step(v, p[0]);
        if let Ok(x) = step_get(v, p[0]) { lemma_norm_path(x, p.skip(1)); }
    }
}
proof fn lemma_wf_put(v: JV, s: Step, w: JV)
    requires wf(v), wf(w), step_get(v, s) is Ok
    ensures wf(step_put(v, s, w))
{
    let z = step_put(v, s, w);
    match v {
        JV::Obj(m) => {
            let k = s->Key_0;
            let o = z->Obj_0;
            assert(wf_key(m, k));
            assert forall|x: Seq<char>| #[trigger] o.dom().contains(x) implies wf_key(o, x) by {
                if x != k { assert(wf_key(m, x)); }
                else {
                    assert forall|i: int| 0 <= i < o[x].len() implies wf(#[trigger] o[x][i]) by { if i < m[k].len() - 1 { assert(wf(m[k][i])); } }
                    assert(wf_all(o[x]));
                }
            }
        }
        JV::Arr(a) => {
            let b = z->Arr_0;
            assert forall|i: int| 0 <= i < b.len() implies wf(#[trigger] b[i]) by { assert(wf_all(a)); if i != s->Idx_0 { assert(wf(a[i])); } }
            assert(wf_all(b));
        }
        _ => {}
    }
}
proof fn lemma_wf_set(v: JV, s: Step, w: JV)
    requires wf(v), wf(w), step_ok(s)
    ensures wf(step_set(v, s, w))
{
    let z = step_set(v, s, w);
    match s {
        Step::Key(k) => {
            let o = z->Obj_0;
            assert forall|x: Seq<char>| #[trigger] o.dom().contains(x) implies wf_key(o, x) by {
                if x != k { assert(wf_key(v->Obj_0, x)); }
                else { assert forall|i: int| 0 <= i < o[x].len() implies wf(#[trigger] o[x][i]) by {} assert(wf_all(o[x])); }
            }
        }
        Step::Idx(n) => {
            let b = z->Arr_0;
            assert forall|i: int| 0 <= i < b.len() implies wf(#[trigger] b[i]) by {
                if let JV::Arr(a) = v { assert(wf_all(a)); if i != n && i < a.len() { assert(wf(a[i])); } }
            }
            assert(wf_all(b));
        }
    }
}
pub proof fn lemma_wf_set_path(v: JV, p: Seq<Step>, w: JV)
    requires wf(v), wf(w), path_ok(p)
    ensures wf(set_path(v, p, w))
    decreases p.len()
{
    if p.len() > 0 {
        lemma_path_skip(p);
        if p.len() == 1 { lemma_wf_set(v, p[0], w); }
        else {
            lemma_norm_step(v, p[0]);
            match step_get(v, p[0]) {
                Ok(x) => { lemma_wf_set_path(x, p.skip(1), w); lemma_wf_put(v, p[0], set_path(x, p.skip(1), w)); }
                Err(_) => { lemma_wf_set_path(JV::Null, p.skip(1), w); lemma_wf_set(v, p[0], set_path(JV::Null, p.skip(1), w)); }
            }
        }
    }
}
/// C18: in the text that `set` returns, the path has the value stored, and what the set did not touch is where it was
pub proof fn theorem_text_set(j: Json, w: Json, p: Seq<Step>, q: Seq<Step>, n: int)
    requires path_ok(p)
    ensures
        sp(ser(set_path(jv(j), p, jv(w)))) matches Some(d) && get_path(d, p) == Ok::<JV, ErrorKind>(norm(jv(w)))
            && (part_at(p, q, n) && get_path(jv(j), q) is Ok && (p[n] is Key) == (q[n] is Key) ==> get_path(d, q) == norm_r(get_path(jv(j), q)))
{
    let v = jv(j);
    let z = set_path(v, p, jv(w));
    lemma_jv_wf(j);
    lemma_jv_wf(w);
    lemma_wf_set_path(v, p, jv(w));
    theorem_serialize(z);
    theorem_parse(ser(z), norm(z));
    lemma_norm_path(z, p);
    lemma_set_get(v, p, jv(w));
    if part_at(p, q, n) && get_path(v, q) is Ok && (p[n] is Key) == (q[n] is Key) {
        lemma_norm_path(z, q);
        lemma_set_frame(v, p, jv(w), q, n);
    }
}
} // verus!
}
