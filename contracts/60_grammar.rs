// ------------------------------------------------------------------------------------------------
// vx_grammar: RFC 8259 as a grammar (a relation between texts and values), independent of any parsing strategy, and
// the theorem that the function `sp`, to which the parser is held, is exactly that relation (C01, C02)
// ------------------------------------------------------------------------------------------------
pub mod vx_grammar {
use vstd::prelude::*;
use crate::vx_std::*;
use crate::vx_spec::*;
use crate::vx_lemmas::*;
verus! {

// ---- the grammar ----------------------------------------------------------------------------------
pub open spec fn digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> dig(#[trigger] s[i]) }
/// int = zero / ( digit1-9 *DIGIT )
pub open spec fn g_int(s: Seq<char>) -> bool { digits(s) && s.len() >= 1 && (s[0] == '0' ==> s.len() == 1) }
/// [ frac ], frac = decimal-point 1*DIGIT
pub open spec fn g_frac(s: Seq<char>) -> bool { s.len() == 0 || (s[0] == '.' && s.len() >= 2 && digits(s.skip(1))) }
/// [ exp ], exp = e [ minus / plus ] 1*DIGIT
pub open spec fn g_exp(s: Seq<char>) -> bool {
    s.len() == 0 || ((s[0] == 'e' || s[0] == 'E') && (
        (s.len() >= 2 && digits(s.skip(1))) || (s.len() >= 3 && (s[1] == '+' || s[1] == '-') && digits(s.skip(2)))))
}
/// number = [ minus ] int [ frac ] [ exp ]
pub open spec fn g_num_parts(s: Seq<char>, a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>) -> bool {
    s == a + b + c + d && (a.len() == 0 || a == seq!['-']) && g_int(b) && g_frac(c) && g_exp(d)
}
pub open spec fn g_num(s: Seq<char>) -> bool { exists|a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>| #[trigger] g_num_parts(s, a, b, c, d) }

/// the value of four hex digits, in either case
pub open spec fn hex_quad(h: Seq<char>, u: int) -> bool {
    h.len() == 4 && hexd(h[0]) >= 0 && hexd(h[1]) >= 0 && hexd(h[2]) >= 0 && hexd(h[3]) >= 0
        && u == hexd(h[0]) * 4096 + hexd(h[1]) * 256 + hexd(h[2]) * 16 + hexd(h[3])
}
/// one character of a string: as it is, as a two-character escape, as \uXXXX, or as a surrogate pair
pub open spec fn g_unit(s: Seq<char>, c: char) -> bool {
    ||| s == seq![c] && c != '"' && c != '\\' && (c as int) >= 0x20
    ||| s.len() == 2 && s[0] == '\\' && esc_letter(s[1], c)
    ||| s.len() == 6 && s[0] == '\\' && s[1] == 'u' && exists|u: int| #[trigger] hex_quad(s.skip(2), u) && !is_high(u) && !is_low(u) && c == chr(u)
    ||| s.len() == 12 && s[0] == '\\' && s[1] == 'u' && s[6] == '\\' && s[7] == 'u' && exists|u: int, w: int|
            #[trigger] hex_quad(s.subrange(2, 6), u) && #[trigger] hex_quad(s.skip(8), w) && is_high(u) && is_low(w) && c == chr((u - 0xD800) * 1024 + (w - 0xDC00) + 0x10000)
}
pub open spec fn esc_letter(e: char, c: char) -> bool {
    ||| e == '"' && c == '"'
    ||| e == '\\' && c == '\\'
    ||| e == '/' && c == '/'
    ||| e == 'b' && c == '\x08'
    ||| e == 'f' && c == '\x0C'
    ||| e == 'n' && c == '\n'
    ||| e == 'r' && c == '\r'
    ||| e == 't' && c == '\t'
}
/// the units of a string body
pub open spec fn g_chars(s: Seq<char>, x: Seq<char>) -> bool decreases x.len() {
    if x.len() == 0 { s.len() == 0 }
    else { exists|n: int| 0 <= n <= s.len() && #[trigger] g_unit(s.take(n), x[0]) && g_chars(s.skip(n), x.skip(1)) }
}
pub open spec fn g_str(s: Seq<char>, x: Seq<char>) -> bool {
    s.len() >= 2 && s[0] == '"' && s.last() == '"' && g_chars(s.subrange(1, s.len() - 1), x)
}
/// the parts with a comma between neighbours
pub open spec fn commas(ps: Seq<Seq<char>>) -> Seq<char> decreases ps.len() {
    if ps.len() == 0 { Seq::empty() } else if ps.len() == 1 { ps[0] } else { ps[0] + seq![','] + commas(ps.skip(1)) }
}
/// the members in order: each appended to what its key has so far
pub open spec fn append_all(m: Map<Seq<char>, Seq<JV>>, ks: Seq<Seq<char>>, vs: Seq<JV>) -> Map<Seq<char>, Seq<JV>> decreases ks.len() {
    if ks.len() == 0 { m } else { append_all(obj_append(m, ks[0], vs[0]), ks.skip(1), vs.skip(1)) }
}
/// `s` is a value of the grammar that denotes `v`
pub open spec fn g_val(s: Seq<char>, v: JV) -> bool decreases s.len(), 4int {
    match v {
        JV::Null => s == "null"@,
        JV::Bool(b) => s == (if b { "true"@ } else { "false"@ }),
        JV::Num(f) => g_num(s) && f64_parse(s) == Some(f) && f64_finite(f),
        JV::Str(x) => g_str(s, x),
        JV::Arr(a) => s.len() >= 2 && s[0] == '[' && s.last() == ']' && (
            if a.len() == 0 { all_ws(s.subrange(1, s.len() - 1)) } else { exists|ps: Seq<Seq<char>>| s.subrange(1, s.len() - 1) == #[trigger] commas(ps) && g_elems(s.len(), ps, a) }),
        JV::Obj(m) => s.len() >= 2 && s[0] == '{' && s.last() == '}' && (
            (m == Map::<Seq<char>, Seq<JV>>::empty() && all_ws(s.subrange(1, s.len() - 1)))
            || exists|ps: Seq<Seq<char>>, ks: Seq<Seq<char>>, vs: Seq<JV>| s.subrange(1, s.len() - 1) == #[trigger] commas(ps) && g_members(s.len(), ps, ks, vs) && ps.len() >= 1 && m == #[trigger] append_all(Map::empty(), ks, vs)),
    }
}
/// a value with optional whitespace around it; the text is shorter than `n` characters
pub open spec fn g_text_below(n: nat, s: Seq<char>, v: JV) -> bool decreases n, 1int {
    s.len() < n && exists|a: int, b: int| 0 <= a <= b <= s.len() && all_ws(s.take(a)) && all_ws(s.skip(b)) && g_val(#[trigger] s.subrange(a, b), v)
}
pub open spec fn g_elems(n: nat, ps: Seq<Seq<char>>, a: Seq<JV>) -> bool decreases n, 3int {
    ps.len() == a.len() && forall|i: int| 0 <= i < ps.len() ==> g_text_below(n, #[trigger] ps[i], a[i])
}
/// key, colon, value
pub open spec fn g_member(n: nat, s: Seq<char>, k: Seq<char>, v: JV) -> bool decreases n, 2int {
    exists|c: int| 0 <= c < s.len() && s[c] == ':' && g_text_below(n, #[trigger] s.take(c), JV::Str(k)) && g_text_below(n, s.skip(c + 1), v)
}
pub open spec fn g_members(n: nat, ps: Seq<Seq<char>>, ks: Seq<Seq<char>>, vs: Seq<JV>) -> bool decreases n, 3int {
    ps.len() == ks.len() && ps.len() == vs.len() && forall|i: int| 0 <= i < ps.len() ==> g_member(n, #[trigger] ps[i], ks[i], vs[i])
}
/// JSON-text = ws value ws
pub open spec fn json_text(s: Seq<char>, v: JV) -> bool { g_text_below(s.len() + 1, s, v) }

// ---- monotony in the bound --------------------------------------------------------------------------
pub proof fn lemma_below(n: nat, m: nat, s: Seq<char>, v: JV)
    requires s.len() < m, g_text_below(n, s, v)
    ensures g_text_below(m, s, v)
{
    let (a, b) = choose|a: int, b: int| 0 <= a <= b <= s.len() && all_ws(s.take(a)) && all_ws(s.skip(b)) && g_val(#[trigger] s.subrange(a, b), v);
    assert(g_val(s.subrange(a, b), v));
}

// ---- whitespace -------------------------------------------------------------------------------------
pub proof fn lemma_ws_iff(s: Seq<char>)
    ensures all_ws(s) <==> forall|i: int| 0 <= i < s.len() ==> ws(#[trigger] s[i])
    decreases s.len()
{
    if s.len() > 0 {
        lemma_ws_iff(s.skip(1));
        if all_ws(s) { assert forall|i: int| 0 <= i < s.len() implies ws(#[trigger] s[i]) by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } } }
        if forall|i: int| 0 <= i < s.len() ==> ws(#[trigger] s[i]) { assert forall|i: int| 0 <= i < s.skip(1).len() implies ws(#[trigger] s.skip(1)[i]) by { assert(s.skip(1)[i] == s[i + 1]); } assert(ws(s[0])); }
    }
}
/// trimming cuts whitespace off both ends
pub proof fn lemma_trim_cut(s: Seq<char>) -> (r: (int, int))
    ensures
        0 <= r.0 <= r.1 <= s.len(), all_ws(s.take(r.0)), all_ws(s.skip(r.1)), trim(s) == s.subrange(r.0, r.1),
        r.0 < r.1 ==> !ws(s[r.0]) && !ws(s[r.1 - 1])
{
    let a = lemma_ltrim_cut(s);
    let t = ltrim(s);
    let b = lemma_rtrim_cut(t);
    assert(t.take(b) =~= s.subrange(a, a + b));
    assert(t.skip(b) =~= s.skip(a + b));
    (a, a + b)
}
proof fn lemma_ltrim_cut(s: Seq<char>) -> (a: int)
    ensures 0 <= a <= s.len(), all_ws(s.take(a)), ltrim(s) == s.skip(a), a < s.len() ==> !ws(s[a])
    decreases s.len()
{
    if s.len() > 0 && ws(s[0]) {
        let a = lemma_ltrim_cut(s.skip(1)) + 1;
        assert(s.take(a).skip(1) =~= s.skip(1).take(a - 1));
        assert(s.skip(1).skip(a - 1) =~= s.skip(a));
        a
    } else { assert(s.skip(0) =~= s); 0 }
}
proof fn lemma_rtrim_cut(s: Seq<char>) -> (b: int)
    ensures 0 <= b <= s.len(), all_ws(s.skip(b)), rtrim(s) == s.take(b), b > 0 ==> !ws(s[b - 1])
    decreases s.len()
{
    if s.len() > 0 && ws(s.last()) {
        let b = lemma_rtrim_cut(s.drop_last());
        assert(s.drop_last().take(b) =~= s.take(b));
        lemma_ws_iff(s.skip(b));
        lemma_ws_iff(s.drop_last().skip(b));
        assert forall|i: int| 0 <= i < s.skip(b).len() implies ws(#[trigger] s.skip(b)[i]) by {
            if i < s.len() - 1 - b { assert(s.drop_last().skip(b)[i] == s.skip(b)[i]); } else { assert(s.skip(b)[i] == s.last()); }
        }
        b
    } else { assert(s.take(s.len() as int) =~= s); s.len() as int }
}
/// a text that starts and ends with other characters is what trimming leaves
pub proof fn lemma_trim_mid(s: Seq<char>, a: int, b: int)
    requires 0 <= a < b <= s.len(), all_ws(s.take(a)), all_ws(s.skip(b)), !ws(s[a]), !ws(s[b - 1])
    ensures trim(s) == s.subrange(a, b)
{
    let r = lemma_trim_cut(s);
    lemma_ws_iff(s.take(a)); lemma_ws_iff(s.skip(b)); lemma_ws_iff(s.take(r.0)); lemma_ws_iff(s.skip(r.1));
    if r.0 < a { if r.0 < r.1 { assert(s.take(a)[r.0] == s[r.0]); } else { assert(s.skip(r.1)[a - r.1] == s[a]); } }
    if r.0 > a { assert(s.take(r.0)[a] == s[a]); }
    if r.1 > b { if r.0 < r.1 { assert(s.skip(b)[r.1 - 1 - b] == s[r.1 - 1]); } }
    if r.1 < b { assert(s.skip(r.1)[b - 1 - r.1] == s[b - 1]); }
}

// ---- numbers ----------------------------------------------------------------------------------------
proof fn lemma_drop_cut(s: Seq<char>) -> (n: int)
    ensures 0 <= n <= s.len(), drop_digits(s) == s.skip(n), digits(s.take(n)), n < s.len() ==> !dig(s[n])
    decreases s.len()
{
    if s.len() > 0 && dig(s[0]) {
        let n = lemma_drop_cut(s.skip(1)) + 1;
        assert(s.skip(1).skip(n - 1) =~= s.skip(n));
        assert forall|i: int| 0 <= i < n implies dig(#[trigger] s.take(n)[i]) by { if i > 0 { assert(s.skip(1).take(n - 1)[i - 1] == s[i]); } }
        n
    } else { assert(s.skip(0) =~= s); 0 }
}
/// the digits are dropped up to the first other character
proof fn lemma_drop_at(s: Seq<char>, n: int)
    requires 0 <= n <= s.len(), digits(s.take(n)), n < s.len() ==> !dig(s[n])
    ensures drop_digits(s) == s.skip(n)
{
    let k = lemma_drop_cut(s);
    if k < n { assert(s.take(n)[k] == s[k]); }
    if n < k { assert(s.take(k)[n] == s[n]); }
}
proof fn lemma_exp(s: Seq<char>)
    ensures num_exp(s, false) <==> g_exp(s)
{
    if s.len() > 0 && (s[0] == 'e' || s[0] == 'E') {
        let t = s.skip(1);
        if t.len() > 0 && (t[0] == '+' || t[0] == '-') {
            assert(t[0] == s[1]);
            let d = t.skip(1);
            assert(d =~= s.skip(2));
            let n = lemma_drop_cut(d);
            if num_exp(s, false) { assert(d.take(n) =~= d); assert(digits(s.skip(2))); }
            if g_exp(s) {
                if s.len() >= 2 && digits(s.skip(1)) { assert(dig(s.skip(1)[0])); }
                if n < d.len() { assert(dig(d[n])); }
                assert(dig(d[0]));
            }
        } else {
            let n = lemma_drop_cut(t);
            if num_exp(s, false) { assert(t.take(n) =~= t); }
            if g_exp(s) { assert(digits(t)); if n < t.len() { assert(dig(t[n])); } assert(dig(t[0])); }
        }
    }
}
/// [frac] [exp]
pub open spec fn g_tail(s: Seq<char>, n: int) -> bool { 0 <= n <= s.len() && g_frac(s.take(n)) && g_exp(s.skip(n)) }
proof fn lemma_frac(s: Seq<char>) -> (n: int)
    ensures num_frac(s, false) ==> g_tail(s, n)
{
    if s.len() > 0 && s[0] == '.' {
        if s.len() > 1 && dig(s[1]) {
            let k = lemma_drop_cut(s.skip(2));
            let n = k + 2;
            assert(s.skip(2).skip(k) =~= s.skip(n));
            lemma_exp(s.skip(n));
            let f = s.take(n);
            assert forall|i: int| 0 <= i < f.skip(1).len() implies dig(#[trigger] f.skip(1)[i]) by { if i > 0 { assert(s.skip(2).take(k)[i - 1] == f.skip(1)[i]); } }
            n
        } else { 0 }
    } else { assert(s.skip(0) =~= s); lemma_exp(s); 0 }
}
proof fn lemma_frac_back(s: Seq<char>, n: int)
    requires g_tail(s, n)
    ensures num_frac(s, false)
{
    let f = s.take(n);
    let e = s.skip(n);
    lemma_exp(e);
    if n == 0 {
        assert(e =~= s);
        if s.len() > 0 { assert(s[0] != '.'); }
    } else {
        assert(f[0] == s[0]);
        assert(f.skip(1)[0] == s[1]);
        let t = s.skip(2);
        assert forall|i: int| 0 <= i < n - 2 implies dig(#[trigger] t.take(n - 2)[i]) by { assert(f.skip(1)[i + 1] == t.take(n - 2)[i]); }
        if n < s.len() { assert(e[0] == s[n]); assert(t[n - 2] == s[n]); assert(!dig(e[0])); }
        lemma_drop_at(t, n - 2);
        assert(t.skip(n - 2) =~= e);
    }
}
proof fn lemma_int(s: Seq<char>) -> (r: (int, int))
    ensures num_int(s, false) ==> 0 <= r.0 <= s.len() && g_int(s.take(r.0)) && g_tail(s.skip(r.0), r.1)
{
    if s.len() == 0 { (0, 0) }
    else if s[0] == '0' { let n = lemma_frac(s.skip(1)); assert(s.take(1).len() == 1); (1, n) }
    else {
        let k = lemma_drop_cut(s);
        let n = lemma_frac(s.skip(k));
        if dig(s[0]) { assert(k > 0); assert(s.take(k)[0] == s[0]); }
        (k, n)
    }
}
proof fn lemma_int_back(s: Seq<char>, k: int, n: int)
    requires 0 <= k <= s.len(), g_int(s.take(k)), g_tail(s.skip(k), n)
    ensures num_int(s, false)
{
    let b = s.take(k);
    let t = s.skip(k);
    assert(b[0] == s[0]);
    lemma_frac_back(t, n);
    if s[0] == '0' { assert(k == 1); }
    else {
        assert(dig(b[0]));
        if k < s.len() { assert(t[0] == s[k]); if n > 0 { assert(t.take(n)[0] == t[0]); } else { assert(t.skip(n)[0] == t[0]); } }
        lemma_drop_at(s, k);
    }
}
/// C01: the number syntax the parser is held to is the grammar's
pub proof fn theorem_number(s: Seq<char>)
    ensures json_number(s) <==> g_num(s)
{
    if json_number(s) {
        let a = if s[0] == '-' { 1int } else { 0int };
        let t = s.skip(a);
        if a == 0 { assert(t =~= s); }
        let (k, n) = lemma_int(t);
        assert(g_num_parts(s, s.take(a), t.take(k), t.skip(k).take(n), t.skip(k).skip(n))) by {
            assert(s.take(a) + t.take(k) + t.skip(k).take(n) + t.skip(k).skip(n) =~= s);
            if a == 1 { assert(s.take(1) =~= seq!['-']); }
        }
    }
    if g_num(s) {
        let (a, b, c, d) = choose|a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>| #[trigger] g_num_parts(s, a, b, c, d);
        let t = s.skip(a.len() as int);
        assert(t =~= b + c + d);
        assert(t.take(b.len() as int) =~= b);
        let u = t.skip(b.len() as int);
        assert(u =~= c + d);
        assert(u.take(c.len() as int) =~= c);
        assert(u.skip(c.len() as int) =~= d);
        lemma_int_back(t, b.len() as int, c.len() as int);
        if a.len() == 0 { assert(t =~= s); assert(b[0] == s[0]); assert(dig(b[0])); }
        else { assert(s[0] == a[0]); }
    }
}

// ---- strings ----------------------------------------------------------------------------------------
proof fn lemma_add_skip(s: Seq<char>, t: Seq<char>, n: int)
    requires 0 <= n <= s.len()
    ensures (s + t).skip(n) == s.skip(n) + t
{ assert((s + t).skip(n) =~= s.skip(n) + t); }
/// four hex digits
proof fn lemma_str_u4(t: Seq<char>, acc: Seq<char>)
    ensures str_u(t, 4, 0, acc) == (if t.len() >= 4 && hexd(t[0]) >= 0 && hexd(t[1]) >= 0 && hexd(t[2]) >= 0 && hexd(t[3]) >= 0 {
        str_u(t.skip(4), 0, hexd(t[0]) * 4096 + hexd(t[1]) * 256 + hexd(t[2]) * 16 + hexd(t[3]), acc) } else { None })
{
    let t1 = t.skip(1); let t2 = t1.skip(1); let t3 = t2.skip(1); let t4 = t3.skip(1);
    if t.len() >= 4 { assert(t4 =~= t.skip(4)); }
    reveal_with_fuel(str_u, 5);
}
proof fn lemma_str_u2_4(t: Seq<char>, u: int, acc: Seq<char>)
    ensures str_u2(t, 4, 0, u, acc) == (if t.len() >= 4 && hexd(t[0]) >= 0 && hexd(t[1]) >= 0 && hexd(t[2]) >= 0 && hexd(t[3]) >= 0 {
        str_u2(t.skip(4), 0, hexd(t[0]) * 4096 + hexd(t[1]) * 256 + hexd(t[2]) * 16 + hexd(t[3]), u, acc) } else { None })
{
    let t1 = t.skip(1); let t2 = t1.skip(1); let t3 = t2.skip(1); let t4 = t3.skip(1);
    if t.len() >= 4 { assert(t4 =~= t.skip(4)); }
    reveal_with_fuel(str_u2, 5);
}
/// one unit is decoded to its character
proof fn lemma_unit(t: Seq<char>, n: int, c: char, acc: Seq<char>)
    requires 0 <= n <= t.len(), g_unit(t.take(n), c)
    ensures n > 0, str_k(t, acc) == str_k(t.skip(n), acc.push(c))
{
    let s = t.take(n);
    if s == seq![c] && c != '"' && c != '\\' && (c as int) >= 0x20 {
        assert(s.len() == 1); assert(t[0] == s[0]);
    } else if s.len() == 2 && s[0] == '\\' && esc_letter(s[1], c) {
        assert(t[0] == s[0] && t[1] == s[1]);
    } else if s.len() == 6 {
        let u = choose|u: int| #[trigger] hex_quad(s.skip(2), u) && !is_high(u) && !is_low(u) && c == chr(u);
        let h = t.skip(2);
        assert(t[0] == s[0] && t[1] == s[1]);
        assert(h[0] == s.skip(2)[0] && h[1] == s.skip(2)[1] && h[2] == s.skip(2)[2] && h[3] == s.skip(2)[3]);
        lemma_str_u4(h, acc);
        assert(h.skip(4) =~= t.skip(6));
    } else {
        let (u, w) = choose|u: int, w: int| #[trigger] hex_quad(s.subrange(2, 6), u) && #[trigger] hex_quad(s.skip(8), w) && is_high(u) && is_low(w) && c == chr((u - 0xD800) * 1024 + (w - 0xDC00) + 0x10000);
        let h = t.skip(2);
        assert(t[0] == s[0] && t[1] == s[1] && t[6] == s[6] && t[7] == s[7]);
        assert(h[0] == s.subrange(2, 6)[0] && h[1] == s.subrange(2, 6)[1] && h[2] == s.subrange(2, 6)[2] && h[3] == s.subrange(2, 6)[3]);
        lemma_str_u4(h, acc);
        assert(h.skip(4) =~= t.skip(6));
        let g = t.skip(8);
        assert(t.skip(6).skip(2) =~= g);
        assert(g[0] == s.skip(8)[0] && g[1] == s.skip(8)[1] && g[2] == s.skip(8)[2] && g[3] == s.skip(8)[3]);
        lemma_str_u2_4(g, u, acc);
        assert(g.skip(4) =~= t.skip(12));
    }
}
/// the units of a body, then a quote
proof fn lemma_chars(s: Seq<char>, x: Seq<char>, w: Seq<char>, acc: Seq<char>)
    requires g_chars(s, x)
    ensures str_k(s + seq!['"'] + w, acc) == (if all_ws(w) { Some(acc + x) } else { None })
    decreases x.len()
{
    let t = s + seq!['"'] + w;
    if x.len() == 0 {
        assert(t.skip(1) =~= w);
        assert(acc + x =~= acc);
    } else {
        let n = choose|n: int| 0 <= n <= s.len() && #[trigger] g_unit(s.take(n), x[0]) && g_chars(s.skip(n), x.skip(1));
        assert(t.take(n) =~= s.take(n));
        lemma_unit(t, n, x[0], acc);
        assert(t.skip(n) =~= s.skip(n) + seq!['"'] + w);
        lemma_chars(s.skip(n), x.skip(1), w, acc.push(x[0]));
        assert(acc.push(x[0]) + x.skip(1) =~= acc + x);
    }
}
proof fn lemma_chars_cons(s: Seq<char>, n: int, c: char, x: Seq<char>)
    requires 0 <= n <= s.len(), g_unit(s.take(n), c), g_chars(s.skip(n), x)
    ensures g_chars(s, seq![c] + x)
{
    let y = seq![c] + x;
    assert(y.skip(1) =~= x);
    assert(y[0] == c);
}
/// what the decoder accepts is a body of units, a quote, whitespace; `r` is the length of the body
proof fn lemma_chars_back(t: Seq<char>, acc: Seq<char>) -> (r: (int, Seq<char>))
    requires str_k(t, acc) is Some
    ensures 0 <= r.0 < t.len(), t[r.0] == '"', all_ws(t.skip(r.0 + 1)), g_chars(t.take(r.0), r.1), str_k(t, acc) == Some(acc + r.1)
    decreases t.len()
{
    if t[0] == '"' {
        assert(acc + Seq::<char>::empty() =~= acc);
        (0, Seq::empty())
    } else if t[0] == '\\' {
        if t[1] == 'u' {
            let h = t.skip(2);
            lemma_str_u4(h, acc);
            let u = hexd(h[0]) * 4096 + hexd(h[1]) * 256 + hexd(h[2]) * 16 + hexd(h[3]);
            assert(h.skip(4) =~= t.skip(6));
            if is_high(u) {
                assert(t.skip(6)[0] == t[6] && t.skip(6)[1] == t[7]);
                let g = t.skip(8);
                assert(t.skip(6).skip(2) =~= g);
                lemma_str_u2_4(g, u, acc);
                let w = hexd(g[0]) * 4096 + hexd(g[1]) * 256 + hexd(g[2]) * 16 + hexd(g[3]);
                assert(g.skip(4) =~= t.skip(12));
                let c = chr((u - 0xD800) * 1024 + (w - 0xDC00) + 0x10000);
                let s = t.take(12);
                assert(s.subrange(2, 6) =~= h.take(4)); assert(s.skip(8) =~= g.take(4));
                assert(hex_quad(s.subrange(2, 6), u) && hex_quad(s.skip(8), w));
                assert(g_unit(s, c));
                lemma_step_back(t, acc, 12, c)
            } else {
                let s = t.take(6);
                assert(s.skip(2) =~= h.take(4));
                assert(hex_quad(s.skip(2), u));
                assert(g_unit(s, chr(u)));
                lemma_step_back(t, acc, 6, chr(u))
            }
        } else {
            let c = if t[1] == 'b' { '\x08' } else if t[1] == 'f' { '\x0C' } else if t[1] == 'n' { '\n' } else if t[1] == 'r' { '\r' } else if t[1] == 't' { '\t' } else { t[1] };
            assert(g_unit(t.take(2), c));
            lemma_step_back(t, acc, 2, c)
        }
    } else {
        assert(t.take(1) =~= seq![t[0]]);
        assert(g_unit(t.take(1), t[0]));
        lemma_step_back(t, acc, 1, t[0])
    }
}
proof fn lemma_step_back(t: Seq<char>, acc: Seq<char>, n: int, c: char) -> (r: (int, Seq<char>))
    requires 0 < n <= t.len(), g_unit(t.take(n), c), str_k(t, acc) is Some
    ensures 0 <= r.0 < t.len(), t[r.0] == '"', all_ws(t.skip(r.0 + 1)), g_chars(t.take(r.0), r.1), str_k(t, acc) == Some(acc + r.1)
    decreases t.len(), 0int
{
    lemma_unit(t, n, c, acc);
    let (k, x) = lemma_chars_back(t.skip(n), acc.push(c));
    assert(t.skip(n).skip(k + 1) =~= t.skip(n + k + 1));
    assert(t.take(n + k).take(n) =~= t.take(n));
    assert(t.take(n + k).skip(n) =~= t.skip(n).take(k));
    lemma_chars_cons(t.take(n + k), n, c, x);
    assert(acc.push(c) + x =~= acc + (seq![c] + x));
    (n + k, seq![c] + x)
}

// ---- what `sp` accepts is in the grammar --------------------------------------------------------------
proof fn lemma_commas_len(ps: Seq<Seq<char>>, i: int)
    requires 0 <= i < ps.len()
    ensures ps[i].len() <= commas(ps).len()
    decreases ps.len()
{
    if ps.len() > 1 && i > 0 { lemma_commas_len(ps.skip(1), i - 1); assert(ps.skip(1)[i - 1] == ps[i]); }
}
proof fn lemma_commas_cons(p: Seq<char>, ps: Seq<Seq<char>>)
    requires ps.len() >= 1
    ensures commas(seq![p] + ps) == p + seq![','] + commas(ps)
{
    assert((seq![p] + ps).skip(1) =~= ps);
}
proof fn lemma_ws_cat(a: Seq<char>, b: Seq<char>)
    requires all_ws(a), all_ws(b)
    ensures all_ws(a + b)
{
    lemma_ws_iff(a); lemma_ws_iff(b); lemma_ws_iff(a + b);
    assert forall|i: int| 0 <= i < (a + b).len() implies ws(#[trigger] (a + b)[i]) by {
        if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); }
    }
}
proof fn lemma_sp_back(s: Seq<char>)
    requires sp(s) is Some
    ensures json_text(s, sp(s).unwrap())
    decreases s.len(), 3int, 0int
{
    let (a, e) = lemma_trim_cut(s);
    let t = trim(s);
    let v = sp(s).unwrap();
    let b = lemma_spt_back(t);
    assert(s.skip(a + b) =~= t.skip(b) + s.skip(e));
    lemma_ws_cat(t.skip(b), s.skip(e));
    assert(s.subrange(a, a + b) =~= t.take(b));
    assert(g_val(s.subrange(a, a + b), v));
}
proof fn lemma_spt_back(s: Seq<char>) -> (b: int)
    requires spt(s) is Some
    ensures 0 <= b <= s.len(), all_ws(s.skip(b)), g_val(s.take(b), spt(s).unwrap())
    decreases s.len(), 2int, 0int
{
    let v = spt(s).unwrap();
    let l = s.len() as int;
    if s[0] == 'n' || s[0] == 't' || s[0] == 'f' { assert(s.take(l) =~= s); l }
    else if s[0] == '-' || dig(s[0]) { theorem_number(s); assert(s.take(l) =~= s); l }
    else if s[0] == '"' {
        let (k, x) = lemma_chars_back(s.skip(1), Seq::empty());
        assert(Seq::<char>::empty() + x =~= x);
        let q = s.take(k + 2);
        assert(q.subrange(1, q.len() - 1) =~= s.skip(1).take(k));
        assert(s.skip(k + 2) =~= s.skip(1).skip(k + 1));
        assert(q.last() == s.skip(1)[k]);
        k + 2
    }
    else if s[0] == '[' {
        let (k, ps, a) = lemma_arr_back(s.len(), s.skip(1), Seq::empty(), Seq::empty(), 0, false);
        let f = Seq::<char>::empty() + s.skip(1);
        assert(f =~= s.skip(1));
        let q = s.take(k + 2);
        assert(q.subrange(1, q.len() - 1) =~= f.take(k));
        assert(s.skip(k + 2) =~= f.skip(k + 1));
        assert(q.last() == f[k]);
        assert(Seq::<JV>::empty() + a =~= a);
        if a.len() > 0 {
            assert forall|i: int| 0 <= i < ps.len() implies g_text_below(q.len(), #[trigger] ps[i], a[i]) by { lemma_commas_len(ps, i); lemma_below(s.len(), q.len(), ps[i], a[i]); }
            assert(g_elems(q.len(), ps, a));
        }
        k + 2
    }
    else {
        let (k, ps, ks, vs) = lemma_obj_back(s.len(), s.skip(1), Map::empty(), Seq::empty(), Seq::empty(), true, 0, false);
        let f = Seq::<char>::empty() + s.skip(1);
        assert(f =~= s.skip(1));
        let q = s.take(k + 2);
        assert(q.subrange(1, q.len() - 1) =~= f.take(k));
        assert(s.skip(k + 2) =~= f.skip(k + 1));
        assert(q.last() == f[k]);
        if ps.len() > 0 {
            assert forall|i: int| 0 <= i < ps.len() implies g_member(q.len(), #[trigger] ps[i], ks[i], vs[i]) by { lemma_commas_len(ps, i); lemma_member_below(s.len(), q.len(), ps[i], ks[i], vs[i]); }
            assert(g_members(q.len(), ps, ks, vs));
        }
        k + 2
    }
}
proof fn lemma_member_below(n: nat, m: nat, s: Seq<char>, k: Seq<char>, v: JV)
    requires s.len() < m, g_member(n, s, k, v)
    ensures g_member(m, s, k, v)
{
    let c = choose|c: int| 0 <= c < s.len() && s[c] == ':' && g_text_below(n, #[trigger] s.take(c), JV::Str(k)) && g_text_below(n, s.skip(c + 1), v);
    lemma_below(n, m, s.take(c), JV::Str(k));
    lemma_below(n, m, s.skip(c + 1), v);
    assert(s.take(c).len() == c);
}
proof fn lemma_arr_back(n: nat, t: Seq<char>, acc: Seq<JV>, cur: Seq<char>, i: int, j: bool) -> (r: (int, Seq<Seq<char>>, Seq<JV>))
    requires arr_k(t, acc, cur, i, j) is Some, cur.len() + t.len() < n
    ensures ({
        let f = cur + t;
        let (k, ps, a) = r;
        &&& 0 <= k < f.len() && f[k] == ']' && all_ws(f.skip(k + 1))
        &&& arr_k(t, acc, cur, i, j) == Some(acc + a)
        &&& (a.len() > 0 && f.take(k) == commas(ps) && g_elems(n, ps, a)) || (a.len() == 0 && acc.len() == 0 && all_ws(f.take(k)))
    })
    decreases cur.len() + t.len() + 1, 1int, t.len()
{
    let f = cur + t;
    if t[0] == ']' && i == 0 && !j {
        let k = cur.len() as int;
        assert(f.skip(k + 1) =~= t.skip(1));
        assert(f.take(k) =~= cur);
        if acc.len() == 0 && all_ws(cur) {
            assert(acc + Seq::<JV>::empty() =~= acc);
            (k, Seq::empty(), Seq::empty())
        } else {
            let v = sp(cur).unwrap();
            lemma_sp_back(cur);
            lemma_below(cur.len() + 1, n, cur, v);
            assert(acc.push(v) =~= acc + seq![v]);
            (k, seq![cur], seq![v])
        }
    } else if t[0] == ',' && i == 0 && !j {
        let v = sp(cur).unwrap();
        lemma_sp_back(cur);
        lemma_below(cur.len() + 1, n, cur, v);
        let (k, ps, a) = lemma_arr_back(n, t.skip(1), acc.push(v), Seq::empty(), 0, false);
        let g = Seq::<char>::empty() + t.skip(1);
        let c = cur.len() + 1;
        assert(f.skip(c + k + 1) =~= g.skip(k + 1));
        assert(f.take(c + k) =~= cur + seq![','] + g.take(k));
        lemma_commas_cons(cur, ps);
        assert(acc.push(v) + a =~= acc + (seq![v] + a));
        let qs = seq![cur] + ps;
        let b = seq![v] + a;
        assert forall|x: int| 0 <= x < qs.len() implies g_text_below(n, #[trigger] qs[x], b[x]) by { if x > 0 { assert(qs[x] == ps[x - 1] && b[x] == a[x - 1]); } }
        (c + k, qs, b)
    } else if t[0] == '\\' {
        assert(cur.push(t[0]).push(t[1]) + t.skip(2) =~= f);
        lemma_arr_back(n, t.skip(2), acc, cur.push(t[0]).push(t[1]), i, j)
    } else {
        assert(cur.push(t[0]) + t.skip(1) =~= f);
        lemma_arr_back(n, t.skip(1), acc, cur.push(t[0]), next_i(t[0], i, j), next_j(t[0], j))
    }
}
proof fn lemma_append_cons(m: Map<Seq<char>, Seq<JV>>, k: Seq<char>, v: JV, ks: Seq<Seq<char>>, vs: Seq<JV>)
    requires ks.len() == vs.len()
    ensures append_all(m, seq![k] + ks, seq![v] + vs) == append_all(obj_append(m, k, v), ks, vs)
{
    assert((seq![k] + ks).skip(1) =~= ks);
    assert((seq![v] + vs).skip(1) =~= vs);
}
proof fn lemma_member(n: nat, k: Seq<char>, v: Seq<char>)
    requires sp(k) matches Some(JV::Str(_)), sp(v) is Some, json_text(k, sp(k).unwrap()), json_text(v, sp(v).unwrap()), k.len() + v.len() + 1 < n
    ensures g_member(n, k + seq![':'] + v, sp(k).unwrap()->Str_0, sp(v).unwrap())
{
    let s = k + seq![':'] + v;
    let c = k.len() as int;
    assert(s.take(c) =~= k);
    assert(s.skip(c + 1) =~= v);
    lemma_below(k.len() + 1, n, k, sp(k).unwrap());
    lemma_below(v.len() + 1, n, v, sp(v).unwrap());
    assert(s[c] == ':');
}
proof fn lemma_obj_back(n: nat, t: Seq<char>, acc: Map<Seq<char>, Seq<JV>>, k: Seq<char>, v: Seq<char>, on_key: bool, i: int, j: bool)
    -> (r: (int, Seq<Seq<char>>, Seq<Seq<char>>, Seq<JV>))
    requires obj_k(t, acc, k, v, on_key, i, j) is Some, k.len() + v.len() + t.len() + 1 <= n, on_key ==> v.len() == 0, !on_key ==> k.len() + v.len() + t.len() + 1 < n
    ensures ({
        let f = if on_key { k + t } else { k + seq![':'] + v + t };
        let (p, ps, ks, vs) = r;
        &&& 0 <= p < f.len() && f[p] == '}' && all_ws(f.skip(p + 1))
        &&& ks.len() == vs.len() && obj_k(t, acc, k, v, on_key, i, j) == Some(append_all(acc, ks, vs))
        &&& (ps.len() > 0 && f.take(p) == commas(ps) && g_members(n, ps, ks, vs)) || (ps.len() == 0 && ks.len() == 0 && acc == Map::<Seq<char>, Seq<JV>>::empty() && all_ws(f.take(p)))
    })
    decreases k.len() + v.len() + t.len() + 1, 1int, t.len()
{
    let f = if on_key { k + t } else { k + seq![':'] + v + t };
    let e = Map::<Seq<char>, Seq<JV>>::empty();
    if t[0] == '}' && i == 0 && !j && on_key && acc == e && all_ws(k) {
        let p = k.len() as int;
        assert(f.skip(p + 1) =~= t.skip(1));
        assert(f.take(p) =~= k);
        (p, Seq::empty(), Seq::empty(), Seq::empty())
    } else if (t[0] == '}' || t[0] == ',') && i == 0 && !j && !on_key {
        let kk = sp(k).unwrap()->Str_0;
        let vv = sp(v).unwrap();
        lemma_sp_back(k);
        lemma_sp_back(v);
        lemma_member(n, k, v);
        let p = (k.len() + v.len() + 1) as int;
        assert(f.take(p) =~= k + seq![':'] + v);
        if t[0] == '}' {
            assert(f.skip(p + 1) =~= t.skip(1));
            lemma_append_cons(acc, kk, vv, Seq::empty(), Seq::empty());
            assert(seq![kk] + Seq::<Seq<char>>::empty() =~= seq![kk]);
            assert(seq![vv] + Seq::<JV>::empty() =~= seq![vv]);
            (p, seq![f.take(p)], seq![kk], seq![vv])
        } else {
            let (q, ps, ks, vs) = lemma_obj_back(n, t.skip(1), obj_append(acc, kk, vv), Seq::empty(), Seq::empty(), true, 0, false);
            let g = Seq::<char>::empty() + t.skip(1);
            assert(f.skip(p + 1 + q + 1) =~= g.skip(q + 1));
            assert(f.take(p + 1 + q) =~= f.take(p) + seq![','] + g.take(q));
            lemma_append_cons(acc, kk, vv, ks, vs);
            lemma_obj_append_nonempty(acc, kk, vv);
            lemma_commas_cons(f.take(p), ps);
            let qs = seq![f.take(p)] + ps;
            let ls = seq![kk] + ks;
            let ws_ = seq![vv] + vs;
            assert forall|x: int| 0 <= x < qs.len() implies g_member(n, #[trigger] qs[x], ls[x], ws_[x]) by { if x > 0 { assert(qs[x] == ps[x - 1] && ls[x] == ks[x - 1] && ws_[x] == vs[x - 1]); } }
            (p + 1 + q, qs, ls, ws_)
        }
    } else if t[0] == ':' && i == 0 && !j && on_key {
        assert(k + seq![':'] + v + t.skip(1) =~= f);
        lemma_obj_back(n, t.skip(1), acc, k, v, false, i, j)
    } else if t[0] == '\\' {
        if on_key {
            assert(k.push(t[0]).push(t[1]) + t.skip(2) =~= f);
            lemma_obj_back(n, t.skip(2), acc, k.push(t[0]).push(t[1]), v, on_key, i, j)
        } else {
            assert(k + seq![':'] + v.push(t[0]).push(t[1]) + t.skip(2) =~= f);
            lemma_obj_back(n, t.skip(2), acc, k, v.push(t[0]).push(t[1]), on_key, i, j)
        }
    } else if on_key {
        assert(k.push(t[0]) + t.skip(1) =~= f);
        lemma_obj_back(n, t.skip(1), acc, k.push(t[0]), v, on_key, next_i(t[0], i, j), next_j(t[0], j))
    } else {
        assert(k + seq![':'] + v.push(t[0]) + t.skip(1) =~= f);
        lemma_obj_back(n, t.skip(1), acc, k, v.push(t[0]), on_key, next_i(t[0], i, j), next_j(t[0], j))
    }
}

// ---- the grammar is accepted by `sp` --------------------------------------------------------------------
pub open spec fn special(c: char) -> bool { c == ']' || c == '}' || c == ',' || c == ':' }
/// scanning `p` from depth `i`, in a string or not, meets no separator at depth 0 and ends at depth `a`, in a string or not
pub open spec fn clean(p: Seq<char>, i: int, j: bool, a: int, b: bool) -> bool decreases p.len() {
    if p.len() == 0 { a == i && b == j }
    else if special(p[0]) && i == 0 && !j { false }
    else if p[0] == '\\' { p.len() >= 2 && clean(p.skip(2), i, j, a, b) }
    else { clean(p.skip(1), next_i(p[0], i, j), next_j(p[0], j), a, b) }
}
proof fn lemma_clean_cat(p: Seq<char>, q: Seq<char>, i: int, j: bool, a: int, b: bool, c: int, d: bool)
    requires clean(p, i, j, a, b), clean(q, a, b, c, d)
    ensures clean(p + q, i, j, c, d)
    decreases p.len()
{
    if p.len() == 0 { assert(p + q =~= q); }
    else if p[0] == '\\' { lemma_clean_cat(p.skip(2), q, i, j, a, b, c, d); lemma_add_skip(p, q, 2); }
    else { lemma_clean_cat(p.skip(1), q, next_i(p[0], i, j), next_j(p[0], j), a, b, c, d); lemma_add_skip(p, q, 1); }
}
proof fn lemma_arr_clean(p: Seq<char>, r: Seq<char>, acc: Seq<JV>, cur: Seq<char>, i: int, j: bool, a: int, b: bool)
    requires clean(p, i, j, a, b)
    ensures arr_k(p + r, acc, cur, i, j) == arr_k(r, acc, cur + p, a, b)
    decreases p.len()
{
    if p.len() == 0 { assert(p + r =~= r); assert(cur + p =~= cur); }
    else if p[0] == '\\' {
        lemma_add_skip(p, r, 2);
        lemma_arr_clean(p.skip(2), r, acc, cur.push(p[0]).push(p[1]), i, j, a, b);
        assert(cur.push(p[0]).push(p[1]) + p.skip(2) =~= cur + p);
    } else {
        lemma_add_skip(p, r, 1);
        lemma_arr_clean(p.skip(1), r, acc, cur.push(p[0]), next_i(p[0], i, j), next_j(p[0], j), a, b);
        assert(cur.push(p[0]) + p.skip(1) =~= cur + p);
    }
}
proof fn lemma_obj_clean(p: Seq<char>, r: Seq<char>, acc: Map<Seq<char>, Seq<JV>>, k: Seq<char>, v: Seq<char>, on_key: bool, i: int, j: bool, a: int, b: bool)
    requires clean(p, i, j, a, b)
    ensures obj_k(p + r, acc, k, v, on_key, i, j) == obj_k(r, acc, if on_key { k + p } else { k }, if on_key { v } else { v + p }, on_key, a, b)
    decreases p.len()
{
    if p.len() == 0 { assert(p + r =~= r); assert(k + p =~= k); assert(v + p =~= v); }
    else if p[0] == '\\' {
        lemma_add_skip(p, r, 2);
        if on_key { lemma_obj_clean(p.skip(2), r, acc, k.push(p[0]).push(p[1]), v, on_key, i, j, a, b); } else { lemma_obj_clean(p.skip(2), r, acc, k, v.push(p[0]).push(p[1]), on_key, i, j, a, b); }
        assert(k.push(p[0]).push(p[1]) + p.skip(2) =~= k + p);
        assert(v.push(p[0]).push(p[1]) + p.skip(2) =~= v + p);
    } else {
        lemma_add_skip(p, r, 1);
        if on_key { lemma_obj_clean(p.skip(1), r, acc, k.push(p[0]), v, on_key, next_i(p[0], i, j), next_j(p[0], j), a, b); } else { lemma_obj_clean(p.skip(1), r, acc, k, v.push(p[0]), on_key, next_i(p[0], i, j), next_j(p[0], j), a, b); }
        assert(k.push(p[0]) + p.skip(1) =~= k + p);
        assert(v.push(p[0]) + p.skip(1) =~= v + p);
    }
}
/// a character without meaning to the scan
pub open spec fn plain(c: char) -> bool { !special(c) && c != '"' && c != '\\' && c != '[' && c != '{' }
proof fn lemma_clean_plain(s: Seq<char>, i: int)
    requires forall|x: int| 0 <= x < s.len() ==> plain(#[trigger] s[x])
    ensures clean(s, i, false, i, false)
    decreases s.len()
{
    if s.len() > 0 {
        assert(plain(s[0]));
        assert forall|x: int| 0 <= x < s.skip(1).len() implies plain(#[trigger] s.skip(1)[x]) by { assert(s.skip(1)[x] == s[x + 1]); }
        lemma_clean_plain(s.skip(1), i);
    }
}
proof fn lemma_clean_ws(s: Seq<char>, i: int)
    requires all_ws(s)
    ensures clean(s, i, false, i, false)
{
    lemma_ws_iff(s);
    lemma_clean_plain(s, i);
}
pub open spec fn num_char(c: char) -> bool { dig(c) || c == '-' || c == '+' || c == '.' || c == 'e' || c == 'E' }
pub proof fn lemma_num_chars(s: Seq<char>)
    requires g_num(s)
    ensures forall|x: int| 0 <= x < s.len() ==> num_char(#[trigger] s[x]), s.len() > 0, s[0] == '-' || dig(s[0]), dig(s.last())
{
    let (a, b, c, d) = choose|a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>| #[trigger] g_num_parts(s, a, b, c, d);
    assert forall|x: int| 0 <= x < s.len() implies num_char(#[trigger] s[x]) by {
        let lb = a.len(); let lc = lb + b.len(); let ld = lc + c.len();
        if x < lb { assert(s[x] == a[x]); }
        else if x < lc { assert(s[x] == b[x - lb]); assert(dig(b[x - lb])); }
        else if x < ld { assert(s[x] == c[x - lc]); if x > lc { assert(dig(c.skip(1)[x - lc - 1])); } }
        else { let y = x - ld; assert(s[x] == d[y]); if y >= 1 { if digits(d.skip(1)) { assert(dig(d.skip(1)[y - 1])); } else if y >= 2 { assert(dig(d.skip(2)[y - 2])); } } }
    }
    assert(dig(b[0]));
    if a.len() == 0 { assert(s[0] == b[0]); } else { assert(s[0] == a[0]); }
    if d.len() > 0 { assert(s.last() == d.last()); if digits(d.skip(1)) && d.len() >= 2 { assert(dig(d.skip(1).last())); } else { assert(dig(d.skip(2).last())); } }
    else if c.len() > 0 { assert(s.last() == c.last()); assert(dig(c.skip(1).last())); }
    else { assert(s.last() == b.last()); assert(dig(b.last())); }
}
proof fn lemma_clean_unit(s: Seq<char>, c: char, i: int)
    requires g_unit(s, c)
    ensures clean(s, i, true, i, true)
{
    reveal_with_fuel(clean, 12);
    if s.len() == 1 { }
    else if s.len() == 2 { assert(s.skip(2).len() == 0); }
    else if s.len() == 6 {
        let u = choose|u: int| #[trigger] hex_quad(s.skip(2), u) && !is_high(u) && !is_low(u) && c == chr(u);
        let h = s.skip(2);
        lemma_clean_hex(h, i);
    } else {
        let (u, w) = choose|u: int, w: int| #[trigger] hex_quad(s.subrange(2, 6), u) && #[trigger] hex_quad(s.skip(8), w) && is_high(u) && is_low(w) && c == chr((u - 0xD800) * 1024 + (w - 0xDC00) + 0x10000);
        let h = s.subrange(2, 6);
        let g = s.skip(8);
        lemma_clean_hex(h, i);
        lemma_clean_hex(g, i);
        let m = s.subrange(6, 8);
        assert(m.skip(2).len() == 0);
        assert(clean(m, i, true, i, true));
        lemma_clean_cat(m, g, i, true, i, true, i, true);
        lemma_clean_cat(h, m + g, i, true, i, true, i, true);
        assert(s.skip(2) =~= h + (m + g));
    }
}
proof fn lemma_clean_hex(h: Seq<char>, i: int)
    requires h.len() == 4, hexd(h[0]) >= 0, hexd(h[1]) >= 0, hexd(h[2]) >= 0, hexd(h[3]) >= 0
    ensures clean(h, i, true, i, true)
{
    let a = h.skip(1); let b = a.skip(1); let c = b.skip(1); let d = c.skip(1);
    assert(a[0] == h[1] && b[0] == h[2] && c[0] == h[3] && d.len() == 0);
    assert(clean(d, i, true, i, true));
    assert(clean(c, i, true, i, true));
    assert(clean(b, i, true, i, true));
    assert(clean(a, i, true, i, true));
}
proof fn lemma_clean_chars(s: Seq<char>, x: Seq<char>, i: int)
    requires g_chars(s, x)
    ensures clean(s, i, true, i, true)
    decreases x.len()
{
    if x.len() > 0 {
        let n = choose|n: int| 0 <= n <= s.len() && #[trigger] g_unit(s.take(n), x[0]) && g_chars(s.skip(n), x.skip(1));
        lemma_clean_unit(s.take(n), x[0], i);
        lemma_clean_chars(s.skip(n), x.skip(1), i);
        lemma_clean_cat(s.take(n), s.skip(n), i, true, i, true, i, true);
        assert(s.take(n) + s.skip(n) =~= s);
    }
}
proof fn lemma_clean_one(c: char, i: int, j: bool)
    requires c != '\\', !(special(c) && i == 0 && !j)
    ensures clean(seq![c], i, j, next_i(c, i, j), next_j(c, j))
{
    assert(seq![c].skip(1).len() == 0);
    assert(clean(seq![c].skip(1), next_i(c, i, j), next_j(c, j), next_i(c, i, j), next_j(c, j)));
}
/// the parts in brackets
proof fn lemma_clean_commas(ps: Seq<Seq<char>>, i: int)
    requires i >= 1, forall|x: int| 0 <= x < ps.len() ==> clean(#[trigger] ps[x], i, false, i, false)
    ensures clean(commas(ps), i, false, i, false)
    decreases ps.len()
{
    if ps.len() > 1 {
        let qs = ps.skip(1);
        assert forall|x: int| 0 <= x < qs.len() implies clean(#[trigger] qs[x], i, false, i, false) by { assert(qs[x] == ps[x + 1]); }
        lemma_clean_commas(qs, i);
        lemma_clean_one(',', i, false);
        assert(clean(ps[0], i, false, i, false));
        lemma_clean_cat(ps[0], seq![','], i, false, i, false, i, false);
        lemma_clean_cat(ps[0] + seq![','], commas(qs), i, false, i, false, i, false);
    } else if ps.len() == 1 { assert(clean(ps[0], i, false, i, false)); }
}
proof fn lemma_clean_wrap(o: char, m: Seq<char>, c: char, i: int)
    requires i >= 0, (o == '[' && c == ']') || (o == '{' && c == '}'), clean(m, i + 1, false, i + 1, false)
    ensures clean(seq![o] + m + seq![c], i, false, i, false)
{
    lemma_clean_one(o, i, false);
    lemma_clean_one(c, i + 1, false);
    lemma_clean_cat(seq![o], m, i, false, i + 1, false, i + 1, false);
    lemma_clean_cat(seq![o] + m, seq![c], i, false, i + 1, false, i, false);
}
/// the first and last characters of a value are not whitespace
proof fn lemma_val_ends(s: Seq<char>, v: JV)
    requires g_val(s, v)
    ensures s.len() > 0, !ws(s[0]), !ws(s.last())
{
    lemma_lits();
    reveal_strlit("null"); reveal_strlit("true"); reveal_strlit("false");
    if v is Num { lemma_num_chars(s); }
}
/// a text of the grammar is parsed to what it denotes, and no separator of an enclosing array or object is found in it
proof fn lemma_text_fwd(n: nat, s: Seq<char>, v: JV, i: int)
    requires g_text_below(n, s, v), i >= 0
    ensures sp(s) == Some(v), clean(s, i, false, i, false)
    decreases s.len(), 1int
{
    let (a, b) = choose|a: int, b: int| 0 <= a <= b <= s.len() && all_ws(s.take(a)) && all_ws(s.skip(b)) && g_val(#[trigger] s.subrange(a, b), v);
    let m = s.subrange(a, b);
    lemma_val_ends(m, v);
    assert(m[0] == s[a] && m.last() == s[b - 1]);
    lemma_trim_mid(s, a, b);
    lemma_val_fwd(m, v, i);
    lemma_clean_ws(s.take(a), i);
    lemma_clean_ws(s.skip(b), i);
    lemma_clean_cat(s.take(a), m, i, false, i, false, i, false);
    lemma_clean_cat(s.take(a) + m, s.skip(b), i, false, i, false, i, false);
    assert(s.take(a) + m + s.skip(b) =~= s);
}
proof fn lemma_val_fwd(s: Seq<char>, v: JV, i: int)
    requires g_val(s, v), i >= 0
    ensures spt(s) == Some(v), clean(s, i, false, i, false)
    decreases s.len(), 0int
{
    lemma_val_ends(s, v);
    reveal_strlit("null"); reveal_strlit("true"); reveal_strlit("false");
    let l = s.len() as int;
    let m = s.subrange(1, l - 1);
    match v {
        JV::Null => { lemma_clean_plain(s, i); }
        JV::Bool(b) => { lemma_clean_plain(s, i); }
        JV::Num(f) => { theorem_number(s); lemma_num_chars(s); assert forall|x: int| 0 <= x < s.len() implies plain(#[trigger] s[x]) by { assert(num_char(s[x])); } lemma_clean_plain(s, i); }
        JV::Str(x) => {
            let e = Seq::<char>::empty();
            assert(s.skip(1) =~= m + seq!['"'] + e);
            lemma_chars(m, x, e, e);
            assert(e + x =~= x);
            lemma_clean_chars(m, x, i);
            lemma_clean_one('"', i, false);
            lemma_clean_one('"', i, true);
            lemma_clean_cat(seq!['"'], m, i, false, i, true, i, true);
            lemma_clean_cat(seq!['"'] + m, seq!['"'], i, false, i, true, i, false);
            assert(seq!['"'] + m + seq!['"'] =~= s);
        }
        JV::Arr(a) => {
            let e = Seq::<char>::empty();
            assert(s =~= seq!['['] + m + seq![']']);
            assert(s.skip(1) =~= m + seq![']']);
            if a.len() == 0 {
                lemma_clean_ws(m, 0);
                lemma_arr_clean(m, seq![']'], Seq::empty(), e, 0, false, 0, false);
                assert(e + m =~= m);
                assert(seq![']'].skip(1).len() == 0);
                assert(a =~= Seq::<JV>::empty());
                lemma_clean_ws(m, i + 1);
            } else {
                let ps = choose|ps: Seq<Seq<char>>| s.subrange(1, s.len() - 1) == #[trigger] commas(ps) && g_elems(s.len(), ps, a);
                assert forall|x: int| 0 <= x < ps.len() implies sp(#[trigger] ps[x]) == Some(a[x]) && clean(ps[x], 0, false, 0, false) && clean(ps[x], i + 1, false, i + 1, false) by {
                    assert(g_text_below(s.len(), ps[x], a[x]));
                    lemma_text_fwd(s.len(), ps[x], a[x], 0);
                    lemma_text_fwd(s.len(), ps[x], a[x], i + 1);
                }
                lemma_arr_fwd(ps, a, Seq::empty());
                assert(Seq::<JV>::empty() + a =~= a);
                lemma_clean_commas(ps, i + 1);
            }
            lemma_clean_wrap('[', m, ']', i);
        }
        JV::Obj(o) => {
            let e = Seq::<char>::empty();
            let z = Map::<Seq<char>, Seq<JV>>::empty();
            assert(s =~= seq!['{'] + m + seq!['}']);
            assert(s.skip(1) =~= m + seq!['}']);
            if o == z && all_ws(m) {
                lemma_clean_ws(m, 0);
                lemma_obj_clean(m, seq!['}'], z, e, e, true, 0, false, 0, false);
                assert(e + m =~= m);
                assert(seq!['}'].skip(1).len() == 0);
                lemma_clean_ws(m, i + 1);
            } else {
                let (ps, ks, vs) = choose|ps: Seq<Seq<char>>, ks: Seq<Seq<char>>, vs: Seq<JV>| s.subrange(1, s.len() - 1) == #[trigger] commas(ps) && g_members(s.len(), ps, ks, vs) && ps.len() >= 1 && o == #[trigger] append_all(Map::empty(), ks, vs);
                assert forall|x: int| 0 <= x < ps.len() implies member_fwd(#[trigger] ps[x], ks[x], vs[x]) && clean(ps[x], i + 1, false, i + 1, false) by {
                    assert(g_member(s.len(), ps[x], ks[x], vs[x]));
                    let q = ps[x];
                    let c = choose|c: int| 0 <= c < q.len() && q[c] == ':' && g_text_below(s.len(), #[trigger] q.take(c), JV::Str(ks[x])) && g_text_below(s.len(), q.skip(c + 1), vs[x]);
                    lemma_text_fwd(s.len(), q.take(c), JV::Str(ks[x]), 0);
                    lemma_text_fwd(s.len(), q.take(c), JV::Str(ks[x]), i + 1);
                    lemma_text_fwd(s.len(), q.skip(c + 1), vs[x], 0);
                    lemma_text_fwd(s.len(), q.skip(c + 1), vs[x], i + 1);
                    lemma_clean_one(':', i + 1, false);
                    lemma_clean_cat(q.take(c), seq![':'], i + 1, false, i + 1, false, i + 1, false);
                    lemma_clean_cat(q.take(c) + seq![':'], q.skip(c + 1), i + 1, false, i + 1, false, i + 1, false);
                    assert(q.take(c) + seq![':'] + q.skip(c + 1) =~= q);
                    assert(member_at(q, c, ks[x], vs[x]));
                }
                lemma_obj_fwd(ps, ks, vs, z);
                lemma_clean_commas(ps, i + 1);
            }
            lemma_clean_wrap('{', m, '}', i);
        }
    }
}
proof fn lemma_arr_fwd(ps: Seq<Seq<char>>, a: Seq<JV>, acc: Seq<JV>)
    requires ps.len() >= 1, ps.len() == a.len(), forall|x: int| 0 <= x < ps.len() ==> sp(#[trigger] ps[x]) == Some(a[x]) && clean(ps[x], 0, false, 0, false)
    ensures arr_k(commas(ps) + seq![']'], acc, Seq::empty(), 0, false) == Some(acc + a)
    decreases ps.len()
{
    let e = Seq::<char>::empty();
    let p = ps[0];
    assert(sp(p) == Some(a[0]) && clean(p, 0, false, 0, false));
    assert(e + p =~= p);
    if ps.len() == 1 {
        let r = seq![']'];
        lemma_arr_clean(p, r, acc, e, 0, false, 0, false);
        if all_ws(p) { lemma_sp_blank(p); }
        assert(r.skip(1).len() == 0);
        assert(acc + a =~= acc.push(a[0]));
    } else {
        let qs = ps.skip(1);
        let b = a.skip(1);
        assert forall|x: int| 0 <= x < qs.len() implies sp(#[trigger] qs[x]) == Some(b[x]) && clean(qs[x], 0, false, 0, false) by { assert(qs[x] == ps[x + 1]); }
        let r = seq![','] + commas(qs) + seq![']'];
        assert(commas(ps) + seq![']'] =~= p + r);
        lemma_arr_clean(p, r, acc, e, 0, false, 0, false);
        assert(r.skip(1) =~= commas(qs) + seq![']']);
        lemma_arr_fwd(qs, b, acc.push(a[0]));
        assert(acc.push(a[0]) + b =~= acc + a);
    }
}
pub open spec fn member_at(q: Seq<char>, c: int, k: Seq<char>, v: JV) -> bool {
    &&& 0 <= c < q.len() && q[c] == ':'
    &&& sp(q.take(c)) == Some(JV::Str(k)) && clean(q.take(c), 0, false, 0, false)
    &&& sp(q.skip(c + 1)) == Some(v) && clean(q.skip(c + 1), 0, false, 0, false)
}
pub open spec fn member_fwd(q: Seq<char>, k: Seq<char>, v: JV) -> bool { exists|c: int| #[trigger] member_at(q, c, k, v) }
proof fn lemma_obj_fwd(ps: Seq<Seq<char>>, ks: Seq<Seq<char>>, vs: Seq<JV>, acc: Map<Seq<char>, Seq<JV>>)
    requires ps.len() >= 1, ps.len() == ks.len(), ps.len() == vs.len(), forall|x: int| 0 <= x < ps.len() ==> member_fwd(#[trigger] ps[x], ks[x], vs[x])
    ensures obj_k(commas(ps) + seq!['}'], acc, Seq::empty(), Seq::empty(), true, 0, false) == Some(append_all(acc, ks, vs))
    decreases ps.len()
{
    let e = Seq::<char>::empty();
    let q = ps[0];
    assert(member_fwd(q, ks[0], vs[0]));
    let c = choose|c: int| #[trigger] member_at(q, c, ks[0], vs[0]);
    let k = q.take(c);
    let v = q.skip(c + 1);
    let qs = ps.skip(1);
    let r = if ps.len() == 1 { seq!['}'] } else { seq![','] + commas(qs) + seq!['}'] };
    let r2 = seq![':'] + v + r;
    assert(commas(ps) + seq!['}'] =~= k + r2);
    lemma_obj_clean(k, r2, acc, e, e, true, 0, false, 0, false);
    assert(e + k =~= k);
    assert(r2.skip(1) =~= v + r);
    lemma_obj_clean(v, r, acc, k, e, false, 0, false, 0, false);
    assert(e + v =~= v);
    if ps.len() == 1 {
        assert(r.skip(1).len() == 0);
        assert(append_all(acc, ks, vs) == append_all(obj_append(acc, ks[0], vs[0]), ks.skip(1), vs.skip(1)));
    } else {
        assert(r.skip(1) =~= commas(qs) + seq!['}']);
        assert forall|x: int| 0 <= x < qs.len() implies member_fwd(#[trigger] qs[x], ks.skip(1)[x], vs.skip(1)[x]) by { assert(qs[x] == ps[x + 1]); }
        lemma_obj_fwd(qs, ks.skip(1), vs.skip(1), obj_append(acc, ks[0], vs[0]));
    }
}
/// C01, C02: the texts accepted, and the values they get, are those of the grammar
pub proof fn theorem_parse(s: Seq<char>, v: JV)
    ensures sp(s) == Some(v) <==> json_text(s, v)
{
    if sp(s) == Some(v) { lemma_sp_back(s); }
    if json_text(s, v) { lemma_text_fwd(s.len() + 1, s, v, 0); }
}
} // verus!
}
