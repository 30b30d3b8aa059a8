// ------------------------------------------------------------------------------------------------
// vx_conv_laws: decoding what was encoded gives the contents back (C14), from the contracts of the impls
// ------------------------------------------------------------------------------------------------
pub mod vx_conv_laws {
use vstd::prelude::*;
use std::collections::HashMap;
use std::str::FromStr;
use std::hash::Hash;
use vstd::std_specs::hash::obeys_key_model;
use crate::vx_std::*;
use crate::vx_spec::*;
use crate::{Json, Error, ToJson, FromJson};
verus! {

/// decoding what `a` was encoded to succeeds and gives a value equal to `a`
pub open spec fn faithful<A: ToJson, T: FromJson>(eq: spec_fn(A, T) -> bool) -> bool {
    forall|a: A, v: JV, r: Result<T, Error>| #[trigger] a.enc(v) && #[trigger] T::dec(v, r) ==> (r matches Ok(t) && eq(a, t))
}
pub open spec fn eq_seq<A, T>(eq: spec_fn(A, T) -> bool, a: Seq<A>, t: Seq<T>) -> bool { a.len() == t.len() && forall|i: int| 0 <= i < a.len() ==> eq(#[trigger] a[i], t[i]) }

pub proof fn law_bool() ensures faithful::<bool, bool>(|a: bool, t: bool| a == t) {}
pub proof fn law_string() ensures faithful::<String, String>(|a: String, t: String| a@ == t@) {}
pub proof fn law_str<'a>() ensures faithful::<&'a str, String>(|a: &'a str, t: String| a@ == t@) {}
pub proof fn law_json() ensures faithful::<Json, Json>(|a: Json, t: Json| jv(a) == jv(t)) {}
proof fn law_seq<A: ToJson, T: FromJson>(eq: spec_fn(A, T) -> bool, s: Seq<A>, v: JV, r: Result<Vec<T>, Error>)
    requires faithful(eq), enc_seq(s, v), Vec::<T>::dec(v, r)
    ensures r matches Ok(t) && eq_seq(eq, s, t@)
{
    let a = v->Arr_0;
    match r {
        Ok(t) => { assert forall|i: int| 0 <= i < s.len() implies eq(#[trigger] s[i], t@[i]) by { assert(s[i].enc(a[i])); assert(T::dec(a[i], Ok(t@[i]))); } }
        Err(e) => { let i = choose|i: int| 0 <= i < a.len() && #[trigger] T::dec(a[i], Err(e)); assert(s[i].enc(a[i])); }
    }
}
pub proof fn law_vec<A: ToJson, T: FromJson>(eq: spec_fn(A, T) -> bool)
    requires faithful(eq)
    ensures faithful::<Vec<A>, Vec<T>>(|a: Vec<A>, t: Vec<T>| eq_seq(eq, a@, t@))
{
    assert forall|a: Vec<A>, v: JV, r: Result<Vec<T>, Error>| #[trigger] a.enc(v) && #[trigger] Vec::<T>::dec(v, r) implies (r matches Ok(t) && eq_seq(eq, a@, t@)) by { law_seq(eq, a@, v, r); }
}
pub proof fn law_slice<'a, A: ToJson, T: FromJson>(eq: spec_fn(A, T) -> bool)
    requires faithful(eq)
    ensures faithful::<&'a [A], Vec<T>>(|a: &'a [A], t: Vec<T>| eq_seq(eq, a@, t@))
{
    assert forall|a: &'a [A], v: JV, r: Result<Vec<T>, Error>| #[trigger] a.enc(v) && #[trigger] Vec::<T>::dec(v, r) implies (r matches Ok(t) && eq_seq(eq, a@, t@)) by { law_seq(eq, a@, v, r); }
}
/// an option, where no content encodes to null
pub proof fn law_option<A: ToJson, T: FromJson>(eq: spec_fn(A, T) -> bool)
    requires faithful(eq), forall|a: A| !#[trigger] a.enc(JV::Null)
    ensures faithful::<Option<A>, Option<T>>(|a: Option<A>, t: Option<T>| match a { Some(x) => t matches Some(y) && eq(x, y), None => t is None })
{
}
/// keys that read back as what they print as, and print differently from each other
pub open spec fn key_text<K: ToString + FromStr>() -> bool {
    forall|k: K, r: Result<K, K::Err>| #[trigger] K::from_str_spec(k.to_string_spec(), r) ==> r == Ok::<K, K::Err>(k)
}
proof fn pick<K: ToString, A: ToJson>(s: Map<K, A>, m: Map<Seq<char>, Seq<JV>>, t: Seq<char>) -> (r: (K, JV))
    requires enc_map(s, JV::Obj(m)), m.dom().contains(t)
    ensures s.dom().contains(r.0), r.0.to_string_spec() == t, m[t] == seq![r.1], s[r.0].enc(r.1)
{
    let v = JV::Obj(m);
    assert(v->Obj_0 == m);
    assert(exists|k: K, x: JV| s.dom().contains(k) && k.to_string_spec() == t && m[t] == seq![x] && #[trigger] s[k].enc(x));
    let (k, x) = choose|k: K, x: JV| s.dom().contains(k) && k.to_string_spec() == t && m[t] == seq![x] && #[trigger] s[k].enc(x);
    (k, x)
}
proof fn law_map_err<K: ToString + FromStr, A: ToJson, T: FromJson>(eq: spec_fn(A, T) -> bool, s: Map<K, A>, m: Map<Seq<char>, Seq<JV>>, e: Error)
    requires faithful(eq), key_text::<K>(), enc_map(s, JV::Obj(m)), dec_kv_err::<K, T>(m, e)
    ensures false
{
    if exists|k: Seq<char>| #[trigger] m.dom().contains(k) && bad_key::<K>(k) {
        let t = choose|k: Seq<char>| #[trigger] m.dom().contains(k) && bad_key::<K>(k);
        let (k, x) = pick(s, m, t);
        let f = choose|f: K::Err| #[trigger] K::from_str_spec(t, Err(f));
        assert(K::from_str_spec(k.to_string_spec(), Err(f)));
    } else {
        let t = choose|k: Seq<char>| #[trigger] m.dom().contains(k) && dec_seq_err::<T>(m[k], e);
        let (k, x) = pick(s, m, t);
        let i = choose|i: int| 0 <= i < m[t].len() && #[trigger] T::dec(m[t][i], Err(e));
        assert(m[t][i] == x);
    }
}
proof fn pick_in<K: ToString, A: ToJson>(s: Map<K, A>, m: Map<Seq<char>, Seq<JV>>, k: K)
    requires enc_map(s, JV::Obj(m)), s.dom().contains(k)
    ensures m.dom().contains(k.to_string_spec())
{
    let v = JV::Obj(m);
    assert(v->Obj_0 == m);
}
proof fn pick_from<K: FromStr, T: FromJson>(m: Map<Seq<char>, Seq<JV>>, t: Map<K, T>, k: K) -> (c: Seq<char>)
    requires dec_map(m, t), t.dom().contains(k)
    ensures m.dom().contains(c), K::from_str_spec(c, Ok(k)), T::dec(m[c].last(), Ok(t[k]))
{
    assert(exists|c: Seq<char>| m.dom().contains(c) && #[trigger] K::from_str_spec(c, Ok(k)) && T::dec(m[c].last(), Ok(t[k])));
    choose|c: Seq<char>| m.dom().contains(c) && #[trigger] K::from_str_spec(c, Ok(k)) && T::dec(m[c].last(), Ok(t[k]))
}
proof fn pick_to<K: FromStr, T: FromJson>(m: Map<Seq<char>, Seq<JV>>, t: Map<K, T>, c: Seq<char>) -> (k: K)
    requires dec_map(m, t), m.dom().contains(c)
    ensures t.dom().contains(k), K::from_str_spec(c, Ok(k))
{
    assert(exists|k: K| t.dom().contains(k) && #[trigger] K::from_str_spec(c, Ok(k)));
    choose|k: K| t.dom().contains(k) && #[trigger] K::from_str_spec(c, Ok(k))
}
proof fn law_map_ok<K: ToString + FromStr, A: ToJson, T: FromJson>(eq: spec_fn(A, T) -> bool, s: Map<K, A>, m: Map<Seq<char>, Seq<JV>>, t: Map<K, T>)
    requires faithful(eq), key_text::<K>(), enc_map(s, JV::Obj(m)), dec_map(m, t)
    ensures s.dom() == t.dom(), forall|k: K| s.dom().contains(k) ==> eq(#[trigger] s[k], t[k])
{
    hide(enc_map);
    hide(dec_map);
    assert forall|k: K| #[trigger] t.dom().contains(k) implies s.dom().contains(k) && eq(s[k], t[k]) by {
        let c = pick_from(m, t, k);
        let (k2, x) = pick(s, m, c);
        assert(K::from_str_spec(k2.to_string_spec(), Ok(k)));
        assert(m[c].last() == x);
    }
    assert forall|k: K| #[trigger] s.dom().contains(k) implies t.dom().contains(k) by {
        let c = k.to_string_spec();
        pick_in(s, m, k);
        let k2 = pick_to(m, t, c);
        assert(K::from_str_spec(k.to_string_spec(), Ok(k2)));
    }
    assert(s.dom() =~= t.dom());
    assert forall|k: K| s.dom().contains(k) implies eq(#[trigger] s[k], t[k]) by { assert(t.dom().contains(k)); }
}
pub proof fn law_map<K: ToString + FromStr + Hash + Eq, A: ToJson, T: FromJson>(eq: spec_fn(A, T) -> bool, a: HashMap<K, A>, v: JV, r: Result<HashMap<K, T>, Error>)
    requires faithful(eq), key_text::<K>(), obeys_key_model::<K>(), a.enc(v), HashMap::<K, T>::dec(v, r)
    ensures r matches Ok(t) && a@.dom() == t@.dom() && forall|k: K| a@.dom().contains(k) ==> eq(#[trigger] a@[k], t@[k])
{
    assert(enc_map(a@, v));
    match r {
        Err(e) => { law_map_err::<K, A, T>(eq, a@, v->Obj_0, e); }
        Ok(t) => { law_map_ok(eq, a@, v->Obj_0, t@); }
    }
}
} // verus!
}
