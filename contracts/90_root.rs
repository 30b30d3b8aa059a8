use vx_std::*;
use vx_spec::*;
use vx_lemmas::*;
use vx_path::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::hash::*;
use vstd::float::float_cast_spec;
verus!{
broadcast use {vstd::std_specs::control_flow::spec_from_blanket_identity, group_vx_std, group_vx, group_vx_path, vstd::std_specs::hash::group_hash_axioms};
//@if-derived Clone
impl Clone for Json {
    /// derived Clone: structural copy (assumed)
    #[verifier::external_body]
    fn clone(&self) -> (r: Json) ensures jv(r) == jv(*self) { unimplemented!() }
}
//@end
//@if-derived PartialEq
/// derived PartialEq: structural, down to the (unspecified) comparison of numbers and containers (assumed)
pub open spec fn json_eq(a: JV, b: JV) -> bool {
    match (a, b) {
        (JV::Null, JV::Null) => true,
        (JV::Bool(x), JV::Bool(y)) => x == y,
        (JV::Str(x), JV::Str(y)) => x == y,
        (JV::Num(_), JV::Num(_)) | (JV::Arr(_), JV::Arr(_)) | (JV::Obj(_), JV::Obj(_)) => json_deep_eq(a, b),
        _ => false,
    }
}
pub uninterp spec fn json_deep_eq(a: JV, b: JV) -> bool;
impl vstd::std_specs::cmp::PartialEqSpecImpl for Json {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Json) -> bool { json_eq(jv(*self), jv(*other)) }
}
impl PartialEq for Json {
    #[verifier::external_body]
    fn eq(&self, other: &Json) -> bool { unimplemented!() }
}
//@end
impl FromStrSpecImpl for Json {
    open spec fn from_str_spec(s: Seq<char>, r: Result<Self, Error>) -> bool { agrees(r, sp(s)) }
}
/// must be rejected: if `false` were provable here, the axioms would be inconsistent
proof fn vx_canary(a: String, b: &str, m: Map<String, int>, h: HashMap<String, (Json, LinkedList<Json>)>, j: Json, c: std::str::Chars<'static>, f: f64) {
    let w = m.insert(a, 1).remove(a);
    lemma_jv_object(h);
    axiom_string_ext(a, a);
    axiom_str_ext(b, b);
    axiom_str_len(b);
    if f64_finite(f) { axiom_f64_roundtrip(f); }
    assert(string_of(b@)@ == b@);
    assert(disp::<str>(b) == b@);
    assert(!contains_borrowed_key(w, b) || contains_borrowed_key(w, b));
    assert(jv(j) == jv(j));
    assert(obeys_key_model::<String>());
    assert(false); // vx_canary
}
}
