// ------------------------------------------------------------------------------------------------
// vx_path: paths into a document (C07-C10, C18, C19)
// ------------------------------------------------------------------------------------------------
pub mod vx_path {
use vstd::prelude::*;
use std::collections::LinkedList;
use vstd::std_specs::convert::{IntoSpec, FromSpec, FromSpecImpl};
use crate::vx_std::*;
use crate::vx_spec::*;
use crate::vx_lemmas::*;
use crate::{Json, Error, ErrorKind, Finder, Path};
use ErrorKind::*;
verus! {

pub ghost enum Step { Key(Seq<char>), Idx(int) }
pub open spec fn sv(f: Finder) -> Step { match f { Finder::Key(k) => Step::Key(k@), Finder::Index(i) => Step::Idx(i as int) } }
/// the steps of a path, from the root
pub open spec fn pv(p: Path) -> Seq<Step> decreases p {
    match p.next { None => seq![sv(p.finder)], Some(n) => seq![sv(p.finder)] + pv(*n) }
}

// ---- one step -----------------------------------------------------------------------------------
pub open spec fn step_get(v: JV, s: Step) -> Result<JV, ErrorKind> {
    match s {
        Step::Key(k) => match v {
            JV::Obj(m) => if m.dom().contains(k) { Ok(m[k].last()) } else { Err(MissingKey) },
            _ => Err(InvalidValueKind),
        },
        Step::Idx(i) => match v {
            JV::Arr(a) => if 0 <= i < a.len() { Ok(a[i]) } else { Err(IndexOutOfRange) },
            _ => Err(InvalidValueKind),
        },
    }
}
/// `v` with the element designated by an applicable step replaced
pub open spec fn step_put(v: JV, s: Step, w: JV) -> JV {
    match s {
        Step::Key(k) => match v { JV::Obj(m) => JV::Obj(m.insert(k, m[k].drop_last().push(w))), _ => v },
        Step::Idx(i) => match v { JV::Arr(a) => JV::Arr(a.update(i, w)), _ => v },
    }
}
pub open spec fn pad(a: Seq<JV>, n: int) -> Seq<JV> {
    if a.len() < n { a + Seq::new((n - a.len()) as nat, |i: int| JV::Null) } else { a }
}
/// `v` after storing `w` under the step, which creates the container it needs
pub open spec fn step_set(v: JV, s: Step, w: JV) -> JV {
    match s {
        Step::Key(k) => JV::Obj((match v { JV::Obj(m) => m, _ => Map::empty() }).insert(k, seq![w])),
        Step::Idx(i) => JV::Arr(pad(match v { JV::Arr(a) => a, _ => Seq::empty() }, i + 1).update(i, w)),
    }
}
pub open spec fn step_del(v: JV, s: Step) -> JV {
    match s {
        Step::Key(k) => match v { JV::Obj(m) => JV::Obj(m.remove(k)), _ => v },
        Step::Idx(i) => match v { JV::Arr(a) => JV::Arr(a.remove(i)), _ => v },
    }
}

// ---- paths --------------------------------------------------------------------------------------
pub open spec fn get_path(v: JV, p: Seq<Step>) -> Result<JV, ErrorKind> decreases p.len() {
    if p.len() == 0 { Ok(v) } else {
        match step_get(v, p[0]) { Ok(x) => get_path(x, p.skip(1)), Err(e) => Err(e) }
    }
}
pub open spec fn put_path(v: JV, p: Seq<Step>, w: JV) -> JV decreases p.len() {
    if p.len() == 0 { w } else {
        match step_get(v, p[0]) { Ok(x) => step_put(v, p[0], put_path(x, p.skip(1), w)), Err(_) => v }
    }
}
pub open spec fn set_path(v: JV, p: Seq<Step>, w: JV) -> JV decreases p.len() {
    if p.len() == 0 { w }
    else if p.len() == 1 { step_set(v, p[0], w) }
    else {
        match step_get(v, p[0]) {
            Ok(x) => step_put(v, p[0], set_path(x, p.skip(1), w)),
            Err(_) => step_set(v, p[0], set_path(JV::Null, p.skip(1), w)),
        }
    }
}
pub open spec fn del_path(v: JV, p: Seq<Step>) -> JV decreases p.len() {
    if p.len() == 0 { v }
    else if p.len() == 1 { step_del(v, p[0]) }
    else { match step_get(v, p[0]) { Ok(x) => step_put(v, p[0], del_path(x, p.skip(1))), Err(_) => v } }
}
/// some index on the path cannot be allocated
pub open spec fn path_no_room(p: Seq<Step>) -> bool { exists|j: int| 0 <= j < p.len() && step_no_room(#[trigger] p[j]) }
pub open spec fn step_no_room(s: Step) -> bool { s matches Step::Idx(i) && no_room(i + 1) }

/// marks the paths whose contents may be looked into (keeps the lemmas below from unfolding without end)
pub closed spec fn unf(p: Path) -> bool { true }
pub proof fn vx_unfold(p: Path) ensures unf(p) {}
pub broadcast proof fn lemma_pv_leaf(p: Path) requires p.next is None ensures #[trigger] pv(p) == seq![sv(p.finder)] {}
pub broadcast proof fn lemma_get_leaf(v: JV, s: Step) ensures #[trigger] get_path(v, seq![s]) == step_get(v, s) { assert(seq![s].skip(1).len() == 0); if let Ok(x) = step_get(v, s) { assert(get_path(x, seq![s].skip(1)) == Ok::<JV, ErrorKind>(x)); } }
pub broadcast proof fn lemma_put_leaf(v: JV, s: Step, w: JV) requires step_get(v, s) is Ok ensures #[trigger] put_path(v, seq![s], w) == step_put(v, s, w) { assert(seq![s].skip(1).len() == 0); if let Ok(x) = step_get(v, s) { assert(put_path(x, seq![s].skip(1), w) == w); } }
pub proof fn lemma_pv(p: Path)
    ensures
        #[trigger] pv(p).len() > 0, pv(p)[0] == sv(p.finder),
        p.next is None ==> pv(p) == seq![sv(p.finder)] && pv(p).skip(1) == Seq::<Step>::empty(),
        p.next matches Some(n) ==> pv(p).skip(1) == pv(*n) && pv(p).len() == pv(*n).len() + 1,
    decreases p
{
    assert(pv(p)[0] == sv(p.finder));
    match p.next { None => { assert(pv(p).skip(1) =~= Seq::<Step>::empty()); } Some(n) => { assert(pv(p).skip(1) =~= pv(*n)); lemma_pv(*n); } }
}
pub broadcast proof fn lemma_get_pv(v: JV, p: Path)
    ensures #![trigger get_path(v, pv(p)), unf(p)] get_path(v, pv(p)) == (match step_get(v, sv(p.finder)) {
        Ok(x) => match p.next { None => Ok(x), Some(n) => get_path(x, pv(*n)) },
        Err(e) => Err(e),
    })
{
    lemma_pv(p);
    if let Ok(x) = step_get(v, sv(p.finder)) { if p.next is None { assert(get_path(x, pv(p).skip(1)) == Ok::<JV, ErrorKind>(x)); } }
}
pub broadcast proof fn lemma_put_pv(v: JV, p: Path, w: JV)
    ensures #![trigger put_path(v, pv(p), w), unf(p)] put_path(v, pv(p), w) == (match step_get(v, sv(p.finder)) {
        Ok(x) => step_put(v, sv(p.finder), match p.next { None => w, Some(n) => put_path(x, pv(*n), w) }),
        Err(e) => v,
    })
{
    lemma_pv(p);
    if let Ok(x) = step_get(v, sv(p.finder)) { if p.next is None { assert(put_path(x, pv(p).skip(1), w) == w); } }
}
pub broadcast proof fn lemma_del_pv(v: JV, p: Path)
    ensures #![trigger del_path(v, pv(p)), unf(p)] del_path(v, pv(p)) == (match p.next {
        None => step_del(v, sv(p.finder)),
        Some(n) => match step_get(v, sv(p.finder)) { Ok(x) => step_put(v, sv(p.finder), del_path(x, pv(*n))), Err(_) => v },
    })
{
    lemma_pv(p);
    if let Some(n) = p.next { lemma_pv(*n); }
}
pub broadcast proof fn lemma_set_pv(v: JV, p: Path, w: JV)
    ensures #![trigger set_path(v, pv(p), w), unf(p)] set_path(v, pv(p), w) == (match p.next {
        None => step_set(v, sv(p.finder), w),
        Some(n) => match step_get(v, sv(p.finder)) {
            Ok(x) => step_put(v, sv(p.finder), set_path(x, pv(*n), w)),
            Err(_) => step_set(v, sv(p.finder), set_path(JV::Null, pv(*n), w)),
        },
    })
{
    lemma_pv(p);
    if let Some(n) = p.next { lemma_pv(*n); }
}
pub broadcast proof fn lemma_room_pv(p: Path)
    ensures #![trigger path_no_room(pv(p)), unf(p)] path_no_room(pv(p)) == (step_no_room(sv(p.finder)) || (p.next matches Some(n) && path_no_room(pv(*n))))
{
    lemma_pv(p);
    if let Some(n) = p.next {
        if path_no_room(pv(p)) && !step_no_room(sv(p.finder)) {
            let j = choose|j: int| 0 <= j < pv(p).len() && step_no_room(#[trigger] pv(p)[j]);
            assert(pv(*n)[j - 1] == pv(p)[j]);
        }
        if path_no_room(pv(*n)) {
            let j = choose|j: int| 0 <= j < pv(*n).len() && step_no_room(#[trigger] pv(*n)[j]);
            assert(pv(p)[j + 1] == pv(*n)[j]);
        }
    }
    if step_no_room(sv(p.finder)) { assert(step_no_room(pv(p)[0])); }
}
/// one step added at the end of a path
pub broadcast proof fn lemma_pv_push(a: Path, b: Path, x: Step)
    requires a.finder == b.finder, b.next matches Some(n) && pv(*n) == (match a.next { None => seq![x], Some(m) => pv(*m).push(x) })
    ensures #![trigger pv(b), pv(a).push(x)] pv(b) == pv(a).push(x)
{
    assert(pv(b) =~= pv(a).push(x));
}
pub broadcast proof fn lemma_jv_cases(j: Json)
    ensures match j { Json::Array(v) => #[trigger] jv(j) == JV::Arr(jarr(v@)), Json::Object(m) => jv(j) == JV::Obj(jmap(m@)), _ => true }
{
    match j { Json::Array(v) => { lemma_jv_array(v); } Json::Object(m) => { lemma_jv_object(m); } _ => {} }
}
pub broadcast proof fn lemma_remove_absent(m: Map<String, (Json, LinkedList<Json>)>, k: String)
    requires !m.dom().contains(k)
    ensures #[trigger] m.remove(k) == m
{
    assert(m.remove(k) =~= m);
}
pub broadcast proof fn lemma_put_same(j: Json, s: Step, x: JV)
    requires step_get(jv(j), s) == Ok::<JV, ErrorKind>(x)
    ensures #[trigger] step_put(jv(j), s, x) == jv(j)
{
    match j {
        Json::Object(m) => {
            lemma_jv_object(m);
            if let Step::Key(k) = s {
                let st = lemma_jmap_key(m@, k);
                lemma_jmap_at(m@, st);
                let a = ent(m@[st]);
                assert(a.drop_last().push(a.last()) =~= a);
                assert(jmap(m@).insert(k, a) =~= jmap(m@));
            }
        }
        Json::Array(v) => {
            lemma_jv_array(v);
            if let Step::Idx(i) = s { assert(jarr(v@).update(i, x) =~= jarr(v@)); }
        }
        _ => {}
    }
}
pub broadcast proof fn lemma_ent_set(e: (Json, LinkedList<Json>), f: (Json, LinkedList<Json>))
    requires e.1 == f.1
    ensures #![trigger ent(e), ent(f)] ent(f) == ent(e).drop_last().push(jv(f.0))
{
    assert(ent(f) =~= ent(e).drop_last().push(jv(f.0)));
}
pub broadcast proof fn lemma_ent_last(e: (Json, LinkedList<Json>))
    ensures #[trigger] ent(e).last() == jv(e.0), ent(e).len() > 0 {}
pub broadcast proof fn lemma_put_key(m: Map<Seq<char>, Seq<JV>>, k: Seq<char>, a: JV, b: JV)
    ensures #[trigger] step_put(JV::Obj(m.insert(k, seq![a])), Step::Key(k), b) == JV::Obj(m.insert(k, seq![b]))
{
    assert(seq![a].drop_last().push(b) =~= seq![b]);
    assert(m.insert(k, seq![a]).insert(k, seq![b]) =~= m.insert(k, seq![b]));
}
pub broadcast proof fn lemma_put_idx(p: Seq<JV>, i: int, a: JV, b: JV)
    requires 0 <= i < p.len()
    ensures #[trigger] step_put(JV::Arr(p.update(i, a)), Step::Idx(i), b) == JV::Arr(p.update(i, b))
{
    assert(p.update(i, a).update(i, b) =~= p.update(i, b));
}
/// a longer array whose new elements are null
pub broadcast proof fn lemma_pad(a: Seq<JV>, v: Seq<Json>, n: int)
    requires n == v.len(), a.len() <= n, forall|i: int| 0 <= i < a.len() ==> jv(#[trigger] v[i]) == a[i], forall|i: int| a.len() <= i < n ==> jv(#[trigger] v[i]) == JV::Null
    ensures #![trigger jarr(v), pad(a, n)] jarr(v) == pad(a, n)
{
    assert(jarr(v) =~= pad(a, n));
}
pub broadcast group group_vx_path { axiom_into_self,  lemma_remove_absent, lemma_jv_cases, lemma_put_same, lemma_room_pv, lemma_pv_push, lemma_pv_leaf, lemma_get_leaf, lemma_put_leaf, axiom_no_room, lemma_get_pv, lemma_put_pv, lemma_del_pv, lemma_set_pv, lemma_ent_set, lemma_ent_last, lemma_put_key, lemma_put_idx, lemma_pad, lemma_steps_push, lemma_prefixed_push }

// ---- path texts ---------------------------------------------------------------------------------
/// the step a segment denotes
pub open spec fn seg_step(t: Seq<char>) -> Option<Step> {
    if t.len() > 0 && t[0] == '#' { match usize_parse(t.skip(1)) { Some(i) => Some(Step::Idx(i as int)), None => None } }
    else if t.len() > 0 && t[0] == '\\' { Some(Step::Key(t.skip(1))) }
    else { Some(Step::Key(t)) }
}
/// `a` followed by `b`, if both exist
pub open spec fn prefixed(a: Seq<Step>, b: Option<Seq<Step>>) -> Option<Seq<Step>> { match b { Some(t) => Some(a + t), None => None } }
/// the steps of the rest `s` of a path text, `cur` being what the current segment has so far
pub open spec fn steps_from(s: Seq<char>, cur: Seq<char>) -> Option<Seq<Step>> decreases s.len() {
    if s.len() == 0 { match seg_step(cur) { Some(x) => Some(seq![x]), None => None } }
    else if s[0] == '.' { match seg_step(cur) { Some(x) => prefixed(seq![x], steps_from(s.skip(1), Seq::empty())), None => None } }
    else if s[0] == '\\' && s.len() > 1 && s[1] == '.' { steps_from(s.skip(2), cur.push('.')) }
    else { steps_from(s.skip(1), cur.push(s[0])) }
}
pub open spec fn path_steps(s: Seq<char>) -> Option<Seq<Step>> { steps_from(s, Seq::empty()) }
/// the steps a path text denotes; a text without steps is not a path
pub open spec fn opt_path(s: Seq<char>) -> Option<Seq<Step>> { if s.len() == 0 { None } else { path_steps(s) } }
pub open spec fn steps_of(v: Seq<Finder>) -> Seq<Step> { v.map_values(|f: Finder| sv(f)) }
pub broadcast proof fn lemma_steps_push(v: Seq<Finder>, f: Finder) ensures #[trigger] steps_of(v.push(f)) == steps_of(v).push(sv(f)) {
    assert(steps_of(v.push(f)) =~= steps_of(v).push(sv(f)));
}
pub broadcast proof fn lemma_prefixed_push(a: Seq<Step>, x: Step, b: Option<Seq<Step>>)
    ensures #[trigger] prefixed(a.push(x), b) == prefixed(a, prefixed(seq![x], b))
{
    if let Some(t) = b { assert(a.push(x) + t =~= a + (seq![x] + t)); }
}

// ---- conversions into steps and paths -----------------------------------------------------------
/// `x` may be the result of `f.into()`
pub open spec fn into_as<F: Into<T>, T>(f: F, x: T) -> bool { <F as IntoSpec<T>>::obeys_into_spec() ==> x == f.into_spec() }
/// `From<T> for T` is the identity
#[verifier::external_body]
pub broadcast proof fn axiom_into_self<T>(f: T, x: T) ensures #[trigger] into_as::<T, T>(f, x) <==> x == f {}
pub trait VxInto<T> { fn vx_into(self) -> (r: T) where Self: Sized + Into<T> ensures into_as(self, r); }
impl<S, T> VxInto<T> for S { fn vx_into(self) -> (r: T) where S: Into<T> { self.into() } }
impl FromSpecImpl<String> for Finder {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(s: String) -> Finder { Finder::Key(s) }
}
impl FromSpecImpl<&String> for Finder {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(s: &String) -> Finder { Finder::Key(*s) }
}
impl FromSpecImpl<&str> for Finder {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(s: &str) -> Finder { Finder::Key(string_of(s@)) }
}
impl FromSpecImpl<usize> for Finder {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(i: usize) -> Finder { Finder::Index(i) }
}
impl FromSpecImpl<&usize> for Finder {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(i: &usize) -> Finder { Finder::Index(*i) }
}
impl<F: Into<Finder>> FromSpecImpl<F> for Path {
    open spec fn obeys_from_spec() -> bool { <F as IntoSpec<Finder>>::obeys_into_spec() }
    open spec fn from_spec(f: F) -> Path { Path { finder: f.into_spec(), next: None } }
}

// ---- index operators: a panic is an unmet `panics_allowed` ----------------------------------------
pub open spec fn index_ok<T: Into<Finder>>(j: Json, index: T) -> bool {
    forall|x: Finder| #[trigger] into_as(index, x) ==> step_get(jv(j), sv(x)) is Ok
}
pub trait VxIndex<T: Into<Finder>> {
    spec fn vx_j(&self) -> Json;
    fn index(&self, index: T) -> (r: &Json)
        requires index_ok(self.vx_j(), index) || panics_allowed(),
        ensures exists|x: Finder| #[trigger] into_as(index, x) && step_get(jv(self.vx_j()), sv(x)) == Ok::<JV, ErrorKind>(jv(*r));
}
pub trait VxIndexMut<T: Into<Finder>> {
    spec fn vx_jm(&self) -> Json;
    fn index_mut(&mut self, index: T) -> (r: &mut Json)
        requires index_ok(old(self).vx_jm(), index) || panics_allowed(),
        ensures exists|x: Finder| #[trigger] into_as(index, x)
            && step_get(jv(old(self).vx_jm()), sv(x)) == Ok::<JV, ErrorKind>(jv(*r))
            && jv(final(self).vx_jm()) == step_put(jv(old(self).vx_jm()), sv(x), jv(*final(r)));
}

} // verus!
}
