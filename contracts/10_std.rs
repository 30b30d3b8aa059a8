// ------------------------------------------------------------------------------------------------
// vx_std: specifications ASSUMED for the standard library (nothing here is proved).
// ------------------------------------------------------------------------------------------------
pub mod vx_std {
use vstd::prelude::*;
use std::collections::{HashMap, LinkedList};
use std::iter::Peekable;
use std::str::FromStr;
use std::cmp::Ordering;
use vstd::std_specs::hash::*;
use vstd::string::StringSliceAdditionalSpecFns;
verus! {

// ---- Peekable -----------------------------------------------------------------------------------
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
pub struct ExPeekable<I: Iterator>(Peekable<I>);

/// the items a peekable iterator has still to yield
pub uninterp spec fn rem<I: Iterator>(p: &Peekable<I>) -> Seq<I::Item>;

pub assume_specification<I: Iterator>[ <Peekable<I> as Iterator>::next ](p: &mut Peekable<I>) -> (r: Option<I::Item>)
    ensures
        rem(old(p)).len() == 0 ==> r is None && rem(final(p)) == rem(old(p)),
        rem(old(p)).len() > 0 ==> r == Some(rem(old(p))[0]) && rem(final(p)) == rem(old(p)).skip(1);

pub assume_specification<I: Iterator>[ Peekable::<I>::peek ](p: &mut Peekable<I>) -> (r: Option<&I::Item>)
    ensures
        rem(final(p)) == rem(old(p)),
        rem(old(p)).len() == 0 ==> r is None,
        rem(old(p)).len() > 0 ==> (r matches Some(x) && *x == rem(old(p))[0]);

/// `.peekable()` and `.nth()` are provided trait methods, which cannot be given a specification directly
pub trait VxIter: Iterator + Sized {
    fn vx_peekable(self) -> (r: Peekable<Self>)
        ensures rem(&r) == vstd::std_specs::iter::IteratorSpec::remaining(&self);
    fn vx_collect<C: VxFrom<Self::Item>>(self) -> (r: C)
        ensures vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&self)
            ==> r.vx_items() == vstd::std_specs::iter::IteratorSpec::remaining(&self);
}
/// collections with the items of an iterator, in order
pub trait VxFrom<T>: Sized + FromIterator<T> { spec fn vx_items(&self) -> Seq<T>; }
impl<T> VxFrom<T> for Vec<T> { open spec fn vx_items(&self) -> Seq<T> { self@ } }
impl VxFrom<char> for String { open spec fn vx_items(&self) -> Seq<char> { self@ } }
impl<I: Iterator> VxIter for I {
    #[verifier::external_body]
    fn vx_peekable(self) -> (r: Peekable<Self>) { self.peekable() }
    #[verifier::external_body]
    fn vx_collect<C: VxFrom<Self::Item>>(self) -> (r: C) { self.collect::<C>() }
}
pub trait VxPeek<T> {
    spec fn vx_rem(&self) -> Seq<T>;
    fn vx_nth(&mut self, n: usize) -> (r: Option<T>)
        ensures
            old(self).vx_rem().len() > n ==> r == Some(old(self).vx_rem()[n as int]) && final(self).vx_rem() == old(self).vx_rem().skip(n + 1),
            old(self).vx_rem().len() <= n ==> r is None && final(self).vx_rem().len() == 0;
}
impl<I: Iterator> VxPeek<I::Item> for Peekable<I> {
    open spec fn vx_rem(&self) -> Seq<I::Item> { rem(self) }
    #[verifier::external_body]
    fn vx_nth(&mut self, n: usize) -> (r: Option<I::Item>) { self.nth(n) }
}

/// the items an iterator variable has still to yield, whatever its type
pub trait VxLeft<T> { spec fn left(&self) -> Seq<T>; }
impl<I: Iterator> VxLeft<I::Item> for Peekable<I> { open spec fn left(&self) -> Seq<I::Item> { rem(self) } }
/// what a character iterator has still to yield is determined by its state (vstd only has a prophetic form)
pub uninterp spec fn chars_left<'a>(c: &std::str::Chars<'a>) -> Seq<char>;
pub uninterp spec fn skip_left<'a>(c: &std::iter::Skip<std::str::Chars<'a>>) -> Seq<char>;
#[verifier::external_body]
pub broadcast proof fn axiom_chars_left<'a>(c: &std::str::Chars<'a>)
    ensures #[trigger] vstd::std_specs::iter::IteratorSpec::remaining(c) == chars_left(c) {}
#[verifier::external_body]
pub broadcast proof fn axiom_skip_left<'a>(c: &std::iter::Skip<std::str::Chars<'a>>)
    ensures #[trigger] vstd::std_specs::iter::IteratorSpec::remaining(c) == skip_left(c) {}
impl<'a> VxLeft<char> for std::str::Chars<'a> { open spec fn left(&self) -> Seq<char> { chars_left(self) } }
impl<'a> VxLeft<char> for std::iter::Skip<std::str::Chars<'a>> { open spec fn left(&self) -> Seq<char> { skip_left(self) } }

// ---- str / String -------------------------------------------------------------------------------
pub assume_specification [std::string::String::with_capacity] (_0: usize) -> (r: std::string::String)
    ensures r@ == Seq::<char>::empty();

/// equal characters, equal text (strings have no other content)
#[verifier::external_body]
pub proof fn axiom_str_ext(a: &str, b: &str) ensures a@ == b@ ==> a == b {}
#[verifier::external_body]
pub proof fn axiom_string_ext(a: String, b: String) ensures a@ == b@ ==> a == b {}
/// an allocation never exceeds isize::MAX bytes, so a text has at most that many characters
#[verifier::external_body]
pub proof fn axiom_str_len(a: &str) ensures a@.len() <= isize::MAX {}

#[verifier::external_body]
pub broadcast proof fn axiom_str_bytes(a: &str) ensures #[trigger] a.spec_bytes().len() <= isize::MAX {}

#[verifier::external_trait_specification]
#[verifier::external_trait_extension(FromStrSpec via FromStrSpecImpl)]
pub trait ExFromStr: Sized {
    type ExternalTraitSpecificationFor: FromStr;
    type Err;
    spec fn from_str_spec(s: Seq<char>, r: Result<Self, Self::Err>) -> bool;
    fn from_str(s: &str) -> (r: Result<Self, Self::Err>)
        ensures Self::from_str_spec(s@, r);
}

#[verifier::external_trait_specification]
#[verifier::external_trait_extension(ToStringSpec via ToStringSpecImpl)]
pub trait ExToString {
    type ExternalTraitSpecificationFor: ToString;
    spec fn to_string_spec(&self) -> Seq<char>;
    fn to_string(&self) -> (r: String)
        ensures r@ == self.to_string_spec();
}
pub uninterp spec fn disp<T: std::fmt::Display + ?Sized>(t: &T) -> Seq<char>;
impl<T: std::fmt::Display + ?Sized> ToStringSpecImpl for T {
    open spec fn to_string_spec(&self) -> Seq<char> { disp::<T>(self) }
}
#[verifier::external_body]
pub broadcast proof fn axiom_disp<T: std::fmt::Display + ?Sized>(t: &T, r: String)
    requires #[trigger] vstd::string::to_string_from_display_ensures::<T>(t, r)
    ensures r@ == disp::<T>(t) {}
#[verifier::external_body]
pub broadcast proof fn axiom_disp_bool(t: &bool) ensures #[trigger] disp::<bool>(t) == (if *t { "true"@ } else { "false"@ }) {}
#[verifier::external_body]
pub broadcast proof fn axiom_disp_string(t: &String) ensures #[trigger] disp::<String>(t) == t@ {}
#[verifier::external_body]
pub broadcast proof fn axiom_disp_str(t: &str) ensures #[trigger] disp::<str>(t) == t@ {}
#[verifier::external_body]
pub broadcast proof fn axiom_disp_ref<T: std::fmt::Display + ?Sized>(t: &&T) ensures #[trigger] disp::<&T>(t) == disp::<T>(*t) {}
#[verifier::external_body]
pub broadcast proof fn axiom_disp_f64(t: &f64) ensures #[trigger] disp::<f64>(t) == f64_display(*t) {}

// f64 <-> text: uninterpreted; see vx_spec for the axioms relating the two
pub uninterp spec fn f64_display(f: f64) -> Seq<char>;
pub uninterp spec fn f64_parse(s: Seq<char>) -> Option<f64>;
pub uninterp spec fn f64_finite(f: f64) -> bool;
pub assume_specification [f64::is_finite] (f: f64) -> (r: bool) ensures r == f64_finite(f);

pub trait VxParse: Sized {
    spec fn vx_parse_spec(s: Seq<char>) -> Option<Self>;
    fn vx_parse_str(s: &str) -> (r: Result<Self, ()>)
        ensures match r { Ok(v) => Self::vx_parse_spec(s@) == Some(v), Err(_) => Self::vx_parse_spec(s@) is None };
}
impl VxParse for f64 {
    open spec fn vx_parse_spec(s: Seq<char>) -> Option<f64> { f64_parse(s) }
    #[verifier::external_body]
    fn vx_parse_str(s: &str) -> (r: Result<Self, ()>) { s.parse::<f64>().map_err(|_| ()) }
}
pub open spec fn digits_value(s: Seq<char>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { digits_value(s.drop_last()) * 10 + (s.last() as int - '0' as int) }
}
/// `str::parse::<usize>`: an optional `+`, then one or more decimal digits, value at most usize::MAX
pub open spec fn usize_parse(s: Seq<char>) -> Option<usize> {
    let d = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
    if d.len() > 0 && (forall|i: int| 0 <= i < d.len() ==> '0' <= #[trigger] d[i] <= '9') && digits_value(d) <= usize::MAX {
        Some(digits_value(d) as usize)
    } else {
        None
    }
}
impl VxParse for usize {
    open spec fn vx_parse_spec(s: Seq<char>) -> Option<usize> { usize_parse(s) }
    #[verifier::external_body]
    fn vx_parse_str(s: &str) -> (r: Result<Self, ()>) { s.parse::<usize>().map_err(|_| ()) }
}

/// `r` is `s` without the leading and trailing characters accepted by `p`
pub open spec fn trimmed<P: Fn(char) -> bool>(s: Seq<char>, p: P, r: Seq<char>) -> bool {
    exists|a: int, b: int| 0 <= a <= b <= s.len() && r == #[trigger] s.subrange(a, b)
        && (forall|i: int| 0 <= i < a ==> p.ensures((#[trigger] s[i],), true))
        && (forall|i: int| b <= i < s.len() ==> p.ensures((#[trigger] s[i],), true))
        && (a < b ==> p.ensures((s[a],), false) && p.ensures((s[b - 1],), false))
}
#[verifier::external_body]
pub fn vx_trim<'a, P: Fn(char) -> bool>(s: &'a str, p: &P) -> (r: &'a str)
    requires forall|c: char| p.requires((c,)),
    ensures trimmed(s@, *p, r@)
{ s.trim_matches(p) }
pub trait VxStr {
    spec fn vsq(&self) -> Seq<char>;
    fn vx_trim_matches<P: Fn(char) -> bool>(&self, p: P) -> (r: &str)
        requires forall|c: char| p.requires((c,)),
        ensures trimmed(self.vsq(), p, r@),
            // consequence, proved below
            (forall|c: char, b: bool| p.ensures((c,), b) ==> b == crate::vx_spec::ws(c)) ==> r@ == crate::vx_spec::trim(self.vsq());
    fn vx_parse<F: VxParse>(&self) -> (r: Result<F, ()>)
        ensures match r { Ok(v) => F::vx_parse_spec(self.vsq()) == Some(v), Err(_) => F::vx_parse_spec(self.vsq()) is None };
    fn vx_starts_with(&self, c: char) -> (r: bool)
        ensures r == (self.vsq().len() > 0 && self.vsq()[0] == c);
}
impl VxStr for str {
    open spec fn vsq(&self) -> Seq<char> { self@ }
    fn vx_trim_matches<P: Fn(char) -> bool>(&self, p: P) -> (r: &str) {
        let r = vx_trim(self, &p);
        proof { if forall|c: char, b: bool| p.ensures((c,), b) ==> b == crate::vx_spec::ws(c) { crate::vx_lemmas::lemma_trimmed(self@, p, r@); } }
        r
    }
    #[verifier::external_body]
    fn vx_parse<F: VxParse>(&self) -> (r: Result<F, ()>) { F::vx_parse_str(self) }
    #[verifier::external_body]
    fn vx_starts_with(&self, c: char) -> (r: bool) { self.starts_with(c) }
}
/// `s.index(n..)` on a string; only needed (and only allowed) after an ASCII prefix of n characters
#[verifier::external_body]
pub fn vx_str_from<'a>(s: &'a String, n: usize) -> (r: &'a str)
    requires n <= s@.len(), forall|i: int| 0 <= i < n ==> (#[trigger] s@[i] as int) < 128,
    ensures r@ == s@.skip(n as int)
{ &s[n..] }

// UTF-8, by value ranges
pub open spec fn utf8_1(u: int) -> Seq<u8> {
    if u < 0x80 { seq![u as u8] }
    else if u < 0x800 { seq![(0xC0 + u / 64) as u8, (0x80 + u % 64) as u8] }
    else if u < 0x10000 { seq![(0xE0 + u / 4096) as u8, (0x80 + u / 64 % 64) as u8, (0x80 + u % 64) as u8] }
    else { seq![(0xF0 + u / 262144) as u8, (0x80 + u / 4096 % 64) as u8, (0x80 + u / 64 % 64) as u8, (0x80 + u % 64) as u8] }
}
pub open spec fn utf8(t: Seq<char>) -> Seq<u8> decreases t.len() {
    if t.len() == 0 { Seq::empty() } else { utf8_1(t[0] as int) + utf8(t.skip(1)) }
}
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(std::str::Utf8Error);
pub assume_specification<'a> [std::str::from_utf8] (v: &'a [u8]) -> (r: Result<&'a str, std::str::Utf8Error>)
    ensures match r {
        Ok(t) => utf8(t@) == v@,
        Err(_) => forall|t: Seq<char>| #[trigger] utf8(t) != v@,
    };

// ---- LinkedList ---------------------------------------------------------------------------------
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
#[verifier::reject_recursive_types(A)]
pub struct ExLinkedList<T, A: std::alloc::Allocator>(LinkedList<T, A>);

/// contents, front first
pub uninterp spec fn ll<T, A: std::alloc::Allocator>(p: &LinkedList<T, A>) -> Seq<T>;
#[verifier::external_body]
pub proof fn axiom_ll_decreases<T, A: std::alloc::Allocator>(l: LinkedList<T, A>, i: int)
    requires 0 <= i < ll(&l).len()
    ensures decreases_to!(l => ll(&l)[i]) {}
pub assume_specification<T> [LinkedList::<T>::new] () -> (r: LinkedList<T>)
    ensures ll(&r) == Seq::<T>::empty();
pub assume_specification<T, A: std::alloc::Allocator> [LinkedList::<T, A>::len] (l: &LinkedList<T, A>) -> (r: usize)
    ensures r == ll(l).len(), r < usize::MAX;
pub assume_specification<T, A: std::alloc::Allocator> [LinkedList::<T, A>::push_front] (l: &mut LinkedList<T, A>, x: T)
    ensures ll(final(l)) == seq![x] + ll(old(l));

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct ExLinkedListIter<'a, T: 'a>(std::collections::linked_list::Iter<'a, T>);
pub assume_specification<'a, T, A: std::alloc::Allocator> [LinkedList::<T, A>::iter] (l: &'a LinkedList<T, A>) -> (r: std::collections::linked_list::Iter<'a, T>)
    ensures
        vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r),
        vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some,
        vstd::std_specs::iter::IteratorSpec::remaining(&r) == Seq::new(ll(l).len(), |i: int| &ll(l)[i]);

/// `.rev()`: the remaining items in reverse order (as an iterator over a vector of them: with `Rev<linked_list::Iter>`
/// the verifier loses the trait bounds it needs)
pub trait VxRev: DoubleEndedIterator + Sized {
    fn vx_rev(self) -> (r: std::vec::IntoIter<Self::Item>)
        requires vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&self), vstd::std_specs::iter::IteratorSpec::decrease(&self) is Some,
        ensures
            vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r),
            vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some,
            vstd::std_specs::iter::IteratorSpec::remaining(&r) == vstd::std_specs::iter::IteratorSpec::remaining(&self).reverse();
}
impl<I: DoubleEndedIterator> VxRev for I {
    #[verifier::external_body]
    fn vx_rev(self) -> (r: std::vec::IntoIter<Self::Item>) { self.rev().collect::<Vec<_>>().into_iter() }
}
#[verifier::external_body]
pub broadcast proof fn axiom_ll_iter<'a, T>(i: std::collections::linked_list::Iter<'a, T>)
    ensures #[trigger] vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&i) {}

// ---- Vec ----------------------------------------------------------------------------------------
pub open spec fn join(parts: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases parts.len() {
    if parts.len() == 0 { Seq::empty() }
    else if parts.len() == 1 { parts[0] }
    else { join(parts.drop_last(), sep) + sep + parts.last() }
}
/// order of texts by code points
pub open spec fn str_lt(a: Seq<char>, b: Seq<char>) -> bool decreases a.len() {
    if b.len() == 0 { false }
    else if a.len() == 0 { true }
    else if a[0] != b[0] { (a[0] as int) < (b[0] as int) }
    else { str_lt(a.skip(1), b.skip(1)) }
}
pub open spec fn str_ord(a: Seq<char>, b: Seq<char>) -> Ordering {
    if a == b { Ordering::Equal } else if str_lt(a, b) { Ordering::Less } else { Ordering::Greater }
}
pub trait VxCmp { spec fn vx_c(&self) -> Seq<char>; fn vx_cmp(&self, o: &Self) -> (r: Ordering) ensures r == str_ord(self.vx_c(), o.vx_c()); }
impl VxCmp for String {
    open spec fn vx_c(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_cmp(&self, o: &Self) -> (r: Ordering) { self.cmp(o) }
}
impl<'a> VxCmp for &'a String {
    open spec fn vx_c(&self) -> Seq<char> { (*self)@ }
    #[verifier::external_body]
    fn vx_cmp(&self, o: &Self) -> (r: Ordering) { self.cmp(o) }
}
impl VxCmp for str {
    open spec fn vx_c(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_cmp(&self, o: &Self) -> (r: Ordering) { self.cmp(o) }
}
/// `cmp` decides a total order
pub open spec fn total<T, F: FnMut(&T, &T) -> Ordering>(f: F) -> bool {
    &&& forall|a: T, b: T| #[trigger] f.requires((&a, &b))
    &&& forall|a: T, b: T, o: Ordering, p: Ordering| #[trigger] f.ensures((&a, &b), o) && #[trigger] f.ensures((&b, &a), p) ==> (o is Less <==> p is Greater)
    &&& forall|a: T, b: T, c: T, o: Ordering, p: Ordering, q: Ordering| #[trigger] f.ensures((&a, &b), o) && #[trigger] f.ensures((&b, &c), p) && #[trigger] f.ensures((&a, &c), q)
        && !(o is Greater) && !(p is Greater) ==> !(q is Greater)
}
pub open spec fn le_by<T, F: FnMut(&T, &T) -> Ordering>(f: F, a: T, b: T) -> bool { exists|o: Ordering| #[trigger] f.ensures((&a, &b), o) && !(o is Greater) }
pub trait VxVec<T> {
    spec fn vx_v(&self) -> Seq<T>;
    fn vx_sort_by<F: FnMut(&T, &T) -> Ordering>(&mut self, f: F)
        requires total::<T, F>(f),
        ensures
            final(self).vx_v().len() == old(self).vx_v().len(),
            forall|x: T| #[trigger] final(self).vx_v().contains(x) <==> old(self).vx_v().contains(x),
            old(self).vx_v().no_duplicates() ==> final(self).vx_v().no_duplicates(),
            forall|i: int, j: int| 0 <= i < j < final(self).vx_v().len()
                ==> le_by(f, #[trigger] final(self).vx_v()[i], #[trigger] final(self).vx_v()[j]);
    fn vx_reverse(&mut self)
        ensures final(self).vx_v() == old(self).vx_v().reverse();
    fn vx_extend<I: Iterator<Item = T>>(&mut self, it: I)
        ensures vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&it)
            ==> final(self).vx_v() == old(self).vx_v() + vstd::std_specs::iter::IteratorSpec::remaining(&it);
}
impl<T> VxVec<T> for Vec<T> {
    open spec fn vx_v(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_sort_by<F: FnMut(&T, &T) -> Ordering>(&mut self, f: F) { self.sort_by(f) }
    #[verifier::external_body]
    fn vx_reverse(&mut self) { self.reverse() }
    #[verifier::external_body]
    fn vx_extend<I: Iterator<Item = T>>(&mut self, it: I) { self.extend(it) }
}
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub broadcast proof fn lemma_texts_push(v: Seq<String>, s: String) ensures #[trigger] texts(v.push(s)) == texts(v).push(s@) {
    assert(texts(v.push(s)) =~= texts(v).push(s@));
}
pub trait VxJoin {
    spec fn vx_parts(&self) -> Seq<Seq<char>>;
    fn vx_join(&self, sep: &str) -> (r: String)
        ensures r@ == join(self.vx_parts(), sep@);
}
impl VxJoin for Vec<String> {
    open spec fn vx_parts(&self) -> Seq<Seq<char>> { texts(self@) }
    #[verifier::external_body]
    fn vx_join(&self, sep: &str) -> (r: String) { self.join(sep) }
}

// ---- HashMap ------------------------------------------------------------------------------------
pub assume_specification<'a, K, V, S, A, Q> [std::collections::HashMap::<K, V, S, A>::get_mut] (m: &'a mut std::collections::HashMap<K, V, S, A>, k: &Q) -> (r: std::option::Option<&'a mut V>)
    where
        A: std::alloc::Allocator,
        K: std::cmp::Eq + std::hash::Hash + std::borrow::Borrow<Q>,
        Q: std::marker::MetaSized + std::hash::Hash + std::cmp::Eq + ?Sized,
        S: std::hash::BuildHasher
    ensures
        obeys_key_model::<K>() && builds_valid_hashers::<S>() ==> match r {
            Some(v) => maps_borrowed_key_to_value(old(m)@, k, *v)
                && borrowed_key_updated(old(m)@, final(m)@, k, *final(v)),
            None => !contains_borrowed_key(old(m)@, k) && final(m)@ == old(m)@,
        };
pub assume_specification<'a, K, V, S, A: std::alloc::Allocator> [<&'a std::collections::HashMap<K, V, S, A> as IntoIterator>::into_iter] (m: &'a std::collections::HashMap<K, V, S, A>) -> (r: std::collections::hash_map::Iter<'a, K, V>)
    ensures
        vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some,
        obeys_key_model::<K>() && builds_valid_hashers::<S>() ==> {
            let s = vstd::std_specs::iter::IteratorSpec::remaining(&r);
            &&& s.len() == m@.dom().len()
            &&& forall|i: int| 0 <= i < s.len() ==> m@.dom().contains(*(#[trigger] s[i]).0) && m@[*s[i].0] == *s[i].1
            &&& forall|k: K| #[trigger] m@.dom().contains(k) ==> s.contains((&k, &m@[k]))
            &&& s.no_duplicates()
        };
/// a map iterator is finite
#[verifier::external_body]
pub broadcast proof fn axiom_hm_iter<'a, K, V>(i: std::collections::hash_map::Iter<'a, K, V>)
    ensures #[trigger] vstd::std_specs::iter::IteratorSpec::decrease(&i) is Some {}
/// `b` is `a` with the value at the key equal to `k` replaced by `v`
pub uninterp spec fn borrowed_key_updated<K, V, Q: ?Sized>(a: Map<K, V>, b: Map<K, V>, k: &Q, v: V) -> bool;
#[verifier::external_body]
pub broadcast proof fn axiom_borrowed_key_updated<K, V>(a: Map<K, V>, b: Map<K, V>, k: &K, v: V)
    ensures #[trigger] borrowed_key_updated::<K, V, K>(a, b, k, v) <==> b == a.insert(*k, v) {}
/// the String with given characters
pub uninterp spec fn string_of(s: Seq<char>) -> String;
#[verifier::external_body]
pub broadcast proof fn axiom_string_of(k: &str) ensures (#[trigger] string_of(k@))@ == k@ {}
#[verifier::external_body]
pub broadcast proof fn axiom_string_of_view(k: String) ensures #[trigger] string_of(k@) == k {}
#[verifier::external_body]
pub broadcast proof fn axiom_str_key_contains<V>(m: Map<String, V>, k: &str)
    ensures #[trigger] contains_borrowed_key::<String, V, str>(m, k) <==> m.dom().contains(string_of(k@)) {}
#[verifier::external_body]
pub broadcast proof fn axiom_str_key_maps<V>(m: Map<String, V>, k: &str, v: V)
    ensures #[trigger] maps_borrowed_key_to_value::<String, V, str>(m, k, v) <==> m.dom().contains(string_of(k@)) && m[string_of(k@)] == v {}
#[verifier::external_body]
pub broadcast proof fn axiom_str_key_removed<V>(a: Map<String, V>, b: Map<String, V>, k: &str)
    ensures #[trigger] borrowed_key_removed::<String, V, str>(a, b, k) <==> b == a.remove(string_of(k@)) {}
#[verifier::external_body]
pub broadcast proof fn axiom_str_key_updated<V>(a: Map<String, V>, b: Map<String, V>, k: &str, v: V)
    ensures #[trigger] borrowed_key_updated::<String, V, str>(a, b, k, v) <==> b == a.insert(string_of(k@), v) {}

// ---- panics and allocation ----------------------------------------------------------------------
/// true where the caller accepts a panic; nothing ever assumes it
pub uninterp spec fn panics_allowed() -> bool;
/// a vector of `n` values cannot be allocated
pub uninterp spec fn no_room(n: int) -> bool;
#[verifier::external_body]
pub broadcast proof fn axiom_no_room(n: int) requires n > usize::MAX ensures #[trigger] no_room(n) {}
pub trait VxReserve<T> {
    spec fn vx_r(&self) -> Seq<T>;
    fn vx_try_reserve(&mut self, n: usize) -> (r: Result<(), std::collections::TryReserveError>)
        ensures final(self).vx_r() == old(self).vx_r(), r is Err ==> n > 0 && no_room(old(self).vx_r().len() + n);
}
impl<T> VxReserve<T> for Vec<T> {
    open spec fn vx_r(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_try_reserve(&mut self, n: usize) -> (r: Result<(), std::collections::TryReserveError>) { self.try_reserve(n) }
}
pub trait VxExpect<T> {
    spec fn vx_ok(&self) -> Option<T>;
    fn vx_expect(self, msg: &str) -> (r: T) where Self: Sized
        requires self.vx_ok() is Some || panics_allowed(),
        ensures self.vx_ok() == Some(r);
}
impl<T, E: std::fmt::Debug> VxExpect<T> for Result<T, E> {
    open spec fn vx_ok(&self) -> Option<T> { match *self { Ok(x) => Some(x), Err(_) => None } }
    #[verifier::external_body]
    fn vx_expect(self, msg: &str) -> (r: T) { self.expect(msg) }
}
impl<T> VxExpect<T> for Option<T> {
    open spec fn vx_ok(&self) -> Option<T> { *self }
    #[verifier::external_body]
    fn vx_expect(self, msg: &str) -> (r: T) { self.expect(msg) }
}

/// `String` has a lawful `Eq` and `Hash`
#[verifier::external_body]
pub broadcast proof fn axiom_string_key() ensures #[trigger] obeys_key_model::<String>() {}

pub broadcast group group_vx_std {
    axiom_string_key, axiom_ll_iter, axiom_hm_iter, axiom_str_bytes, lemma_texts_push,
    axiom_chars_left, axiom_skip_left, axiom_disp, axiom_disp_bool, axiom_disp_string, axiom_disp_f64,
    axiom_borrowed_key_updated, axiom_string_of, axiom_string_of_view, axiom_str_key_contains, axiom_str_key_maps, axiom_str_key_removed, axiom_str_key_updated,
    axiom_disp_ref, axiom_disp_str,
}

} // verus!
}
