// ------------------------------------------------------------------------------------------------
// vx_std_more: specifications ASSUMED for functions of the standard library that the source does not call on the tree
// the contracts were written for.  They are in force (and listed as trusted) only for a source that calls them.
// ------------------------------------------------------------------------------------------------
pub mod vx_std_more {
use vstd::prelude::*;
use std::collections::LinkedList;
use crate::vx_std::*;
verus! {

// ---- char / u8 ----------------------------------------------------------------------------------
pub assume_specification [char::is_ascii] (c: &char) -> (r: bool) ensures r == (*c as u32 <= 0x7f);
pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool) ensures r == ('0' <= *c && *c <= '9');
pub assume_specification [char::is_ascii_hexdigit] (c: &char) -> (r: bool)
    ensures r == (('0' <= *c && *c <= '9') || ('a' <= *c && *c <= 'f') || ('A' <= *c && *c <= 'F'));
pub assume_specification [char::is_ascii_lowercase] (c: &char) -> (r: bool) ensures r == ('a' <= *c && *c <= 'z');
pub assume_specification [char::is_ascii_uppercase] (c: &char) -> (r: bool) ensures r == ('A' <= *c && *c <= 'Z');
pub assume_specification [char::is_ascii_alphabetic] (c: &char) -> (r: bool) ensures r == (('a' <= *c && *c <= 'z') || ('A' <= *c && *c <= 'Z'));
pub assume_specification [char::is_ascii_control] (c: &char) -> (r: bool) ensures r == ((*c as u32) < 0x20 || *c as u32 == 0x7f);
pub assume_specification [char::is_ascii_graphic] (c: &char) -> (r: bool) ensures r == (0x21 <= *c as u32 && *c as u32 <= 0x7e);
pub assume_specification [char::is_ascii_whitespace] (c: &char) -> (r: bool)
    ensures r == (*c as u32 == 0x20 || *c as u32 == 0x09 || *c as u32 == 0x0a || *c as u32 == 0x0c || *c as u32 == 0x0d);
pub assume_specification [char::is_control] (c: char) -> (r: bool) ensures r == ((c as u32) < 0x20 || (0x7f <= c as u32 && c as u32 <= 0x9f));
/// the value of a digit of a base up to 36
pub open spec fn digit_of(c: char, radix: u32) -> Option<u32> {
    let u = c as u32;
    let d: int = if '0' <= c && c <= '9' { u - 0x30 } else if 'a' <= c && c <= 'z' { u - 0x61 + 10 } else if 'A' <= c && c <= 'Z' { u - 0x41 + 10 } else { 99 };
    if d < radix { Some(d as u32) } else { None }
}
pub assume_specification [char::to_digit] (c: char, radix: u32) -> (r: Option<u32>)
    requires 2 <= radix <= 36
    ensures r == digit_of(c, radix);
pub assume_specification [char::is_digit] (c: char, radix: u32) -> (r: bool)
    requires 2 <= radix <= 36
    ensures r == (digit_of(c, radix) is Some);
pub assume_specification [u8::is_ascii_digit] (c: &u8) -> (r: bool) ensures r == (0x30 <= *c && *c <= 0x39);

// ---- f64 ----------------------------------------------------------------------------------------
pub uninterp spec fn f64_nan(f: f64) -> bool;
pub uninterp spec fn f64_inf(f: f64) -> bool;
pub assume_specification [f64::is_nan] (f: f64) -> (r: bool) ensures r == f64_nan(f), f64_finite(f) == !(f64_nan(f) || f64_inf(f));
pub assume_specification [f64::is_infinite] (f: f64) -> (r: bool) ensures r == f64_inf(f), f64_finite(f) == !(f64_nan(f) || f64_inf(f));

// ---- Option / Result / bool / mem ---------------------------------------------------------------
pub assume_specification<T> [Option::<T>::or] (a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if a is Some { a } else { b });
pub assume_specification<T, U> [Option::<T>::and] (a: Option<T>, b: Option<U>) -> (r: Option<U>)
    ensures r == (if a is Some { b } else { None });
pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (a: Result<T, E>, b: T) -> (r: T)
    ensures r == (match a { Ok(x) => x, Err(_) => b });
pub assume_specification<T> [bool::then_some] (c: bool, x: T) -> (r: Option<T>)
    ensures r == (if c { Some(x) } else { None });
pub assume_specification<T> [std::mem::replace] (a: &mut T, x: T) -> (r: T)
    ensures r == *old(a), *final(a) == x;

// ---- String / Vec / LinkedList ------------------------------------------------------------------
pub assume_specification [String::reserve] (s: &mut String, n: usize)
    ensures final(s)@ == old(s)@;
pub assume_specification<T, A: std::alloc::Allocator> [Vec::<T, A>::shrink_to_fit] (v: &mut Vec<T, A>)
    ensures final(v)@ == old(v)@;
pub assume_specification<T, A: std::alloc::Allocator> [LinkedList::<T, A>::push_back] (l: &mut LinkedList<T, A>, x: T)
    ensures ll(final(l)) == ll(old(l)).push(x);
pub assume_specification<T, A: std::alloc::Allocator> [LinkedList::<T, A>::pop_front] (l: &mut LinkedList<T, A>) -> (r: Option<T>)
    ensures
        ll(old(l)).len() == 0 ==> r is None && ll(final(l)) == ll(old(l)),
        ll(old(l)).len() > 0 ==> r == Some(ll(old(l))[0]) && ll(final(l)) == ll(old(l)).skip(1);
pub assume_specification<T, A: std::alloc::Allocator> [LinkedList::<T, A>::pop_back] (l: &mut LinkedList<T, A>) -> (r: Option<T>)
    ensures
        ll(old(l)).len() == 0 ==> r is None && ll(final(l)) == ll(old(l)),
        ll(old(l)).len() > 0 ==> r == Some(ll(old(l)).last()) && ll(final(l)) == ll(old(l)).drop_last();
pub assume_specification<T, A: std::alloc::Allocator> [LinkedList::<T, A>::is_empty] (l: &LinkedList<T, A>) -> (r: bool)
    ensures r == (ll(l).len() == 0);
pub assume_specification<T, A: std::alloc::Allocator> [LinkedList::<T, A>::clear] (l: &mut LinkedList<T, A>)
    ensures ll(final(l)).len() == 0;
pub assume_specification<T, A: std::alloc::Allocator> [LinkedList::<T, A>::front] (l: &LinkedList<T, A>) -> (r: Option<&T>)
    ensures ll(l).len() == 0 ==> r is None, ll(l).len() > 0 ==> (r matches Some(x) && *x == ll(l)[0]);
pub assume_specification<T, A: std::alloc::Allocator> [LinkedList::<T, A>::back] (l: &LinkedList<T, A>) -> (r: Option<&T>)
    ensures ll(l).len() == 0 ==> r is None, ll(l).len() > 0 ==> (r matches Some(x) && *x == ll(l).last());

} // verus!
}
