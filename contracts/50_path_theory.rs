// ------------------------------------------------------------------------------------------------
// vx_laws: what the path functions of vx_path mean (C08-C10, C19): laws over set_path, del_path, put_path and get_path
// ------------------------------------------------------------------------------------------------
pub mod vx_laws {
use vstd::prelude::*;
use crate::vx_spec::*;
use crate::vx_path::*;
use crate::{ErrorKind, Path};
use ErrorKind::*;
verus! {

/// indexes are never negative (they are `usize`)
pub open spec fn step_ok(s: Step) -> bool { s matches Step::Idx(i) ==> 0 <= i }
pub open spec fn path_ok(p: Seq<Step>) -> bool { forall|i: int| 0 <= i < p.len() ==> step_ok(#[trigger] p[i]) }
/// the paths part at `n`, where both have a further step
pub open spec fn part_at(p: Seq<Step>, q: Seq<Step>, n: int) -> bool {
    &&& 0 <= n < p.len() && n < q.len()
    &&& forall|i: int| 0 <= i < n ==> #[trigger] p[i] == q[i]
    &&& p[n] != q[n]
}
pub open spec fn kind_of(v: JV) -> int { match v { JV::Obj(_) => 0, JV::Arr(_) => 1, _ => 2 } }
/// the step addresses the kind of container that `v` is
pub open spec fn applies(v: JV, s: Step) -> bool { match s { Step::Key(_) => v is Obj, Step::Idx(_) => v is Arr } }

pub proof fn lemma_path_skip(p: Seq<Step>)
    requires p.len() > 0, path_ok(p)
    ensures step_ok(p[0]), path_ok(p.skip(1))
{
    assert forall|i: int| 0 <= i < p.skip(1).len() implies step_ok(#[trigger] p.skip(1)[i]) by { assert(p.skip(1)[i] == p[i + 1]); }
}
proof fn lemma_part_skip(p: Seq<Step>, q: Seq<Step>, n: int)
    requires part_at(p, q, n), n > 0
    ensures part_at(p.skip(1), q.skip(1), n - 1), p[0] == q[0]
{
    assert forall|i: int| 0 <= i < n - 1 implies #[trigger] p.skip(1)[i] == q.skip(1)[i] by { assert(p[i + 1] == q[i + 1]); }
    assert(p[0] == q[0]);
}

// ---- C09: set, then look up ----------------------------------------------------------------------
pub proof fn lemma_step_set_get(v: JV, s: Step, w: JV)
    requires step_ok(s)
    ensures step_get(step_set(v, s, w), s) == Ok::<JV, ErrorKind>(w)
{
}
pub proof fn lemma_step_put_get(v: JV, s: Step, w: JV)
    requires step_get(v, s) is Ok
    ensures step_get(step_put(v, s, w), s) == Ok::<JV, ErrorKind>(w)
{
}
/// looking up the path that was set gives the stored value
pub proof fn lemma_set_get(v: JV, p: Seq<Step>, w: JV)
    requires path_ok(p)
    ensures get_path(set_path(v, p, w), p) == Ok::<JV, ErrorKind>(w)
    decreases p.len()
{
    if p.len() == 0 {
    } else {
        lemma_path_skip(p);
        if p.len() == 1 {
            lemma_step_set_get(v, p[0], w);
            assert(get_path(w, p.skip(1)) == Ok::<JV, ErrorKind>(w));
        } else {
            match step_get(v, p[0]) {
                Ok(x) => { lemma_set_get(x, p.skip(1), w); lemma_step_put_get(v, p[0], set_path(x, p.skip(1), w)); }
                Err(_) => { lemma_set_get(JV::Null, p.skip(1), w); lemma_step_set_get(v, p[0], set_path(JV::Null, p.skip(1), w)); }
            }
        }
    }
}
/// another key or element of a container of the same kind keeps its value
pub proof fn lemma_step_set_other(v: JV, s: Step, w: JV, r: Step)
    requires step_ok(s), r != s, applies(v, s), step_get(v, r) is Ok
    ensures step_get(step_set(v, s, w), r) == step_get(v, r)
{
}
pub proof fn lemma_step_put_other(v: JV, s: Step, w: JV, r: Step)
    requires r != s, step_get(v, s) is Ok
    ensures step_get(step_put(v, s, w), r) == step_get(v, r)
{
}
/// what a lookup found before is found after a set, unless the set had to replace the container it is in
pub proof fn lemma_set_frame(v: JV, p: Seq<Step>, w: JV, q: Seq<Step>, n: int)
    requires
        path_ok(p), part_at(p, q, n), get_path(v, q) is Ok,
        (p[n] is Key) == (q[n] is Key),
    ensures get_path(set_path(v, p, w), q) == get_path(v, q)
    decreases p.len()
{
    lemma_path_skip(p);
    if n == 0 {
        assert(applies(v, p[0]));
        if p.len() == 1 { lemma_step_set_other(v, p[0], w, q[0]); }
        else {
            match step_get(v, p[0]) {
                Ok(x) => { lemma_step_put_other(v, p[0], set_path(x, p.skip(1), w), q[0]); }
                Err(_) => { lemma_step_set_other(v, p[0], set_path(JV::Null, p.skip(1), w), q[0]); }
            }
        }
    } else {
        lemma_part_skip(p, q, n);
        let x = step_get(v, p[0])->Ok_0;
        lemma_set_frame(x, p.skip(1), w, q.skip(1), n - 1);
        lemma_step_put_get(v, p[0], set_path(x, p.skip(1), w));
    }
}
/// and what is found after the set off the path was there before, or is one of the nulls that fill an extended array
pub proof fn lemma_set_frame_back(v: JV, p: Seq<Step>, w: JV, q: Seq<Step>, n: int)
    requires path_ok(p), part_at(p, q, n), get_path(set_path(v, p, w), q) is Ok
    ensures
        get_path(set_path(v, p, w), q) == get_path(v, q)
        || (get_path(set_path(v, p, w), q) == Ok::<JV, ErrorKind>(JV::Null) && n == q.len() - 1 && p[n] is Idx && q[n] is Idx && q[n]->Idx_0 < p[n]->Idx_0 && get_path(v, q) is Err),
    decreases p.len()
{
    lemma_path_skip(p);
    if n == 0 {
        let u = if p.len() == 1 { w } else { set_path(match step_get(v, p[0]) { Ok(x) => x, Err(_) => JV::Null }, p.skip(1), w) };
        if p.len() > 1 && step_get(v, p[0]) is Ok { lemma_step_put_other(v, p[0], u, q[0]); }
        else {
            assert(set_path(v, p, w) == step_set(v, p[0], u));
            if step_get(v, q[0]) is Ok && applies(v, p[0]) { lemma_step_set_other(v, p[0], u, q[0]); }
            else { assert(step_get(set_path(v, p, w), q[0]) == Ok::<JV, ErrorKind>(JV::Null)); if q.len() > 1 { assert(step_get(JV::Null, q[1]) is Err); assert(q.skip(1)[0] == q[1]); } else { assert(get_path(JV::Null, q.skip(1)) == Ok::<JV, ErrorKind>(JV::Null)); } }
        }
    } else {
        lemma_part_skip(p, q, n);
        match step_get(v, p[0]) {
            Ok(x) => { lemma_set_frame_back(x, p.skip(1), w, q.skip(1), n - 1); lemma_step_put_get(v, p[0], set_path(x, p.skip(1), w)); }
            Err(_) => {
                lemma_step_set_get(v, p[0], set_path(JV::Null, p.skip(1), w));
                lemma_set_frame_back(JV::Null, p.skip(1), w, q.skip(1), n - 1);
                assert(get_path(JV::Null, q.skip(1)) is Err);
            }
        }
    }
}
/// where the lookup of the path succeeds, a prefix of the path holds the same containers as before: kinds do not change
pub proof fn lemma_set_len(v: JV, p: Seq<Step>, w: JV)
    requires path_ok(p), p.len() > 0
    ensures
        p[0] is Key ==> set_path(v, p, w) is Obj,
        p[0] is Idx ==> set_path(v, p, w) is Arr,
        p[0] matches Step::Idx(i) ==> set_path(v, p, w)->Arr_0.len() == (match v { JV::Arr(a) => if a.len() > i { a.len() as int } else { i + 1 }, _ => i + 1 }),
        p[0] matches Step::Key(k) ==> set_path(v, p, w)->Obj_0.dom() == (match v { JV::Obj(m) => m.dom().insert(k), _ => Set::empty().insert(k) }),
        p.len() == 1 && p[0] is Key ==> set_path(v, p, w)->Obj_0[p[0]->Key_0] == seq![w],
{
    lemma_path_skip(p);
    if let Step::Key(k) = p[0] { assert(set_path(v, p, w)->Obj_0.dom() =~= (match v { JV::Obj(m) => m.dom().insert(k), _ => Set::empty().insert(k) })); }
}

// ---- C10: delete ---------------------------------------------------------------------------------
/// where step `r` is found after step `s` was deleted
pub open spec fn shifted(s: Step, r: Step) -> Step {
    match s { Step::Idx(i) => match r { Step::Idx(j) => if j >= i { Step::Idx(j + 1) } else { r }, _ => r }, _ => r }
}
pub proof fn lemma_step_del(v: JV, s: Step, r: Step)
    requires step_get(v, s) is Ok, step_ok(r), s is Key ==> r != s
    ensures (match (step_get(step_del(v, s), r), step_get(v, shifted(s, r))) { (Ok(a), Ok(b)) => a == b, (Err(a), Err(b)) => a == b, _ => false })
{
}
pub proof fn lemma_step_del_key(v: JV, s: Step)
    requires step_get(v, s) is Ok, s is Key
    ensures step_get(step_del(v, s), s) == Err::<JV, ErrorKind>(MissingKey)
{
}
/// the path at which an element off the deleted path was before
pub open spec fn before_del(p: Seq<Step>, q: Seq<Step>) -> Seq<Step> {
    if p.len() > 0 && q.len() >= p.len() && p.drop_last() == q.take(p.len() - 1) { q.update(p.len() - 1, shifted(p.last(), q[p.len() - 1])) } else { q }
}
/// every lookup after a delete finds what the lookup before it found, later elements being shifted down by one
pub proof fn lemma_del_frame(v: JV, p: Seq<Step>, q: Seq<Step>, n: int)
    requires
        path_ok(p), path_ok(q), p.len() > 0, get_path(v, p) is Ok,
        0 <= n < p.len(), n < q.len(), forall|i: int| 0 <= i < n ==> #[trigger] p[i] == q[i],
        n < p.len() - 1 ==> p[n] != q[n],
        n == p.len() - 1 && p[n] is Key ==> p[n] != q[n],
    ensures get_path(del_path(v, p), q) == get_path(v, if n == p.len() - 1 { q.update(n, shifted(p[n], q[n])) } else { q })
    decreases p.len()
{
    lemma_path_skip(p);
    lemma_path_skip(q);
    let x = step_get(v, p[0])->Ok_0;
    let r = if n == p.len() - 1 { q.update(n, shifted(p[n], q[n])) } else { q };
    if n == 0 {
        assert(r.skip(1) =~= q.skip(1));
        if p.len() == 1 { lemma_step_del(v, p[0], q[0]); assert(r[0] == shifted(p[0], q[0])); }
        else { lemma_step_put_other(v, p[0], del_path(x, p.skip(1)), q[0]); }
    } else {
        assert(p[0] == q[0]);
        assert forall|i: int| 0 <= i < n - 1 implies #[trigger] p.skip(1)[i] == q.skip(1)[i] by { assert(p[i + 1] == q[i + 1]); }
        lemma_del_frame(x, p.skip(1), q.skip(1), n - 1);
        lemma_step_put_get(v, p[0], del_path(x, p.skip(1)));
        if n == p.len() - 1 { assert(r.skip(1) =~= q.skip(1).update(n - 1, shifted(p.skip(1)[n - 1], q.skip(1)[n - 1]))); }
        assert(r[0] == q[0]);
    }
}
/// a deleted key is gone, with all its values
pub proof fn lemma_del_key(v: JV, p: Seq<Step>)
    requires path_ok(p), p.len() > 0, p.last() is Key, get_path(v, p) is Ok
    ensures get_path(del_path(v, p), p) == Err::<JV, ErrorKind>(MissingKey)
    decreases p.len()
{
    lemma_path_skip(p);
    let x = step_get(v, p[0])->Ok_0;
    if p.len() == 1 { lemma_step_del_key(v, p[0]); }
    else {
        assert(p.skip(1).last() == p.last());
        lemma_del_key(x, p.skip(1));
        lemma_step_put_get(v, p[0], del_path(x, p.skip(1)));
    }
}

// ---- C19: write through a mutable lookup -----------------------------------------------------------
pub proof fn lemma_put_get(v: JV, p: Seq<Step>, w: JV)
    requires get_path(v, p) is Ok
    ensures get_path(put_path(v, p, w), p) == Ok::<JV, ErrorKind>(w)
    decreases p.len()
{
    if p.len() > 0 {
        let x = step_get(v, p[0])->Ok_0;
        lemma_put_get(x, p.skip(1), w);
        lemma_step_put_get(v, p[0], put_path(x, p.skip(1), w));
    }
}
/// every lookup that parts from the path gives the same result as before
pub proof fn lemma_put_frame(v: JV, p: Seq<Step>, w: JV, q: Seq<Step>, n: int)
    requires get_path(v, p) is Ok, part_at(p, q, n)
    ensures get_path(put_path(v, p, w), q) == get_path(v, q)
    decreases p.len()
{
    let x = step_get(v, p[0])->Ok_0;
    if n == 0 { lemma_step_put_other(v, p[0], put_path(x, p.skip(1), w), q[0]); }
    else {
        lemma_part_skip(p, q, n);
        lemma_put_frame(x, p.skip(1), w, q.skip(1), n - 1);
        lemma_step_put_get(v, p[0], put_path(x, p.skip(1), w));
    }
}
/// the steps of a real path are such steps
pub proof fn lemma_pv_ok(p: Path)
    ensures path_ok(pv(p)), pv(p).len() > 0
    decreases p
{
    lemma_pv(p);
    if let Some(n) = p.next {
        lemma_pv_ok(*n);
        assert forall|i: int| 0 <= i < pv(p).len() implies step_ok(#[trigger] pv(p)[i]) by { if i > 0 { assert(pv(*n)[i - 1] == pv(p)[i]); } }
    }
}
} // verus!
}
