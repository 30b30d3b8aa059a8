//@ fn Finder::find
//@ ret r
//@ spec
    ensures match step_get(jv(*json), sv(*self)) {
        Ok(x) => r matches Ok(j) && jv(*j) == x,
        Err(k) => r matches Err(e) && e.kind == k,
    },
//@ fn Finder::find_mut
//@ ret r
//@ spec
    ensures match r {
        Ok(x) => step_get(jv(*old(json)), sv(*self)) == Ok::<JV, ErrorKind>(jv(*x))
            && jv(*final(json)) == step_put(jv(*old(json)), sv(*self), jv(*final(x))),
        Err(e) => step_get(jv(*old(json)), sv(*self)) == Err::<JV, ErrorKind>(e.kind) && jv(*final(json)) == jv(*old(json)),
    },
//@ fn Finder::discard
//@ ret r
//@ spec
    ensures match r {
        Ok(x) => step_get(jv(*old(json)), sv(*self)) == Ok::<JV, ErrorKind>(jv(x))
            && jv(*final(json)) == step_del(jv(*old(json)), sv(*self)),
        Err(e) => step_get(jv(*old(json)), sv(*self)) == Err::<JV, ErrorKind>(e.kind) && jv(*final(json)) == jv(*old(json)),
    },
//@ fn Finder::update
//@ ret r
//@ spec
    ensures match r {
        Ok(x) => jv(*x) == jv(v) && jv(*final(json)) == step_set(jv(*old(json)), sv(*self), jv(*final(x))),
        Err(e) => e.kind is IndexOutOfRange && step_no_room(sv(*self)) && jv(*final(json)) == jv(*old(json)),
    },
//@ fn reserve_index
//@ ret r
//@ spec
    ensures
        final(vec)@ == old(vec)@,
        r matches Err(e) ==> e.kind is IndexOutOfRange && no_room(i + 1),
        r is Ok ==> i < usize::MAX,
//@ fn Path::new
//@ ret r
//@ spec
    ensures into_as(f, r.finder), r.next is None,
//@ fn Path::append
//@ ret r
//@ spec
    ensures
        exists|x: Finder| #[trigger] into_as(f, x) && pv(*r) == pv(*old(self)).push(sv(x)),
        *final(self) == *final(r),
    decreases *old(self),
//@ fn Path::find
//@ ret r
//@ spec
    ensures match get_path(jv(*json), pv(*self)) {
        Ok(x) => r matches Ok(j) && jv(*j) == x,
        Err(k) => r matches Err(e) && e.kind == k,
    },
    decreases self,
//@ entry
    proof { vx_unfold(*self); }
//@ fn Path::find_mut
//@ ret r
//@ spec
    ensures match r {
        Ok(x) => get_path(jv(*old(json)), pv(*self)) == Ok::<JV, ErrorKind>(jv(*x))
            && jv(*final(json)) == put_path(jv(*old(json)), pv(*self), jv(*final(x))),
        Err(e) => get_path(jv(*old(json)), pv(*self)) == Err::<JV, ErrorKind>(e.kind) && jv(*final(json)) == jv(*old(json)),
    },
    decreases self,
//@ entry
    proof { vx_unfold(*self); }
//@ fn Path::discard
//@ ret r
//@ spec
    ensures match r {
        Ok(x) => get_path(jv(*old(json)), pv(*self)) == Ok::<JV, ErrorKind>(jv(x))
            && jv(*final(json)) == del_path(jv(*old(json)), pv(*self)),
        Err(e) => get_path(jv(*old(json)), pv(*self)) == Err::<JV, ErrorKind>(e.kind) && jv(*final(json)) == jv(*old(json)),
    },
    decreases self,
//@ entry
    proof { vx_unfold(*self); }
//@ fn Path::update
//@ ret r
//@ spec
    ensures match r {
        Ok(x) => v.enc(jv(*x)) && jv(*final(json)) == set_path(jv(*old(json)), pv(*self), jv(*final(x))),
        Err(e) => e.kind is IndexOutOfRange && path_no_room(pv(*self)),
    },
    decreases self,
//@ entry
    proof { vx_unfold(*self); }
//@ fn Json::find
//@ ret r
//@ spec
    ensures exists|p: Path| #[trigger] into_as(path, p) && match get_path(jv(*self), pv(p)) {
        Ok(x) => r matches Ok(j) && jv(*j) == x,
        Err(k) => r matches Err(e) && e.kind == k,
    },
//@ fn Json::find_mut
//@ ret r
//@ spec
    ensures exists|p: Path| #[trigger] into_as(path, p) && match r {
        Ok(x) => get_path(jv(*old(self)), pv(p)) == Ok::<JV, ErrorKind>(jv(*x))
            && jv(*final(self)) == put_path(jv(*old(self)), pv(p), jv(*final(x))),
        Err(e) => get_path(jv(*old(self)), pv(p)) == Err::<JV, ErrorKind>(e.kind) && jv(*final(self)) == jv(*old(self)),
    },
//@ fn Json::discard
//@ ret r
//@ spec
    ensures exists|p: Path| #[trigger] into_as(path, p) && match r {
        Ok(x) => get_path(jv(*old(self)), pv(p)) == Ok::<JV, ErrorKind>(jv(x))
            && jv(*final(self)) == del_path(jv(*old(self)), pv(p)),
        Err(e) => get_path(jv(*old(self)), pv(p)) == Err::<JV, ErrorKind>(e.kind) && jv(*final(self)) == jv(*old(self)),
    },
//@ fn Json::update
//@ ret r
//@ spec
    ensures exists|p: Path| #[trigger] into_as(path, p) && match r {
        Ok(x) => v.enc(jv(*x)) && jv(*final(self)) == set_path(jv(*old(self)), pv(p), jv(*final(x))),
        Err(e) => e.kind is IndexOutOfRange && path_no_room(pv(p)),
    },
//@ fn <Finder as From<String>>::from
//@ fn <Finder as From<&String>>::from
//@ entry
    proof { }
//@ fn <Finder as From<&str>>::from
//@ fn <Finder as From<usize>>::from
//@ fn <Finder as From<&usize>>::from
//@ fn <Path as From<F>>::from
//@ impl <Json as Index<T>>
    open spec fn vx_j(&self) -> Json { *self }
//@ fn <Json as Index<T>>::index
//@ impl <Json as IndexMut<T>>
    open spec fn vx_jm(&self) -> Json { *self }
//@ fn <Json as IndexMut<T>>::index_mut
//@ fn parse_path
//@ ret r
//@ attr
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ loops loop
//@ spec
    ensures match r { Ok(p) => path_steps(s@) == Some(pv(p)), Err(e) => path_steps(s@) is None && e.kind is PathSyntaxError },
//@ closure 0
|buf: &mut String| -> (r: Result<Finder, Error>)
    ensures match r { Ok(x) => seg_step(old(buf)@) == Some(sv(x)) && final(buf)@ == Seq::<char>::empty(), Err(e) => seg_step(old(buf)@) is None && e.kind is PathSyntaxError }
//@ loop 0
    invariant_except_break steps_from(s@, Seq::empty()) == prefixed(steps_of(vec@), steps_from(iter.left(), buf@)),
    ensures steps_from(s@, Seq::empty()) == Some(steps_of(vec@)), vec@.len() > 0,
    decreases iter.left().len(),
//@ loop each0
    invariant vx_ic0.seq() == vec@.skip(1), pv(path).len() == 1 + vx_ic0.index@, forall|j: int| 0 <= j < pv(path).len() ==> #[trigger] pv(path)[j] == sv(vec@[j]),
//@ loop each0 after
    proof { assert(pv(path) =~= steps_of(vec@)); }
//@ fn Json::get
//@ ret r
//@ spec
    ensures match opt_path(s@) {
        None => r matches Err(e) && e.kind is PathSyntaxError,
        Some(p) => match get_path(jv(*self), p) {
            Ok(x) => r matches Ok(j) && jv(*j) == x,
            Err(k) => r matches Err(e) && e.kind == k,
        },
    },
//@ fn Json::del
//@ ret r
//@ spec
    ensures match opt_path(s@) {
        None => r matches Err(e) && e.kind is PathSyntaxError && jv(*final(self)) == jv(*old(self)),
        Some(p) => match r {
            Ok(x) => get_path(jv(*old(self)), p) == Ok::<JV, ErrorKind>(jv(x)) && jv(*final(self)) == del_path(jv(*old(self)), p),
            Err(e) => get_path(jv(*old(self)), p) == Err::<JV, ErrorKind>(e.kind) && jv(*final(self)) == jv(*old(self)),
        },
    },
//@ fn Json::set
//@ ret r
//@ spec
    ensures match opt_path(s@) {
        None => r matches Err(e) && e.kind is PathSyntaxError && jv(*final(self)) == jv(*old(self)),
        Some(p) => match r {
            Ok(x) => v.enc(jv(*x)) && jv(*final(self)) == set_path(jv(*old(self)), p, jv(*final(x))),
            Err(e) => e.kind is IndexOutOfRange && path_no_room(p),
        },
    },
