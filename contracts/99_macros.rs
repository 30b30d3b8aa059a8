// ------------------------------------------------------------------------------------------------
// One contract per arity of each exported macro; the bodies invoke the real macros.  Every operand goes through
// `vx_op`, which records that it was evaluated.
// ------------------------------------------------------------------------------------------------
verus!{
/// evaluates operand number `n`
fn vx_op<T>(l: &mut Ghost<Seq<int>>, n: u8, x: T) -> (r: T)
    ensures r == x, final(l)@ == old(l)@.push(n as int),
{ proof { l@ = l@.push(n as int); } x }

//@macro object!/0
fn vx_object0(l: &mut Ghost<Seq<int>>) -> (r: Json)
    ensures jv(r) == JV::Obj(Map::<Seq<char>, Seq<JV>>::empty()), final(l)@ == old(l)@,
{ object!{} }

//@macro object!/1
fn vx_object1<K0: ToString, V0: ToJson>(k0: K0, v0: V0, l: &mut Ghost<Seq<int>>) -> (r: Json)
    ensures exists|x0: JV| v0.enc(x0) && jv(r) == JV::Obj(obj_append(Map::<Seq<char>, Seq<JV>>::empty(), k0.to_string_spec(), x0)), final(l)@ =~= old(l)@ + seq![0int, 1int],
{ object!{vx_op(l, 0, k0) => vx_op(l, 1, v0)} }

//@macro object!/2
fn vx_object2<K0: ToString, V0: ToJson, K1: ToString, V1: ToJson>(k0: K0, v0: V0, k1: K1, v1: V1, l: &mut Ghost<Seq<int>>) -> (r: Json)
    ensures exists|x0: JV, x1: JV| v0.enc(x0) && v1.enc(x1) && jv(r) == JV::Obj(obj_append(obj_append(Map::<Seq<char>, Seq<JV>>::empty(), k0.to_string_spec(), x0), k1.to_string_spec(), x1)), final(l)@ =~= old(l)@ + seq![0int, 1int, 2int, 3int],
{ object!{vx_op(l, 0, k0) => vx_op(l, 1, v0), vx_op(l, 2, k1) => vx_op(l, 3, v1)} }

//@macro object!/2 with trailing comma
fn vx_object2t<K0: ToString, V0: ToJson, K1: ToString, V1: ToJson>(k0: K0, v0: V0, k1: K1, v1: V1, l: &mut Ghost<Seq<int>>) -> (r: Json)
    ensures exists|x0: JV, x1: JV| v0.enc(x0) && v1.enc(x1) && jv(r) == JV::Obj(obj_append(obj_append(Map::<Seq<char>, Seq<JV>>::empty(), k0.to_string_spec(), x0), k1.to_string_spec(), x1)), final(l)@ =~= old(l)@ + seq![0int, 1int, 2int, 3int],
{ object!{vx_op(l, 0, k0) => vx_op(l, 1, v0), vx_op(l, 2, k1) => vx_op(l, 3, v1),} }

//@macro object!/3
fn vx_object3<K0: ToString, V0: ToJson, K1: ToString, V1: ToJson, K2: ToString, V2: ToJson>(k0: K0, v0: V0, k1: K1, v1: V1, k2: K2, v2: V2, l: &mut Ghost<Seq<int>>) -> (r: Json)
    ensures exists|x0: JV, x1: JV, x2: JV| v0.enc(x0) && v1.enc(x1) && v2.enc(x2) && jv(r) == JV::Obj(obj_append(obj_append(obj_append(Map::<Seq<char>, Seq<JV>>::empty(), k0.to_string_spec(), x0), k1.to_string_spec(), x1), k2.to_string_spec(), x2)), final(l)@ =~= old(l)@ + seq![0int, 1int, 2int, 3int, 4int, 5int],
{ object!{vx_op(l, 0, k0) => vx_op(l, 1, v0), vx_op(l, 2, k1) => vx_op(l, 3, v1), vx_op(l, 4, k2) => vx_op(l, 5, v2)} }

//@macro object!/4
fn vx_object4<K0: ToString, V0: ToJson, K1: ToString, V1: ToJson, K2: ToString, V2: ToJson, K3: ToString, V3: ToJson>(k0: K0, v0: V0, k1: K1, v1: V1, k2: K2, v2: V2, k3: K3, v3: V3, l: &mut Ghost<Seq<int>>) -> (r: Json)
    ensures exists|x0: JV, x1: JV, x2: JV, x3: JV| v0.enc(x0) && v1.enc(x1) && v2.enc(x2) && v3.enc(x3) && jv(r) == JV::Obj(obj_append(obj_append(obj_append(obj_append(Map::<Seq<char>, Seq<JV>>::empty(), k0.to_string_spec(), x0), k1.to_string_spec(), x1), k2.to_string_spec(), x2), k3.to_string_spec(), x3)), final(l)@ =~= old(l)@ + seq![0int, 1int, 2int, 3int, 4int, 5int, 6int, 7int],
{ object!{vx_op(l, 0, k0) => vx_op(l, 1, v0), vx_op(l, 2, k1) => vx_op(l, 3, v1), vx_op(l, 4, k2) => vx_op(l, 5, v2), vx_op(l, 6, k3) => vx_op(l, 7, v3)} }

//@macro array!/0
fn vx_array0(l: &mut Ghost<Seq<int>>) -> (r: Json)
    ensures jv(r) matches JV::Arr(a) && a.len() == 0, final(l)@ == old(l)@,
{ array![] }

//@macro array!/1
fn vx_array1<V0: ToJson>(v0: V0, l: &mut Ghost<Seq<int>>) -> (r: Json)
    ensures jv(r) matches JV::Arr(a) && a.len() == 1 && v0.enc(a[0]), final(l)@ =~= old(l)@ + seq![0int],
{ array![vx_op(l, 0, v0)] }

//@macro array!/2
fn vx_array2<V0: ToJson, V1: ToJson>(v0: V0, v1: V1, l: &mut Ghost<Seq<int>>) -> (r: Json)
    ensures jv(r) matches JV::Arr(a) && a.len() == 2 && v0.enc(a[0]) && v1.enc(a[1]), final(l)@ =~= old(l)@ + seq![0int, 1int],
{ array![vx_op(l, 0, v0), vx_op(l, 1, v1)] }

//@macro array!/2 with trailing comma
fn vx_array2t<V0: ToJson, V1: ToJson>(v0: V0, v1: V1, l: &mut Ghost<Seq<int>>) -> (r: Json)
    ensures jv(r) matches JV::Arr(a) && a.len() == 2 && v0.enc(a[0]) && v1.enc(a[1]), final(l)@ =~= old(l)@ + seq![0int, 1int],
{ array![vx_op(l, 0, v0), vx_op(l, 1, v1),] }

//@macro array!/3
fn vx_array3<V0: ToJson, V1: ToJson, V2: ToJson>(v0: V0, v1: V1, v2: V2, l: &mut Ghost<Seq<int>>) -> (r: Json)
    ensures jv(r) matches JV::Arr(a) && a.len() == 3 && v0.enc(a[0]) && v1.enc(a[1]) && v2.enc(a[2]), final(l)@ =~= old(l)@ + seq![0int, 1int, 2int],
{ array![vx_op(l, 0, v0), vx_op(l, 1, v1), vx_op(l, 2, v2)] }

//@macro array!/4
fn vx_array4<V0: ToJson, V1: ToJson, V2: ToJson, V3: ToJson>(v0: V0, v1: V1, v2: V2, v3: V3, l: &mut Ghost<Seq<int>>) -> (r: Json)
    ensures jv(r) matches JV::Arr(a) && a.len() == 4 && v0.enc(a[0]) && v1.enc(a[1]) && v2.enc(a[2]) && v3.enc(a[3]), final(l)@ =~= old(l)@ + seq![0int, 1int, 2int, 3int],
{ array![vx_op(l, 0, v0), vx_op(l, 1, v1), vx_op(l, 2, v2), vx_op(l, 3, v3)] }

//@macro path!/1
fn vx_path1<F0: Into<Finder>>(f0: F0, l: &mut Ghost<Seq<int>>) -> (r: Path)
    ensures exists|x0: Finder| #[trigger] into_as(f0, x0) && pv(r) == seq![sv(x0)], final(l)@ =~= old(l)@ + seq![0int],
{ path!(vx_op(l, 0, f0)) }

//@macro find!/1
fn vx_find1<'a, F0: Into<Finder>>(j: &'a Json, f0: F0, l: &mut Ghost<Seq<int>>) -> (r: Result<&'a Json, Error>)
    ensures
        exists|x0: Finder| #[trigger] into_as(f0, x0) && exists|q: Path| #[trigger] pv(q) == seq![sv(x0)] && match get_path(jv(*j), pv(q)) {
            Ok(x) => r matches Ok(y) && jv(*y) == x,
            Err(k) => r matches Err(e) && e.kind == k,
        },
        final(l)@ =~= old(l)@ + seq![0int],
{ find!(j, vx_op(l, 0, f0)) }

//@macro discard!/1
fn vx_discard1<F0: Into<Finder>>(j: &mut Json, f0: F0, l: &mut Ghost<Seq<int>>) -> (r: Result<Json, Error>)
    ensures
        exists|x0: Finder| #[trigger] into_as(f0, x0) && exists|q: Path| #[trigger] pv(q) == seq![sv(x0)] && match r {
            Ok(x) => get_path(jv(*old(j)), pv(q)) == Ok::<JV, ErrorKind>(jv(x)) && jv(*final(j)) == del_path(jv(*old(j)), pv(q)),
            Err(e) => get_path(jv(*old(j)), pv(q)) == Err::<JV, ErrorKind>(e.kind) && jv(*final(j)) == jv(*old(j)),
        },
        final(l)@ =~= old(l)@ + seq![0int],
{ discard!(j, vx_op(l, 0, f0)) }

//@macro update!/1
fn vx_update1<'a, V: ToJson, F0: Into<Finder>>(j: &'a mut Json, v: V, f0: F0, l: &mut Ghost<Seq<int>>) -> (r: Result<&'a mut Json, Error>)
    ensures
        exists|x0: Finder| #[trigger] into_as(f0, x0) && exists|q: Path| #[trigger] pv(q) == seq![sv(x0)] && match r {
            Ok(x) => v.enc(jv(*x)) && jv(*final(j)) == set_path(jv(*old(j)), pv(q), jv(*final(x))),
            Err(e) => e.kind is IndexOutOfRange && path_no_room(pv(q)),
        },
        final(l)@ =~= old(l)@ + seq![0int, 1int],
{ update!(vx_op(l, 1, v) => j, vx_op(l, 0, f0)) }

//@macro path!/2
fn vx_path2<F0: Into<Finder>, F1: Into<Finder>>(f0: F0, f1: F1, l: &mut Ghost<Seq<int>>) -> (r: Path)
    ensures exists|x0: Finder, x1: Finder| #[trigger] into_as(f0, x0) && #[trigger] into_as(f1, x1) && pv(r) == seq![sv(x0), sv(x1)], final(l)@ =~= old(l)@ + seq![0int, 1int],
{ path!(vx_op(l, 0, f0), vx_op(l, 1, f1)) }

//@macro find!/2
fn vx_find2<'a, F0: Into<Finder>, F1: Into<Finder>>(j: &'a Json, f0: F0, f1: F1, l: &mut Ghost<Seq<int>>) -> (r: Result<&'a Json, Error>)
    ensures
        exists|x0: Finder, x1: Finder| #[trigger] into_as(f0, x0) && #[trigger] into_as(f1, x1) && exists|q: Path| #[trigger] pv(q) == seq![sv(x0), sv(x1)] && match get_path(jv(*j), pv(q)) {
            Ok(x) => r matches Ok(y) && jv(*y) == x,
            Err(k) => r matches Err(e) && e.kind == k,
        },
        final(l)@ =~= old(l)@ + seq![0int, 1int],
{ find!(j, vx_op(l, 0, f0), vx_op(l, 1, f1)) }

//@macro discard!/2
fn vx_discard2<F0: Into<Finder>, F1: Into<Finder>>(j: &mut Json, f0: F0, f1: F1, l: &mut Ghost<Seq<int>>) -> (r: Result<Json, Error>)
    ensures
        exists|x0: Finder, x1: Finder| #[trigger] into_as(f0, x0) && #[trigger] into_as(f1, x1) && exists|q: Path| #[trigger] pv(q) == seq![sv(x0), sv(x1)] && match r {
            Ok(x) => get_path(jv(*old(j)), pv(q)) == Ok::<JV, ErrorKind>(jv(x)) && jv(*final(j)) == del_path(jv(*old(j)), pv(q)),
            Err(e) => get_path(jv(*old(j)), pv(q)) == Err::<JV, ErrorKind>(e.kind) && jv(*final(j)) == jv(*old(j)),
        },
        final(l)@ =~= old(l)@ + seq![0int, 1int],
{ discard!(j, vx_op(l, 0, f0), vx_op(l, 1, f1)) }

//@macro update!/2
fn vx_update2<'a, V: ToJson, F0: Into<Finder>, F1: Into<Finder>>(j: &'a mut Json, v: V, f0: F0, f1: F1, l: &mut Ghost<Seq<int>>) -> (r: Result<&'a mut Json, Error>)
    ensures
        exists|x0: Finder, x1: Finder| #[trigger] into_as(f0, x0) && #[trigger] into_as(f1, x1) && exists|q: Path| #[trigger] pv(q) == seq![sv(x0), sv(x1)] && match r {
            Ok(x) => v.enc(jv(*x)) && jv(*final(j)) == set_path(jv(*old(j)), pv(q), jv(*final(x))),
            Err(e) => e.kind is IndexOutOfRange && path_no_room(pv(q)),
        },
        final(l)@ =~= old(l)@ + seq![0int, 1int, 2int],
{ update!(vx_op(l, 2, v) => j, vx_op(l, 0, f0), vx_op(l, 1, f1)) }

//@macro path!/2 with trailing comma
fn vx_path2t<F0: Into<Finder>, F1: Into<Finder>>(f0: F0, f1: F1, l: &mut Ghost<Seq<int>>) -> (r: Path)
    ensures exists|x0: Finder, x1: Finder| #[trigger] into_as(f0, x0) && #[trigger] into_as(f1, x1) && pv(r) == seq![sv(x0), sv(x1)], final(l)@ =~= old(l)@ + seq![0int, 1int],
{ path!(vx_op(l, 0, f0), vx_op(l, 1, f1),) }

//@macro find!/2 with trailing comma
fn vx_find2t<'a, F0: Into<Finder>, F1: Into<Finder>>(j: &'a Json, f0: F0, f1: F1, l: &mut Ghost<Seq<int>>) -> (r: Result<&'a Json, Error>)
    ensures
        exists|x0: Finder, x1: Finder| #[trigger] into_as(f0, x0) && #[trigger] into_as(f1, x1) && exists|q: Path| #[trigger] pv(q) == seq![sv(x0), sv(x1)] && match get_path(jv(*j), pv(q)) {
            Ok(x) => r matches Ok(y) && jv(*y) == x,
            Err(k) => r matches Err(e) && e.kind == k,
        },
        final(l)@ =~= old(l)@ + seq![0int, 1int],
{ find!(j, vx_op(l, 0, f0), vx_op(l, 1, f1),) }

//@macro discard!/2 with trailing comma
fn vx_discard2t<F0: Into<Finder>, F1: Into<Finder>>(j: &mut Json, f0: F0, f1: F1, l: &mut Ghost<Seq<int>>) -> (r: Result<Json, Error>)
    ensures
        exists|x0: Finder, x1: Finder| #[trigger] into_as(f0, x0) && #[trigger] into_as(f1, x1) && exists|q: Path| #[trigger] pv(q) == seq![sv(x0), sv(x1)] && match r {
            Ok(x) => get_path(jv(*old(j)), pv(q)) == Ok::<JV, ErrorKind>(jv(x)) && jv(*final(j)) == del_path(jv(*old(j)), pv(q)),
            Err(e) => get_path(jv(*old(j)), pv(q)) == Err::<JV, ErrorKind>(e.kind) && jv(*final(j)) == jv(*old(j)),
        },
        final(l)@ =~= old(l)@ + seq![0int, 1int],
{ discard!(j, vx_op(l, 0, f0), vx_op(l, 1, f1),) }

//@macro update!/2 with trailing comma
fn vx_update2t<'a, V: ToJson, F0: Into<Finder>, F1: Into<Finder>>(j: &'a mut Json, v: V, f0: F0, f1: F1, l: &mut Ghost<Seq<int>>) -> (r: Result<&'a mut Json, Error>)
    ensures
        exists|x0: Finder, x1: Finder| #[trigger] into_as(f0, x0) && #[trigger] into_as(f1, x1) && exists|q: Path| #[trigger] pv(q) == seq![sv(x0), sv(x1)] && match r {
            Ok(x) => v.enc(jv(*x)) && jv(*final(j)) == set_path(jv(*old(j)), pv(q), jv(*final(x))),
            Err(e) => e.kind is IndexOutOfRange && path_no_room(pv(q)),
        },
        final(l)@ =~= old(l)@ + seq![0int, 1int, 2int],
{ update!(vx_op(l, 2, v) => j, vx_op(l, 0, f0), vx_op(l, 1, f1),) }

//@macro path!/3
fn vx_path3<F0: Into<Finder>, F1: Into<Finder>, F2: Into<Finder>>(f0: F0, f1: F1, f2: F2, l: &mut Ghost<Seq<int>>) -> (r: Path)
    ensures exists|x0: Finder, x1: Finder, x2: Finder| #[trigger] into_as(f0, x0) && #[trigger] into_as(f1, x1) && #[trigger] into_as(f2, x2) && pv(r) == seq![sv(x0), sv(x1), sv(x2)], final(l)@ =~= old(l)@ + seq![0int, 1int, 2int],
{ path!(vx_op(l, 0, f0), vx_op(l, 1, f1), vx_op(l, 2, f2)) }

//@macro find!/3
fn vx_find3<'a, F0: Into<Finder>, F1: Into<Finder>, F2: Into<Finder>>(j: &'a Json, f0: F0, f1: F1, f2: F2, l: &mut Ghost<Seq<int>>) -> (r: Result<&'a Json, Error>)
    ensures
        exists|x0: Finder, x1: Finder, x2: Finder| #[trigger] into_as(f0, x0) && #[trigger] into_as(f1, x1) && #[trigger] into_as(f2, x2) && exists|q: Path| #[trigger] pv(q) == seq![sv(x0), sv(x1), sv(x2)] && match get_path(jv(*j), pv(q)) {
            Ok(x) => r matches Ok(y) && jv(*y) == x,
            Err(k) => r matches Err(e) && e.kind == k,
        },
        final(l)@ =~= old(l)@ + seq![0int, 1int, 2int],
{ find!(j, vx_op(l, 0, f0), vx_op(l, 1, f1), vx_op(l, 2, f2)) }

//@macro discard!/3
fn vx_discard3<F0: Into<Finder>, F1: Into<Finder>, F2: Into<Finder>>(j: &mut Json, f0: F0, f1: F1, f2: F2, l: &mut Ghost<Seq<int>>) -> (r: Result<Json, Error>)
    ensures
        exists|x0: Finder, x1: Finder, x2: Finder| #[trigger] into_as(f0, x0) && #[trigger] into_as(f1, x1) && #[trigger] into_as(f2, x2) && exists|q: Path| #[trigger] pv(q) == seq![sv(x0), sv(x1), sv(x2)] && match r {
            Ok(x) => get_path(jv(*old(j)), pv(q)) == Ok::<JV, ErrorKind>(jv(x)) && jv(*final(j)) == del_path(jv(*old(j)), pv(q)),
            Err(e) => get_path(jv(*old(j)), pv(q)) == Err::<JV, ErrorKind>(e.kind) && jv(*final(j)) == jv(*old(j)),
        },
        final(l)@ =~= old(l)@ + seq![0int, 1int, 2int],
{ discard!(j, vx_op(l, 0, f0), vx_op(l, 1, f1), vx_op(l, 2, f2)) }

//@macro update!/3
fn vx_update3<'a, V: ToJson, F0: Into<Finder>, F1: Into<Finder>, F2: Into<Finder>>(j: &'a mut Json, v: V, f0: F0, f1: F1, f2: F2, l: &mut Ghost<Seq<int>>) -> (r: Result<&'a mut Json, Error>)
    ensures
        exists|x0: Finder, x1: Finder, x2: Finder| #[trigger] into_as(f0, x0) && #[trigger] into_as(f1, x1) && #[trigger] into_as(f2, x2) && exists|q: Path| #[trigger] pv(q) == seq![sv(x0), sv(x1), sv(x2)] && match r {
            Ok(x) => v.enc(jv(*x)) && jv(*final(j)) == set_path(jv(*old(j)), pv(q), jv(*final(x))),
            Err(e) => e.kind is IndexOutOfRange && path_no_room(pv(q)),
        },
        final(l)@ =~= old(l)@ + seq![0int, 1int, 2int, 3int],
{ update!(vx_op(l, 3, v) => j, vx_op(l, 0, f0), vx_op(l, 1, f1), vx_op(l, 2, f2)) }

//@macro path!/4
fn vx_path4<F0: Into<Finder>, F1: Into<Finder>, F2: Into<Finder>, F3: Into<Finder>>(f0: F0, f1: F1, f2: F2, f3: F3, l: &mut Ghost<Seq<int>>) -> (r: Path)
    ensures exists|x0: Finder, x1: Finder, x2: Finder, x3: Finder| #[trigger] into_as(f0, x0) && #[trigger] into_as(f1, x1) && #[trigger] into_as(f2, x2) && #[trigger] into_as(f3, x3) && pv(r) == seq![sv(x0), sv(x1), sv(x2), sv(x3)], final(l)@ =~= old(l)@ + seq![0int, 1int, 2int, 3int],
{ path!(vx_op(l, 0, f0), vx_op(l, 1, f1), vx_op(l, 2, f2), vx_op(l, 3, f3)) }

//@macro find!/4
fn vx_find4<'a, F0: Into<Finder>, F1: Into<Finder>, F2: Into<Finder>, F3: Into<Finder>>(j: &'a Json, f0: F0, f1: F1, f2: F2, f3: F3, l: &mut Ghost<Seq<int>>) -> (r: Result<&'a Json, Error>)
    ensures
        exists|x0: Finder, x1: Finder, x2: Finder, x3: Finder| #[trigger] into_as(f0, x0) && #[trigger] into_as(f1, x1) && #[trigger] into_as(f2, x2) && #[trigger] into_as(f3, x3) && exists|q: Path| #[trigger] pv(q) == seq![sv(x0), sv(x1), sv(x2), sv(x3)] && match get_path(jv(*j), pv(q)) {
            Ok(x) => r matches Ok(y) && jv(*y) == x,
            Err(k) => r matches Err(e) && e.kind == k,
        },
        final(l)@ =~= old(l)@ + seq![0int, 1int, 2int, 3int],
{ find!(j, vx_op(l, 0, f0), vx_op(l, 1, f1), vx_op(l, 2, f2), vx_op(l, 3, f3)) }

//@macro discard!/4
fn vx_discard4<F0: Into<Finder>, F1: Into<Finder>, F2: Into<Finder>, F3: Into<Finder>>(j: &mut Json, f0: F0, f1: F1, f2: F2, f3: F3, l: &mut Ghost<Seq<int>>) -> (r: Result<Json, Error>)
    ensures
        exists|x0: Finder, x1: Finder, x2: Finder, x3: Finder| #[trigger] into_as(f0, x0) && #[trigger] into_as(f1, x1) && #[trigger] into_as(f2, x2) && #[trigger] into_as(f3, x3) && exists|q: Path| #[trigger] pv(q) == seq![sv(x0), sv(x1), sv(x2), sv(x3)] && match r {
            Ok(x) => get_path(jv(*old(j)), pv(q)) == Ok::<JV, ErrorKind>(jv(x)) && jv(*final(j)) == del_path(jv(*old(j)), pv(q)),
            Err(e) => get_path(jv(*old(j)), pv(q)) == Err::<JV, ErrorKind>(e.kind) && jv(*final(j)) == jv(*old(j)),
        },
        final(l)@ =~= old(l)@ + seq![0int, 1int, 2int, 3int],
{ discard!(j, vx_op(l, 0, f0), vx_op(l, 1, f1), vx_op(l, 2, f2), vx_op(l, 3, f3)) }

//@macro update!/4
fn vx_update4<'a, V: ToJson, F0: Into<Finder>, F1: Into<Finder>, F2: Into<Finder>, F3: Into<Finder>>(j: &'a mut Json, v: V, f0: F0, f1: F1, f2: F2, f3: F3, l: &mut Ghost<Seq<int>>) -> (r: Result<&'a mut Json, Error>)
    ensures
        exists|x0: Finder, x1: Finder, x2: Finder, x3: Finder| #[trigger] into_as(f0, x0) && #[trigger] into_as(f1, x1) && #[trigger] into_as(f2, x2) && #[trigger] into_as(f3, x3) && exists|q: Path| #[trigger] pv(q) == seq![sv(x0), sv(x1), sv(x2), sv(x3)] && match r {
            Ok(x) => v.enc(jv(*x)) && jv(*final(j)) == set_path(jv(*old(j)), pv(q), jv(*final(x))),
            Err(e) => e.kind is IndexOutOfRange && path_no_room(pv(q)),
        },
        final(l)@ =~= old(l)@ + seq![0int, 1int, 2int, 3int, 4int],
{ update!(vx_op(l, 4, v) => j, vx_op(l, 0, f0), vx_op(l, 1, f1), vx_op(l, 2, f2), vx_op(l, 3, f3)) }

// ---- every arity: the expansion of an invocation with n operands is `before; each (n times); after`, and each part
// carries its own contract, for operands of any type

//@macro object!/n before
fn vx_object_before(l: &mut Ghost<Seq<int>>) -> (r: Json)
    ensures jv(r) == JV::Obj(Map::<Seq<char>, Seq<JV>>::empty()), final(l)@ == old(l)@,
{ @start object }

//@macro object!/n each
fn vx_object_each<K: ToString, V: ToJson>(vx_state: Json, k: K, v: V, l: &mut Ghost<Seq<int>>) -> (r: Json)
    requires jv(vx_state) is Obj
    ensures exists|x: JV| v.enc(x) && jv(r) == JV::Obj(obj_append(jv(vx_state)->Obj_0, k.to_string_spec(), x)), final(l)@ =~= old(l)@ + seq![0int, 1int],
{ @step object | vx_op(l, 0, k) | vx_op(l, 1, v) }

//@macro object!/n after
fn vx_object_after(vx_state: Json, l: &mut Ghost<Seq<int>>) -> (r: Json)
    ensures jv(r) == jv(vx_state), final(l)@ == old(l)@,
{ @finish object }

//@macro array!/n before
fn vx_array_before(l: &mut Ghost<Seq<int>>) -> (r: Vec<Json>)
    ensures r@.len() == 0, final(l)@ == old(l)@,
{ @start array }

//@macro array!/n each
fn vx_array_each<V: ToJson>(vx_state: Vec<Json>, v: V, l: &mut Ghost<Seq<int>>) -> (r: Vec<Json>)
    ensures r@.len() == vx_state@.len() + 1, v.enc(jv(r@[r@.len() - 1])), forall|i: int| 0 <= i < vx_state@.len() ==> #[trigger] r@[i] == vx_state@[i], final(l)@ =~= old(l)@ + seq![0int],
{ @step array | vx_op(l, 0, v) }

//@macro array!/n after
fn vx_array_after(vx_state: Vec<Json>, l: &mut Ghost<Seq<int>>) -> (r: Json)
    ensures jv(r) == JV::Arr(vx_state@.map_values(|x: Json| jv(x))), final(l)@ == old(l)@,
{ @finish array }

//@macro path!/n before
fn vx_path_before<F: Into<Finder>>(f: F, l: &mut Ghost<Seq<int>>) -> (r: Path)
    ensures exists|x: Finder| #[trigger] into_as(f, x) && pv(r) == seq![sv(x)], final(l)@ =~= old(l)@ + seq![0int],
{ @start path | vx_op(l, 0, f) }

//@macro path!/n each
fn vx_path_each<F: Into<Finder>>(vx_state: Path, f: F, l: &mut Ghost<Seq<int>>) -> (r: Path)
    ensures exists|x: Finder| #[trigger] into_as(f, x) && pv(r) == pv(vx_state).push(sv(x)), final(l)@ =~= old(l)@ + seq![0int],
{ @step path | vx_op(l, 0, f) }

//@macro find!/n before
fn vx_find_before<F: Into<Finder>>(f: F, l: &mut Ghost<Seq<int>>) -> (r: Path)
    ensures exists|x: Finder| #[trigger] into_as(f, x) && pv(r) == seq![sv(x)], final(l)@ =~= old(l)@ + seq![0int],
{ @start find | - | vx_op(l, 0, f) }

//@macro find!/n each
fn vx_find_each<F: Into<Finder>>(vx_state: Path, f: F, l: &mut Ghost<Seq<int>>) -> (r: Path)
    ensures exists|x: Finder| #[trigger] into_as(f, x) && pv(r) == pv(vx_state).push(sv(x)), final(l)@ =~= old(l)@ + seq![0int],
{ @step find | vx_op(l, 0, f) }

//@macro discard!/n before
fn vx_discard_before<F: Into<Finder>>(f: F, l: &mut Ghost<Seq<int>>) -> (r: Path)
    ensures exists|x: Finder| #[trigger] into_as(f, x) && pv(r) == seq![sv(x)], final(l)@ =~= old(l)@ + seq![0int],
{ @start discard | - | vx_op(l, 0, f) }

//@macro discard!/n each
fn vx_discard_each<F: Into<Finder>>(vx_state: Path, f: F, l: &mut Ghost<Seq<int>>) -> (r: Path)
    ensures exists|x: Finder| #[trigger] into_as(f, x) && pv(r) == pv(vx_state).push(sv(x)), final(l)@ =~= old(l)@ + seq![0int],
{ @step discard | vx_op(l, 0, f) }

//@macro update!/n before
fn vx_update_before<F: Into<Finder>>(f: F, l: &mut Ghost<Seq<int>>) -> (r: Path)
    ensures exists|x: Finder| #[trigger] into_as(f, x) && pv(r) == seq![sv(x)], final(l)@ =~= old(l)@ + seq![0int],
{ @start update | - | - | vx_op(l, 0, f) }

//@macro update!/n each
fn vx_update_each<F: Into<Finder>>(vx_state: Path, f: F, l: &mut Ghost<Seq<int>>) -> (r: Path)
    ensures exists|x: Finder| #[trigger] into_as(f, x) && pv(r) == pv(vx_state).push(sv(x)), final(l)@ =~= old(l)@ + seq![0int],
{ @step update | vx_op(l, 0, f) }

//@macro path!/n after
fn vx_path_after(vx_state: Path, l: &mut Ghost<Seq<int>>) -> (r: Path)
    ensures pv(r) == pv(vx_state), final(l)@ == old(l)@,
{ @finish path | - }

//@macro find!/n after
fn vx_find_after<'a>(vx_state: Path, j: &'a Json, l: &mut Ghost<Seq<int>>) -> (r: Result<&'a Json, Error>)
    ensures
        match get_path(jv(*j), pv(vx_state)) {
            Ok(x) => r matches Ok(y) && jv(*y) == x,
            Err(k) => r matches Err(e) && e.kind == k,
        },
        final(l)@ =~= old(l)@ + seq![0int],
{ @finish find | vx_op(l, 0, j) | - }

//@macro discard!/n after
fn vx_discard_after(vx_state: Path, j: &mut Json, l: &mut Ghost<Seq<int>>) -> (r: Result<Json, Error>)
    ensures
        match r {
            Ok(x) => get_path(jv(*old(j)), pv(vx_state)) == Ok::<JV, ErrorKind>(jv(x)) && jv(*final(j)) == del_path(jv(*old(j)), pv(vx_state)),
            Err(e) => get_path(jv(*old(j)), pv(vx_state)) == Err::<JV, ErrorKind>(e.kind) && jv(*final(j)) == jv(*old(j)),
        },
        final(l)@ == old(l)@,
{ @finish discard | j | - }

//@macro update!/n after
fn vx_update_after<'a, V: ToJson>(vx_state: Path, j: &'a mut Json, v: V, l: &mut Ghost<Seq<int>>) -> (r: Result<&'a mut Json, Error>)
    ensures
        match r {
            Ok(x) => v.enc(jv(*x)) && jv(*final(j)) == set_path(jv(*old(j)), pv(vx_state), jv(*final(x))),
            Err(e) => e.kind is IndexOutOfRange && path_no_room(pv(vx_state)),
        },
        final(l)@ =~= old(l)@ + seq![0int],
{ @finish update | vx_op(l, 0, v) | j | - }

} // verus!
