//@ fn Json::_kind
//@ ret r
//@ spec

//@ fn Json::add_option
//@ ret r
//@ spec
    ensures match jv(*old(self)) {
        JV::Obj(m) => r is Ok && jv(*final(self)) == JV::Obj(if append { obj_append(m, k@, jv(v)) } else { m.insert(k@, seq![jv(v)]) }),
        _ => failed(r, *old(self), *final(self), InvalidValueKind),
    },

//@ fn Json::insert
//@ ret r
//@ spec
    ensures match jv(*old(self)) {
        JV::Obj(m) => r is Ok && exists|w: JV| #[trigger] v.enc(w) && jv(*final(self)) == JV::Obj(m.insert(k.to_string_spec(), seq![w])),
        _ => failed(r, *old(self), *final(self), InvalidValueKind),
    },

//@ fn Json::append
//@ ret r
//@ spec
    ensures match jv(*old(self)) {
        JV::Obj(m) => r is Ok && exists|w: JV| #[trigger] v.enc(w) && jv(*final(self)) == JV::Obj(obj_append(m, k.to_string_spec(), w)),
        _ => failed(r, *old(self), *final(self), InvalidValueKind),
    },

//@ fn Json::delete
//@ ret r
//@ spec
    ensures match jv(*old(self)) {
        JV::Obj(m) => r is Ok && jv(*final(self)) == JV::Obj(m.remove(k@)),
        _ => failed(r, *old(self), *final(self), InvalidValueKind),
    },

//@ fn Json::push
//@ ret r
//@ spec
    ensures match jv(*old(self)) {
        JV::Arr(a) => r is Ok && exists|w: JV| #[trigger] e.enc(w) && jv(*final(self)) == JV::Arr(a.push(w)),
        _ => failed(r, *old(self), *final(self), InvalidValueKind),
    },

//@ fn Json::replace
//@ ret r
//@ spec
    ensures match jv(*old(self)) {
        JV::Arr(a) => if i < a.len() {
            r is Ok && exists|w: JV| #[trigger] v.enc(w) && jv(*final(self)) == JV::Arr(a.update(i as int, w))
        } else { failed(r, *old(self), *final(self), IndexOutOfRange) },
        _ => failed(r, *old(self), *final(self), InvalidValueKind),
    },

//@ fn Json::remove
//@ ret r
//@ spec
    ensures match jv(*old(self)) {
        JV::Arr(a) => if i < a.len() { r is Ok && jv(*final(self)) == JV::Arr(a.remove(i as int)) }
            else { failed(r, *old(self), *final(self), IndexOutOfRange) },
        _ => failed(r, *old(self), *final(self), InvalidValueKind),
    },

//@ fn Json::index_and_merge
//@ ret r
//@ spec
    ensures match jv(*self) {
        JV::Obj(m) => if m.dom().contains(k@) { r matches Ok(v) && refs(v@) == m[k@] } else { r matches Err(e) && e.kind is MissingKey },
        _ => r matches Err(e) && e.kind is InvalidValueKind,
    },

//@ fn Json::convert
//@ ret r
//@ spec
    ensures T::dec(jv(*self), r),

//@ trait ToJson
    /// `v` is a JSON value that may stand for `self`
    spec fn enc(&self, v: JV) -> bool;
//@ fn ToJson::to_json
//@ ret r
//@ spec
    ensures self.enc(jv(r)),

//@ trait FromJson
    /// `r` may be the result of converting a value
    spec fn dec(v: JV, r: Result<Self, Error>) -> bool;
//@ fn FromJson::from_json
//@ ret r
//@ spec
    ensures Self::dec(jv(*json), r),
