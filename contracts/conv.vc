//@ fn <Json as FromStr>::from_str
//@ ret r

//@ impl <Json as ToJson>
    open spec fn enc(&self, v: JV) -> bool { v == jv(*self) }
//@ fn <Json as ToJson>::to_json
//@ impl <Json as FromJson>
    open spec fn dec(v: JV, r: Result<Self, Error>) -> bool { r matches Ok(j) && jv(j) == v }
//@ fn <Json as FromJson>::from_json

//@ impl <String as ToJson>
    open spec fn enc(&self, v: JV) -> bool { v == JV::Str(self@) }
//@ fn <String as ToJson>::to_json
//@ impl <str as ToJson>
    open spec fn enc(&self, v: JV) -> bool { v == JV::Str(self@) }
//@ fn <str as ToJson>::to_json
//@ impl <&str as ToJson>
    open spec fn enc(&self, v: JV) -> bool { v == JV::Str((*self)@) }
//@ fn <&str as ToJson>::to_json
//@ impl <String as FromJson>
    open spec fn dec(v: JV, r: Result<Self, Error>) -> bool {
        match v { JV::Str(s) => r matches Ok(x) && x@ == s, _ => conv_err(r) }
    }
//@ fn <String as FromJson>::from_json

//@ impl <bool as ToJson>
    open spec fn enc(&self, v: JV) -> bool { v == JV::Bool(*self) }
//@ fn <bool as ToJson>::to_json
//@ impl <&bool as ToJson>
    open spec fn enc(&self, v: JV) -> bool { v == JV::Bool(**self) }
//@ fn <&bool as ToJson>::to_json
//@ impl <bool as FromJson>
    open spec fn dec(v: JV, r: Result<Self, Error>) -> bool {
        match v { JV::Bool(b) => r matches Ok(x) && x == b, _ => conv_err(r) }
    }
//@ fn <bool as FromJson>::from_json

//@ impl <Vec<T> as ToJson>
    open spec fn enc(&self, v: JV) -> bool { enc_seq(self@, v) }
//@ fn <Vec<T> as ToJson>::to_json
//@ loop map0
    invariant
        vx_r0@.len() == vx_ic0.index@,
        forall|i: int| 0 <= i < vx_r0@.len() ==> self@[i].enc(#[trigger] jarr(vx_r0@)[i]),
//@ impl <&[T] as ToJson>
    open spec fn enc(&self, v: JV) -> bool { enc_seq((*self)@, v) }
//@ fn <&[T] as ToJson>::to_json
//@ loop map0
    invariant
        vx_r0@.len() == vx_ic0.index@,
        forall|i: int| 0 <= i < vx_r0@.len() ==> self@[i].enc(#[trigger] jarr(vx_r0@)[i]),
//@ impl <Vec<T> as FromJson>
    open spec fn dec(v: JV, r: Result<Self, Error>) -> bool {
        match v {
            JV::Arr(a) => match r {
                Ok(x) => x@.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> T::dec(#[trigger] a[i], Ok(x@[i])),
                Err(e) => dec_seq_err::<T>(a, e),
            },
            _ => conv_err(r),
        }
    }
//@ fn <Vec<T> as FromJson>::from_json
//@ loop map0
    invariant_except_break
        vx_e0 is None,
        vx_r0@.len() == vx_ic0.index@,
    invariant
        forall|i: int| 0 <= i < vx_r0@.len() ==> T::dec(#[trigger] jarr(v@)[i], Ok(vx_r0@[i])),
    ensures
        match vx_e0 {
            None => vx_r0@.len() == v@.len(),
            Some(e) => dec_seq_err::<T>(jarr(v@), e),
        },
//@ loop map0 begin
    proof { assert(jarr(v@)[vx_ic0.index@ as int] == jv(*vx_x)); }

//@ impl <Vec<(K,V)> as ToJson>
    open spec fn enc(&self, v: JV) -> bool { enc_kvs(self@, v) }
//@ fn <Vec<(K,V)> as ToJson>::to_json
//@ loops for
//@ entry
    let ghost mut vx_w: Seq<JV> = Seq::empty();
//@ loop 0
    invariant
        enc_kvs_upto(self@, vx_w, vx_it0.index@ as int),
        jmap(object@) == kv_obj(kv_keys(self@), vx_w, vx_it0.index@ as int),
//@ loop 0 begin
    let ghost vx_m = jmap(object@);
    let ghost vx_n = vx_it0.index@ as int;
//@ loop 0 end
    proof { 
        let x = choose|x: JV| v.enc(x) && jmap(object@) == obj_append(vx_m, k.to_string_spec(), x);
        lemma_kv_obj_push(kv_keys(self@), vx_w, x, vx_n);
        vx_w = vx_w.push(x);
    }
//@ impl <&[(K,V)] as ToJson>
    open spec fn enc(&self, v: JV) -> bool { enc_kvs((*self)@, v) }
//@ fn <&[(K,V)] as ToJson>::to_json
//@ loops for
//@ entry
    let ghost mut vx_w: Seq<JV> = Seq::empty();
//@ loop 0
    invariant
        enc_kvs_upto(self@, vx_w, vx_it0.index@ as int),
        jmap(object@) == kv_obj(kv_keys(self@), vx_w, vx_it0.index@ as int),
//@ loop 0 begin
    let ghost vx_m = jmap(object@);
    let ghost vx_n = vx_it0.index@ as int;
//@ loop 0 end
    proof {
        let x = choose|x: JV| v.enc(x) && jmap(object@) == obj_append(vx_m, k.to_string_spec(), x);
        lemma_kv_obj_push(kv_keys(self@), vx_w, x, vx_n);
        vx_w = vx_w.push(x);
    }
//@ impl <Vec<(K,V)> as FromJson>
    open spec fn dec(v: JV, r: Result<Self, Error>) -> bool {
        match v {
            JV::Obj(m) => match r {
                Ok(x) => dec_kvs_all(m, x@),
                Err(e) => dec_kv_err::<K, V>(m, e),
            },
            _ => conv_err(r),
        }
    }
//@ fn <Vec<(K,V)> as FromJson>::from_json
//@ loops for for
//@ entry
    let ghost vx_m = match json { Json::Object(m) => m@, _ => Map::empty() };
    proof { match json { Json::Object(m) => lemma_jv_object(*m), _ => {} } }
    let ghost mut vx_src: Seq<(Seq<char>, int)> = Seq::empty();
    let ghost mut vx_done: Seq<Seq<char>> = Seq::empty();
//@ loop 0
    invariant
        json is Object, json->Object_0@ == vx_m, jv(*json) == JV::Obj(jmap(vx_m)), lists(vx_it0.seq(), vx_m),
        vx_done.len() == vx_it0.index@,
        forall|i: int| 0 <= i < vx_done.len() ==> (#[trigger] vx_done[i]) == (*vx_it0.seq()[i].0)@,
        dec_kvs(jmap(vx_m), vec@, vx_src),
        forall|i: int| 0 <= i < vx_src.len() ==> vx_done.contains((#[trigger] vx_src[i]).0),
        forall|i: int, j: int| 0 <= i < vx_done.len() && 0 <= j < jmap(vx_m)[vx_done[i]].len() ==> #[trigger] vx_src.contains((vx_done[i], j)),
//@ loop 0 begin
    let ghost vx_n = vx_it0.index@ as int;
    let ghost vx_src0 = vx_src;
    proof {
        lemma_jmap_at(vx_m, *mk);
        assert forall|i: int| 0 <= i < vx_src.len() implies (#[trigger] vx_src[i]).0 != mk@ by {
            assert(vx_done.contains(vx_src[i].0));
            let t = choose|t: int| 0 <= t < vx_done.len() && vx_done[t] == vx_src[i].0;
            if vx_done[t] == mk@ {
                axiom_string_ext(*vx_it0.seq()[t].0, *mk);
                assert(vx_it0.seq()[t] == vx_it0.seq()[vx_n]);
            }
        }
    }
//@ loop 1
    invariant
        json is Object, jv(*json) == JV::Obj(jmap(vx_m)),
        vx_m.dom().contains(*mk), vx_m[*mk].1 == *mv, jmap(vx_m).dom().contains(mk@), jmap(vx_m)[mk@] == ent(vx_m[*mk]),
        dec_kvs(jmap(vx_m), vec@, vx_src),
        forall|i: int| 0 <= i < vx_src.len() ==> vx_done.contains((#[trigger] vx_src[i]).0) || vx_src[i].0 == mk@,
        forall|i: int| 0 <= i < vx_src.len() && (#[trigger] vx_src[i]).0 == mk@ ==> vx_src[i].1 < vx_it1.index@,
        forall|p: (Seq<char>, int)| vx_src0.contains(p) ==> #[trigger] vx_src.contains(p),
        forall|j: int| 0 <= j < vx_it1.index@ ==> #[trigger] vx_src.contains((mk@, j)),
//@ loop 1 begin
    let ghost vx_j = vx_it1.index@ as int;
    let ghost vx_old = vec@;
    proof {
        assert(jmap(vx_m)[mk@][vx_j] == jv(*mj));
        assert forall|f: K::Err, e: Error| #[trigger] K::from_str_spec(mk@, Err(f)) && (#[trigger] e.kind) is ConvertError implies dec_kv_err::<K, V>(jmap(vx_m), e) by { assert(bad_key::<K>(mk@)); }
        assert forall|e: Error| #[trigger] V::dec(jv(*mj), Err(e)) implies dec_kv_err::<K, V>(jmap(vx_m), e) by { assert(jmap(vx_m)[mk@][vx_j] == jv(*mj)); assert(dec_seq_err::<V>(jmap(vx_m)[mk@], e)); }
    }
//@ loop 1 end
    proof {
        assert(vec@ == vx_old.push(vec@.last()));
        lemma_dec_kvs_push(jmap(vx_m), vx_old, vx_src, mk@, vx_j, vec@.last());
        vx_src = vx_src.push((mk@, vx_j));
    }
//@ loop 1 after
    let ghost vx_j = ll(mv).len() as int;
    let ghost vx_old = vec@;
    proof {
        assert(jmap(vx_m)[mk@][vx_j] == jv(*mj));
        assert forall|f: K::Err, e: Error| #[trigger] K::from_str_spec(mk@, Err(f)) && (#[trigger] e.kind) is ConvertError implies dec_kv_err::<K, V>(jmap(vx_m), e) by { assert(bad_key::<K>(mk@)); }
        assert forall|e: Error| #[trigger] V::dec(jv(*mj), Err(e)) implies dec_kv_err::<K, V>(jmap(vx_m), e) by { assert(jmap(vx_m)[mk@][vx_j] == jv(*mj)); assert(dec_seq_err::<V>(jmap(vx_m)[mk@], e)); }
    }
//@ loop 0 end
    proof {
        assert(vec@ == vx_old.push(vec@.last()));
        lemma_dec_kvs_push(jmap(vx_m), vx_old, vx_src, mk@, vx_j, vec@.last());
        vx_src = vx_src.push((mk@, vx_j));
        let d0 = vx_done;
        vx_done = vx_done.push(mk@);
        assert forall|i: int| 0 <= i < vx_src.len() implies vx_done.contains((#[trigger] vx_src[i]).0) by {
            if d0.contains(vx_src[i].0) { let t = choose|t: int| 0 <= t < d0.len() && d0[t] == vx_src[i].0; assert(vx_done[t] == vx_src[i].0); }
            else { assert(vx_done[vx_n] == vx_src[i].0); }
        }
        assert forall|i: int, j: int| 0 <= i < vx_done.len() && 0 <= j < jmap(vx_m)[vx_done[i]].len() implies #[trigger] vx_src.contains((vx_done[i], j)) by {
            if i < vx_n { assert(vx_src0.contains((d0[i], j))); }
        }
    }
//@ loop 0 after
    proof {
        assert forall|k: Seq<char>, j: int| jmap(vx_m).dom().contains(k) && 0 <= j < jmap(vx_m)[k].len() implies #[trigger] vx_src.contains((k, j)) by {
            let kk = lemma_jmap_key(vx_m, k);
            let s = choose|s: Seq<Ent>| lists(s, vx_m) && s.len() == vx_done.len() && (forall|i: int| 0 <= i < s.len() ==> vx_done[i] == (#[trigger] s[i]).0@);
            assert(s.contains((&kk, &vx_m[kk])));
            let i = choose|i: int| 0 <= i < s.len() && s[i] == (&kk, &vx_m[kk]);
            assert(vx_done[i] == k);
        }
        assert(dec_kvs_all(jmap(vx_m), vec@));
    }

//@ impl <HashMap<K,V> as ToJson>
    open spec fn enc(&self, v: JV) -> bool { obeys_key_model::<K>() ==> enc_map(self@, v) }
//@ fn <HashMap<K,V> as ToJson>::to_json
//@ loops for
//@ loop 0
    invariant
        obeys_key_model::<K>() ==> enc_map_upto(self@, vx_it0.seq(), vx_it0.index@ as int, jmap(object@)),
        obeys_key_model::<K>() ==> map_listed(vx_it0.seq(), self@),
//@ loop 0 begin
    let ghost vx_m = jmap(object@);
    let ghost vx_n = vx_it0.index@ as int;
//@ loop 0 end
    proof {
        let x = choose|x: JV| v.enc(x) && jmap(object@) == vx_m.insert(k.to_string_spec(), seq![x]);
        if obeys_key_model::<K>() { lemma_enc_map_push(self@, vx_it0.seq(), vx_n, vx_m, x); }
    }

//@ impl <HashMap<K,V> as FromJson>
    open spec fn dec(v: JV, r: Result<Self, Error>) -> bool {
        match v {
            JV::Obj(m) => match r {
                Ok(x) => obeys_key_model::<K>() ==> dec_map(m, x@),
                Err(e) => dec_kv_err::<K, V>(m, e),
            },
            _ => conv_err(r),
        }
    }
//@ fn <HashMap<K,V> as FromJson>::from_json
//@ loops for
//@ entry
    let ghost vx_m = match json { Json::Object(m) => m@, _ => Map::empty() };
    proof { match json { Json::Object(m) => lemma_jv_object(*m), _ => {} } }
    let ghost mut vx_done: Seq<Seq<char>> = Seq::empty();
//@ loop 0
    invariant
        json is Object, json->Object_0@ == vx_m, jv(*json) == JV::Obj(jmap(vx_m)), lists(vx_it0.seq(), vx_m),
        vx_done.len() == vx_it0.index@,
        forall|i: int| 0 <= i < vx_done.len() ==> (#[trigger] vx_done[i]) == (*vx_it0.seq()[i].0)@,
        obeys_key_model::<K>() ==> dec_map_upto(jmap(vx_m), vx_done, map@),
//@ loop 0 begin
    let ghost vx_old = map@;
    proof {
        lemma_jmap_at(vx_m, *mk);
        assert(jmap(vx_m)[mk@].last() == jv(*mj));
        assert forall|f: K::Err, e: Error| #[trigger] K::from_str_spec(mk@, Err(f)) && (#[trigger] e.kind) is ConvertError implies dec_kv_err::<K, V>(jmap(vx_m), e) by { assert(bad_key::<K>(mk@)); }
        assert forall|e: Error| #[trigger] V::dec(jv(*mj), Err(e)) implies dec_kv_err::<K, V>(jmap(vx_m), e) by { assert(jmap(vx_m)[mk@][jmap(vx_m)[mk@].len() - 1] == jv(*mj)); assert(dec_seq_err::<V>(jmap(vx_m)[mk@], e)); }
    }
//@ loop 0 end
    proof {
        let (k, v) = choose|k: K, v: V| K::from_str_spec(mk@, Ok(k)) && V::dec(jv(*mj), Ok(v)) && (obeys_key_model::<K>() ==> map@ == vx_old.insert(k, v));
        if obeys_key_model::<K>() { lemma_dec_map_push(jmap(vx_m), vx_done, vx_old, mk@, k, v); }
        vx_done = vx_done.push(mk@);
    }
//@ loop 0 after
    proof {
        assert forall|k: Seq<char>| jmap(vx_m).dom().contains(k) implies vx_done.contains(k) by {
            let kk = lemma_jmap_key(vx_m, k);
            let s = choose|s: Seq<Ent>| lists(s, vx_m) && s.len() == vx_done.len() && (forall|i: int| 0 <= i < s.len() ==> vx_done[i] == (#[trigger] s[i]).0@);
            assert(s.contains((&kk, &vx_m[kk])));
            let i = choose|i: int| 0 <= i < s.len() && s[i] == (&kk, &vx_m[kk]);
            assert(vx_done[i] == k);
        }
    }

//@ impl <Option<T> as ToJson>
    open spec fn enc(&self, v: JV) -> bool { match *self { Some(x) => x.enc(v), None => v == JV::Null } }
//@ fn <Option<T> as ToJson>::to_json
//@ impl <Option<T> as FromJson>
    open spec fn dec(v: JV, r: Result<Self, Error>) -> bool {
        match v {
            JV::Null => r matches Ok(o) && o is None,
            _ => match r { Ok(Some(x)) => T::dec(v, Ok(x)), Ok(None) => false, Err(e) => T::dec(v, Err(e)) },
        }
    }
//@ fn <Option<T> as FromJson>::from_json
