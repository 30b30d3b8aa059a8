//@ fn <Json as ToString>::to_string
//@ loops for
//@ ret r
//@ flag fmt
//@ spec
    ensures r@ == ser(jv(*self)),
    decreases self,
//@ entry
    let ghost vx_m = match self { Json::Object(m) => m@, _ => Map::empty() };
    proof { lemma_lits(); match self { Json::Object(m) => lemma_jv_object(*m), Json::Array(v) => lemma_jv_array(*v), Json::Number(f) => axiom_disp_f64(f), _ => {} } }
//@ closure 0
    |vx_p0: &(&String, &(Json, LinkedList<Json>)), vx_p1: &(&String, &(Json, LinkedList<Json>))| -> (vx_o: std::cmp::Ordering)
        ensures vx_o == str_ord(vx_p0.0@, vx_p1.0@)
//@ before .sort_by 0
    let ghost vx_a = obj@;
//@ after .sort_by 0
    proof { lemma_sorted_entries(vx_a, obj@, vx_m); }
//@ loop map0
    invariant
        self is Object && self->Object_0@ == vx_m,
        lists_sorted(obj@, vx_m),
        texts(vx_r0@).len() == vx_ic0.index@,
        forall|i: int| 0 <= i < texts(vx_r0@).len() ==> (#[trigger] texts(vx_r0@)[i]) == join(members(jmap(vx_m), sorted_keys(jmap(vx_m).dom())[i]), comma()),
//@ loop map0 begin
    proof { lemma_obj_dec(*self, **k); lemma_members(vx_m, **k); lemma_lits(); }
    let ghost vx_ps = members(jmap(vx_m), k@);
    let ghost vx_js = *js;
//@ loop 0
    invariant
        s@ == jpre(vx_ps.take(vx_it0.index@ as int), comma()),
        members_of(vx_ps, k@, vx_js, ll(list)),
        forall|i: int| 0 <= i < ll(list).len() ==> decreases_to!(*self => #[trigger] ll(list)[i]),
//@ loop 0 begin
    let ghost vx_n = vx_it0.index@ as int;
    let ghost vx_s0 = s@;
    proof {
        lemma_lits(); lemma_jpre(vx_ps, comma(), vx_n);
        assert(*js == ll(list)[ll(list).len() - 1 - vx_n]);
    }
//@ loop 0 end
    proof { assert(s@ =~= vx_s0 + vx_ps[vx_n] + comma()); }
//@ loop 0 after
    proof { lemma_lits(); lemma_jpre(vx_ps, comma(), ll(list).len() as int); assert(vx_ps.take(vx_ps.len() as int) =~= vx_ps); }
//@ loop map0 end
    proof {
        assert(vx_y@ =~= jpre(vx_ps.take(ll(list).len() as int), comma()) + vx_ps[ll(list).len() as int]);
        assert(vx_y@ == join(vx_ps, comma()));
    }
//@ loop map0 after
    proof { lemma_sorted_dom(vx_m, obj@); assert(texts(vx_r0@) =~= ser_objs(jmap(vx_m), sorted_keys(jmap(vx_m).dom()), sorted_keys(jmap(vx_m).dom()).len() as int)); }
//@ loop map1 after
    proof { assert(texts(vx_r1@) =~= ser_list(jarr(vec@), vec@.len() as int)); }
//@ loop map1
    invariant
        self is Array && self->Array_0 == *vec,
        texts(vx_r1@).len() == vx_ic1.index@,
        forall|i: int| 0 <= i < texts(vx_r1@).len() ==> (#[trigger] texts(vx_r1@)[i]) == ser(jv(vec@[i])),

//@ fn escape
//@ ret r
//@ loops for
//@ spec
    ensures r@ == esc(input@),
//@ loop 0
    invariant output@ == seq!['"'] + esc_body(input@.take(vx_it0.index@ as int)),
//@ loop 0 begin
    let ghost vx_n = vx_it0.index@ as int;
    proof {
        lemma_lits();
        assert(input@.take(vx_n + 1).drop_last() =~= input@.take(vx_n));
        assert(esc_body(input@.take(vx_n + 1)) == esc_body(input@.take(vx_n)) + esc1(input@[vx_n]));
    }
//@ loop 0 after
    proof { assert(input@.take(input@.len() as int) =~= input@); }

//@ fn hex
//@ ret r
//@ loops while for
//@ spec
    requires u <= 0xFFFF,
    ensures r@ == hex4(u as int),
//@ entry
    let ghost vx_u = u;
    proof { lemma_lits(); }
//@ loop 0
    invariant
        vx_u <= 0xFFFF, vec@.len() <= 4, u == vx_u as int / pow16(vec@.len() as int), vec@.len() < 4 || u == 0,
        forall|i: int| 0 <= i < vec@.len() ==> vec@[i] == hexch(vx_u as int / pow16(i) % 16),
    decreases u,
//@ loop 0 begin
    proof { lemma_hex_step(vx_u as int, vec@.len() as int); }
//@ loop 0 after
    proof { lemma_hex_step(vx_u as int, vec@.len() as int); }
//@ after .reverse 0
    proof { assert(vec@ =~= hex4(vx_u as int)); }
//@ loop 1
    invariant
        vec@.len() == vx_k1, vx_u <= 0xFFFF,
        forall|i: int| 0 <= i < vec@.len() ==> vec@[i] == hexch(vx_u as int / pow16(i) % 16),
        forall|i: int| vec@.len() <= i < 4 ==> '0' == hexch(vx_u as int / pow16(i) % 16),
