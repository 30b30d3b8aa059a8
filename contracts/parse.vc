//@ fn Error::new
//@ ret r
//@ spec
    ensures r.kind == kind,

//@ fn is_whitespace
//@ ret r
//@ spec
    ensures r == ws(c),

//@ fn parse_hex_digit
//@ ret r
//@ spec
    ensures match r { Ok(d) => hexd(ch) >= 0 && d == hexd(ch), Err(e) => hexd(ch) < 0 && e.kind is ParseStringError },

//@ fn encode_utf8
//@ ret r
//@ spec
    requires u <= 0x10FFFF,
    ensures r@ == utf8_1(u as int),
//@ entry
    proof { lemma_utf8_bits(u); }

//@ fn valid_number
//@ ret r
//@ loops loop loop loop
//@ spec
    ensures r == num_text(num@, true),
//@ loop 0
    invariant num_frac(drop_digits(iter.left()), true) == num_text(num@, true),
    ensures num_frac(iter.left(), true) == num_text(num@, true),
    decreases iter.left().len(),
//@ loop 1
    invariant num_exp(drop_digits(iter.left()), true) == num_text(num@, true),
    ensures num_exp(iter.left(), true) == num_text(num@, true),
    decreases iter.left().len(),
//@ loop 2
    invariant (drop_digits(iter.left()).len() == 0) == num_text(num@, true),
    ensures (iter.left().len() == 0) == num_text(num@, true),
    decreases iter.left().len(),

//@ fn Json::parse
//@ ret r
//@ spec
    ensures agrees(r, sp(json@)),
    decreases json@.len(), 3int,
//@ entry
    proof { lemma_trim_len(json@); }

//@ fn Json::_parse
//@ ret r
//@ spec
    ensures agrees(r, spt(json@)),
    decreases json@.len(), 2int,

//@ fn Json::parse_null
//@ ret r
//@ spec
    requires json@.len() > 0, json@[0] == 'n',
    ensures agrees(r, spt(json@)),

//@ fn Json::parse_boolean
//@ ret r
//@ spec
    requires json@.len() > 0, json@[0] == 't' || json@[0] == 'f',
    ensures agrees(r, spt(json@)),
//@ entry
    proof { axiom_str_ext(json, "true"); axiom_str_ext(json, "false"); reveal_strlit("true"); reveal_strlit("false"); }

//@ fn Json::parse_number
//@ ret r
//@ spec
    requires json@.len() > 0, json@[0] == '-' || dig(json@[0]),
    ensures agrees(r, spt(json@)),
//@ entry
    proof { lemma_number_lax(json@); }

//@ fn Json::parse_string
//@ ret r
//@ loops loop loop for for
//@ spec
    requires json@.len() > 0, json@[0] == '"',
    ensures agrees(r, spt(json@)),
//@ loop 0
    invariant spt(json@) == opt_str(str_k(iter.left(), s@)),
    decreases iter.left().len(),
//@ loop 0 begin
    let ghost n0 = iter.left().len();
//@ loop 1
    invariant spt(json@) == (if all_ws(iter.left()) { Some(JV::Str(s@)) } else { None }),
    ensures spt(json@) == Some(JV::Str(s@)),
    decreases iter.left().len(),
//@ loop 2
    invariant
        spt(json@) == opt_str(str_u(iter.left(), 4 - vx_k2, u as int, s@)),
        u < pow16(vx_k2 as int),
        iter.left().len() < n0,
//@ loop 3
    invariant
        spt(json@) == opt_str(str_u2(iter.left(), 4 - vx_k3, u2 as int, u as int, s@)),
        u2 < pow16(vx_k3 as int),
        iter.left().len() < n0,

//@ fn Json::parse_array
//@ ret r
//@ loops loop loop
//@ spec
    requires json@.len() > 0, json@[0] == '[',
    ensures agrees(r, spt(json@)),
    decreases json@.len(), 1int,
//@ entry
    proof { axiom_str_len(json); }
//@ loop 0
    invariant
        spt(json@) == opt_arr(arr_k(iter.left(), jarr(array@), inner@, i as int, j == 1)),
        0 <= j <= 1,
        inner@.len() + iter.left().len() + 1 <= json@.len(),
        -(json@.len() - iter.left().len()) <= i <= json@.len() - iter.left().len(),
        json@.len() <= isize::MAX,
    decreases iter.left().len(),
//@ loop 1
    invariant spt(json@) == (if all_ws(iter.left()) { Some(JV::Arr(jarr(array@))) } else { None }),
    ensures spt(json@) == Some(JV::Arr(jarr(array@))),
    decreases iter.left().len(),

//@ fn Json::parse_object
//@ ret r
//@ loops loop loop loop
//@ spec
    requires json@.len() > 0, json@[0] == '{',
    ensures agrees(r, spt(json@)),
    decreases json@.len(), 1int,
//@ entry
    proof { axiom_str_len(json); }
//@ loop 0
    invariant
        spt(json@) == opt_obj(obj_k(iter.left(), jmap(object@), k@, v@, on_key, i as int, j == 1)),
        0 <= j <= 1,
        k@.len() + v@.len() + iter.left().len() + 1 <= json@.len(),
        -(json@.len() - iter.left().len()) <= i <= json@.len() - iter.left().len(),
        json@.len() <= isize::MAX,
    decreases iter.left().len(),
//@ loop 1
    invariant spt(json@) == (if all_ws(iter.left()) { Some(JV::Obj(jmap(object@))) } else { None }),
    ensures spt(json@) == Some(JV::Obj(jmap(object@))),
    decreases iter.left().len(),
//@ loop 2
    invariant spt(json@) == (if all_ws(iter.left()) { Some(JV::Obj(jmap(object@))) } else { None }),
    ensures spt(json@) == Some(JV::Obj(jmap(object@))),
    decreases iter.left().len(),

//@ fn object_insert
//@ spec
    ensures jmap(final(object)@) == obj_append(jmap(old(object)@), key@, jv(json)),
