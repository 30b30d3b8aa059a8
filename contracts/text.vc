//@ fn encode
//@ ret r
//@ spec
    ensures exists|v: JV| #[trigger] x.enc(v) && r@ == ser(v),
//@ fn decode
//@ ret r
//@ spec
    ensures match sp(json@) { None => parse_err(r), Some(v) => T::dec(v, r) },
//@ fn get
//@ ret r
//@ spec
    ensures match sp(json@) {
        None => parse_err(r),
        Some(v) => match opt_path(path@) {
            None => r matches Err(e) && e.kind is PathSyntaxError,
            Some(p) => match get_path(v, p) { Ok(x) => T::dec(x, r), Err(k) => r matches Err(e) && e.kind == k },
        },
    },
//@ fn set
//@ ret r
//@ spec
    ensures match sp(json@) {
        None => parse_err(r),
        Some(v) => match opt_path(path@) {
            None => r matches Err(e) && e.kind is PathSyntaxError,
            Some(p) => match r {
                Ok(t) => exists|w: JV| #[trigger] x.enc(w) && t@ == ser(set_path(v, p, w)),
                Err(e) => e.kind is IndexOutOfRange && path_no_room(p),
            },
        },
    },
//@ fn del
//@ ret r
//@ spec
    ensures match sp(json@) {
        None => parse_err(r),
        Some(v) => match opt_path(path@) {
            None => r matches Err(e) && e.kind is PathSyntaxError,
            Some(p) => match get_path(v, p) {
                Ok(x) => r matches Ok(t) && t@ == ser(del_path(v, p)),
                Err(k) => r matches Err(e) && e.kind == k,
            },
        },
    },
