//@ impl <u8 as ToJson>
    open spec fn enc(&self, v: JV) -> bool { v matches JV::Num(f) && float_cast_spec::<u8, f64>(*self, f) }
//@ fn <u8 as ToJson>::to_json
//@ impl <&u8 as ToJson>
    open spec fn enc(&self, v: JV) -> bool { v matches JV::Num(f) && float_cast_spec::<u8, f64>(**self, f) }
//@ fn <&u8 as ToJson>::to_json
//@ impl <u8 as FromJson>
    open spec fn dec(v: JV, r: Result<Self, Error>) -> bool {
        match v { JV::Num(n) => r matches Ok(x) && float_cast_spec::<f64, u8>(n, x), _ => conv_err(r) }
    }
//@ fn <u8 as FromJson>::from_json

//@ impl <u16 as ToJson>
    open spec fn enc(&self, v: JV) -> bool { v matches JV::Num(f) && float_cast_spec::<u16, f64>(*self, f) }
//@ fn <u16 as ToJson>::to_json
//@ impl <&u16 as ToJson>
    open spec fn enc(&self, v: JV) -> bool { v matches JV::Num(f) && float_cast_spec::<u16, f64>(**self, f) }
//@ fn <&u16 as ToJson>::to_json
//@ impl <u16 as FromJson>
    open spec fn dec(v: JV, r: Result<Self, Error>) -> bool {
        match v { JV::Num(n) => r matches Ok(x) && float_cast_spec::<f64, u16>(n, x), _ => conv_err(r) }
    }
//@ fn <u16 as FromJson>::from_json

//@ impl <u32 as ToJson>
    open spec fn enc(&self, v: JV) -> bool { v matches JV::Num(f) && float_cast_spec::<u32, f64>(*self, f) }
//@ fn <u32 as ToJson>::to_json
//@ impl <&u32 as ToJson>
    open spec fn enc(&self, v: JV) -> bool { v matches JV::Num(f) && float_cast_spec::<u32, f64>(**self, f) }
//@ fn <&u32 as ToJson>::to_json
//@ impl <u32 as FromJson>
    open spec fn dec(v: JV, r: Result<Self, Error>) -> bool {
        match v { JV::Num(n) => r matches Ok(x) && float_cast_spec::<f64, u32>(n, x), _ => conv_err(r) }
    }
//@ fn <u32 as FromJson>::from_json

//@ impl <u64 as ToJson>
    open spec fn enc(&self, v: JV) -> bool { v matches JV::Num(f) && float_cast_spec::<u64, f64>(*self, f) }
//@ fn <u64 as ToJson>::to_json
//@ impl <&u64 as ToJson>
    open spec fn enc(&self, v: JV) -> bool { v matches JV::Num(f) && float_cast_spec::<u64, f64>(**self, f) }
//@ fn <&u64 as ToJson>::to_json
//@ impl <u64 as FromJson>
    open spec fn dec(v: JV, r: Result<Self, Error>) -> bool {
        match v { JV::Num(n) => r matches Ok(x) && float_cast_spec::<f64, u64>(n, x), _ => conv_err(r) }
    }
//@ fn <u64 as FromJson>::from_json

//@ impl <u128 as ToJson>
    open spec fn enc(&self, v: JV) -> bool { v matches JV::Num(f) && float_cast_spec::<u128, f64>(*self, f) }
//@ fn <u128 as ToJson>::to_json
//@ impl <&u128 as ToJson>
    open spec fn enc(&self, v: JV) -> bool { v matches JV::Num(f) && float_cast_spec::<u128, f64>(**self, f) }
//@ fn <&u128 as ToJson>::to_json
//@ impl <u128 as FromJson>
    open spec fn dec(v: JV, r: Result<Self, Error>) -> bool {
        match v { JV::Num(n) => r matches Ok(x) && float_cast_spec::<f64, u128>(n, x), _ => conv_err(r) }
    }
//@ fn <u128 as FromJson>::from_json

//@ impl <usize as ToJson>
    open spec fn enc(&self, v: JV) -> bool { v matches JV::Num(f) && float_cast_spec::<u64, f64>(*self as u64, f) }
//@ fn <usize as ToJson>::to_json
//@ impl <&usize as ToJson>
    open spec fn enc(&self, v: JV) -> bool { v matches JV::Num(f) && float_cast_spec::<u64, f64>(**self as u64, f) }
//@ fn <&usize as ToJson>::to_json
//@ impl <usize as FromJson>
    open spec fn dec(v: JV, r: Result<Self, Error>) -> bool {
        match v { JV::Num(n) => r matches Ok(x) && float_cast_spec::<f64, u64>(n, x as u64), _ => conv_err(r) }
    }
//@ fn <usize as FromJson>::from_json

//@ impl <i8 as ToJson>
    open spec fn enc(&self, v: JV) -> bool { v matches JV::Num(f) && float_cast_spec::<i8, f64>(*self, f) }
//@ fn <i8 as ToJson>::to_json
//@ impl <&i8 as ToJson>
    open spec fn enc(&self, v: JV) -> bool { v matches JV::Num(f) && float_cast_spec::<i8, f64>(**self, f) }
//@ fn <&i8 as ToJson>::to_json
//@ impl <i8 as FromJson>
    open spec fn dec(v: JV, r: Result<Self, Error>) -> bool {
        match v { JV::Num(n) => r matches Ok(x) && float_cast_spec::<f64, i8>(n, x), _ => conv_err(r) }
    }
//@ fn <i8 as FromJson>::from_json

//@ impl <i16 as ToJson>
    open spec fn enc(&self, v: JV) -> bool { v matches JV::Num(f) && float_cast_spec::<i16, f64>(*self, f) }
//@ fn <i16 as ToJson>::to_json
//@ impl <&i16 as ToJson>
    open spec fn enc(&self, v: JV) -> bool { v matches JV::Num(f) && float_cast_spec::<i16, f64>(**self, f) }
//@ fn <&i16 as ToJson>::to_json
//@ impl <i16 as FromJson>
    open spec fn dec(v: JV, r: Result<Self, Error>) -> bool {
        match v { JV::Num(n) => r matches Ok(x) && float_cast_spec::<f64, i16>(n, x), _ => conv_err(r) }
    }
//@ fn <i16 as FromJson>::from_json

//@ impl <i32 as ToJson>
    open spec fn enc(&self, v: JV) -> bool { v matches JV::Num(f) && float_cast_spec::<i32, f64>(*self, f) }
//@ fn <i32 as ToJson>::to_json
//@ impl <&i32 as ToJson>
    open spec fn enc(&self, v: JV) -> bool { v matches JV::Num(f) && float_cast_spec::<i32, f64>(**self, f) }
//@ fn <&i32 as ToJson>::to_json
//@ impl <i32 as FromJson>
    open spec fn dec(v: JV, r: Result<Self, Error>) -> bool {
        match v { JV::Num(n) => r matches Ok(x) && float_cast_spec::<f64, i32>(n, x), _ => conv_err(r) }
    }
//@ fn <i32 as FromJson>::from_json

//@ impl <i64 as ToJson>
    open spec fn enc(&self, v: JV) -> bool { v matches JV::Num(f) && float_cast_spec::<i64, f64>(*self, f) }
//@ fn <i64 as ToJson>::to_json
//@ impl <&i64 as ToJson>
    open spec fn enc(&self, v: JV) -> bool { v matches JV::Num(f) && float_cast_spec::<i64, f64>(**self, f) }
//@ fn <&i64 as ToJson>::to_json
//@ impl <i64 as FromJson>
    open spec fn dec(v: JV, r: Result<Self, Error>) -> bool {
        match v { JV::Num(n) => r matches Ok(x) && float_cast_spec::<f64, i64>(n, x), _ => conv_err(r) }
    }
//@ fn <i64 as FromJson>::from_json

//@ impl <i128 as ToJson>
    open spec fn enc(&self, v: JV) -> bool { v matches JV::Num(f) && float_cast_spec::<i128, f64>(*self, f) }
//@ fn <i128 as ToJson>::to_json
//@ impl <&i128 as ToJson>
    open spec fn enc(&self, v: JV) -> bool { v matches JV::Num(f) && float_cast_spec::<i128, f64>(**self, f) }
//@ fn <&i128 as ToJson>::to_json
//@ impl <i128 as FromJson>
    open spec fn dec(v: JV, r: Result<Self, Error>) -> bool {
        match v { JV::Num(n) => r matches Ok(x) && float_cast_spec::<f64, i128>(n, x), _ => conv_err(r) }
    }
//@ fn <i128 as FromJson>::from_json

//@ impl <isize as ToJson>
    open spec fn enc(&self, v: JV) -> bool { v matches JV::Num(f) && float_cast_spec::<i64, f64>(*self as i64, f) }
//@ fn <isize as ToJson>::to_json
//@ impl <&isize as ToJson>
    open spec fn enc(&self, v: JV) -> bool { v matches JV::Num(f) && float_cast_spec::<i64, f64>(**self as i64, f) }
//@ fn <&isize as ToJson>::to_json
//@ impl <isize as FromJson>
    open spec fn dec(v: JV, r: Result<Self, Error>) -> bool {
        match v { JV::Num(n) => r matches Ok(x) && float_cast_spec::<f64, i64>(n, x as i64), _ => conv_err(r) }
    }
//@ fn <isize as FromJson>::from_json

//@ impl <f32 as ToJson>
    open spec fn enc(&self, v: JV) -> bool { v matches JV::Num(f) && float_cast_spec::<f32, f64>(*self, f) }
//@ fn <f32 as ToJson>::to_json
//@ impl <&f32 as ToJson>
    open spec fn enc(&self, v: JV) -> bool { v matches JV::Num(f) && float_cast_spec::<f32, f64>(**self, f) }
//@ fn <&f32 as ToJson>::to_json
//@ impl <f32 as FromJson>
    open spec fn dec(v: JV, r: Result<Self, Error>) -> bool {
        match v { JV::Num(n) => r matches Ok(x) && float_cast_spec::<f64, f32>(n, x), _ => conv_err(r) }
    }
//@ fn <f32 as FromJson>::from_json

//@ impl <f64 as ToJson>
    open spec fn enc(&self, v: JV) -> bool { v matches JV::Num(f) && f == *self }
//@ fn <f64 as ToJson>::to_json
//@ impl <&f64 as ToJson>
    open spec fn enc(&self, v: JV) -> bool { v matches JV::Num(f) && f == **self }
//@ fn <&f64 as ToJson>::to_json
//@ impl <f64 as FromJson>
    open spec fn dec(v: JV, r: Result<Self, Error>) -> bool {
        match v { JV::Num(n) => r matches Ok(x) && x == n, _ => conv_err(r) }
    }
//@ fn <f64 as FromJson>::from_json
