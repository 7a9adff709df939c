// Shared by calc-wasm (the contract's libraries) and calc-sdk (the SDK's): evaluates one library function
// of an input line {"f":..,"a":[..]}.

type R = Result<Value, String>;

fn s(v: &Value) -> String {
    match v {
        Value::String(x) => x.clone(),
        x => x.to_string(),
    }
}
fn u256(v: &Value) -> U256 {
    U256::from_dec_str(&s(v)).expect("VH bad U256")
}
fn u512(v: &Value) -> U512 {
    U512::from_dec_str(&s(v)).expect("VH bad U512")
}
fn u128(v: &Value) -> u128 {
    s(v).parse().expect("VH bad u128")
}
fn u64_(v: &Value) -> u64 {
    s(v).parse().expect("VH bad u64")
}
fn i(v: &Value) -> i32 {
    v.as_i64().expect("VH bad int") as i32
}
fn sp16(v: &Value) -> u16 {
    v.as_i64().expect("VH bad int") as u16
}
fn b(v: &Value) -> bool {
    v.as_bool().expect("VH bad bool")
}
fn li(v: &Value) -> Liquidity {
    Liquidity::new(u256(v))
}
fn tk(v: &Value) -> TokenAmount {
    TokenAmount::new(u256(v))
}
fn pr(v: &Value) -> SqrtPrice {
    SqrtPrice::new(u128(v))
}
fn pc(v: &Value) -> Percentage {
    Percentage::new(u128(v))
}
fn fg(v: &Value) -> FeeGrowth {
    FeeGrowth::new(u128(v))
}
fn spl(v: &Value) -> SecondsPerLiquidity {
    SecondsPerLiquidity::new(u128(v))
}

trait J {
    fn j(self) -> Value;
}
macro_rules! j_dec { ($($t:ty),*) => { $(impl J for $t { fn j(self) -> Value { json!(self.get().to_string()) } })* } }
j_dec!(Liquidity, TokenAmount, SqrtPrice, Percentage, FeeGrowth, FixedPoint, SecondsPerLiquidity);
macro_rules! j_str { ($($t:ty),*) => { $(impl J for $t { fn j(self) -> Value { json!(self.to_string()) } })* } }
j_str!(u64, u128, U128, U192, U256, U320, U384, U448, U512);
macro_rules! j_int { ($($t:ty),*) => { $(impl J for $t { fn j(self) -> Value { json!(self) } })* } }
j_int!(i32, u8, u16, u32, bool);
impl J for Value {
    fn j(self) -> Value {
        self
    }
}
impl J for () {
    fn j(self) -> Value {
        json!(true)
    }
}
impl<A: J, B: J> J for (A, B) {
    fn j(self) -> Value {
        json!([self.0.j(), self.1.j()])
    }
}
impl<A: J, B: J, C: J> J for (A, B, C) {
    fn j(self) -> Value {
        json!([self.0.j(), self.1.j(), self.2.j()])
    }
}
impl<A: J> J for Option<A> {
    fn j(self) -> Value {
        match self {
            Some(x) => json!([x.j()]),
            None => json!([]),
        }
    }
}
#[cfg(feature = "swap")]
impl J for SwapResult {
    fn j(self) -> Value {
        json!([self.next_sqrt_price.j(), self.amount_in.j(), self.amount_out.j(), self.fee_amount.j()])
    }
}
#[cfg(feature = "liq")]
impl J for SingleTokenLiquidity {
    fn j(self) -> Value {
        json!([self.l.j(), self.amount.j()])
    }
}

fn y<T: J>(x: T) -> R {
    Ok(x.j())
}
fn r<T: J, E: core::fmt::Debug>(x: Result<T, E>) -> R {
    x.map(|v| v.j()).map_err(|e| format!("{:?}", e))
}

// ---- decimal types ----------------------------------------------------------------------------------
#[cfg(feature = "dec")]
trait Raw: Sized {
    fn raw(v: &Value) -> Self;
}
#[cfg(feature = "dec")]
macro_rules! raw256 { ($($t:ty),*) => { $(impl Raw for $t { fn raw(v: &Value) -> Self { <$t>::new(u256(v)) } })* } }
#[cfg(feature = "dec")]
macro_rules! raw128 { ($($t:ty),*) => { $(impl Raw for $t { fn raw(v: &Value) -> Self { <$t>::new(u128(v)) } })* } }
#[cfg(feature = "dec")]
raw256!(Liquidity, TokenAmount);
#[cfg(feature = "dec")]
raw128!(SqrtPrice, Percentage, FeeGrowth, FixedPoint, SecondsPerLiquidity);

#[cfg(feature = "dec")]
macro_rules! dec_big {
    ($op:expr, $a:expr, $t:ident, $u:ident) => {{
        let p = <$t as Raw>::raw(&$a[2]);
        let q = <$u as Raw>::raw(&$a[3]);
        match $op {
            "big_mul" => y(p.big_mul(q)),
            "big_mul_up" => y(p.big_mul_up(q)),
            "big_div" => y(p.big_div(q)),
            "big_div_up" => y(p.big_div_up(q)),
            "checked_big_div" => r(p.checked_big_div(q)),
            "big_mul_to_value" => y(p.big_mul_to_value(q)),
            "big_mul_to_value_up" => y(p.big_mul_to_value_up(q)),
            _ => Err(format!("VH unknown operation {}", $op)),
        }
    }};
}
#[cfg(feature = "dec")]
macro_rules! dec_same {
    ($op:expr, $a:expr, $t:ident, $u:ident) => {{
        let p = <$t as Raw>::raw(&$a[2]);
        let q = <$u as Raw>::raw(&$a[3]);
        match $op {
            "mul" => y(p * q),
            "mul_up" => y(p.mul_up(q)),
            "div" => y(p / q),
            "div_up" => y(p.div_up(q)),
            _ => dec_big!($op, $a, $t, $u),
        }
    }};
}
#[cfg(feature = "dec")]
macro_rules! dec_scale {
    ($op:expr, $a:expr, $t:ident, $u:ident) => {{
        let q = <$u as Raw>::raw(&$a[3]);
        match $op {
            "from_decimal" => y($t::from_decimal(q)),
            "checked_from_decimal" => r($t::checked_from_decimal(q)),
            "from_decimal_up" => y($t::from_decimal_up(q)),
            _ => Err(format!("VH unknown operation {}", $op)),
        }
    }};
}
#[cfg(feature = "dec")]
macro_rules! dec_value {
    ($a:expr, $t:ident, $u:ident, $big:ident) => {{
        let q = <$u as Raw>::raw(&$a[3]);
        r(<$t as BetweenDecimalsToValue<$u, $big>>::checked_from_decimal_to_value(q))
    }};
}
#[cfg(feature = "dec")]
macro_rules! dec_one {
    ($op:expr, $a:expr, $t:ident, $big:ident, $num:expr) => {{
        let p = <$t as Raw>::raw(&$a[2]);
        let num: $big = <$big>::from_dec_str(&s(&$a[3])).expect("VH bad number");
        match $op {
            "big_div_by_number" => y(p.big_div_by_number(num)),
            "big_div_by_number_up" => y(p.big_div_by_number_up(num)),
            "checked_big_div_by_number" => r(p.checked_big_div_by_number(num)),
            "checked_big_div_by_number_up" => r(p.checked_big_div_by_number_up(num)),
            "add" => y(p + <$t as Raw>::raw(&$a[3])),
            "sub" => y(p - <$t as Raw>::raw(&$a[3])),
            "add_assign" => y({ let mut z = p; z += <$t as Raw>::raw(&$a[3]); z }),
            "sub_assign" => y({ let mut z = p; z -= <$t as Raw>::raw(&$a[3]); z }),
            "mul_assign" => y({ let mut z = p; z *= <$t as Raw>::raw(&$a[3]); z }),
            "div_assign" => y({ let mut z = p; z /= <$t as Raw>::raw(&$a[3]); z }),
            "checked_add" => r(p.checked_add(<$t as Raw>::raw(&$a[3]))),
            "checked_sub" => r(p.checked_sub(<$t as Raw>::raw(&$a[3]))),
            "checked_div" => r(p.checked_div(<$t as Raw>::raw(&$a[3]))),
            "sub_abs" => y(p.sub_abs(<$t as Raw>::raw(&$a[3]))),
            "from_integer" => y($t::from_integer(($num)(&$a[2]))),
            "from_scale" => y($t::from_scale(($num)(&$a[2]), i(&$a[3]) as u8)),
            "from_scale_up" => y($t::from_scale_up(($num)(&$a[2]), i(&$a[3]) as u8)),
            "checked_from_scale" => r($t::checked_from_scale(($num)(&$a[2]), i(&$a[3]) as u8)),
            "from_scale_to_value" => r($t::checked_from_scale_to_value(($num)(&$a[2]), i(&$a[3]) as u8)),
            "one" => y($t::one()),
            "almost_one" => y($t::almost_one()),
            "max" => y($t::max_instance()),
            "is_zero" => y(p.is_zero()),
            _ => Err(format!("VH unknown operation {}", $op)),
        }
    }};
}

// [operation, type, operand, other operand (, other type)]
#[cfg(feature = "dec")]
fn dec(op: &str, a: &[Value]) -> R {
    let t = s(&a[1]);
    if a.len() == 4 {
        return match t.as_str() {
            "TokenAmount" => dec_one!(op, a, TokenAmount, U512, u256),
            "Liquidity" => dec_one!(op, a, Liquidity, U512, u256),
            "SqrtPrice" => dec_one!(op, a, SqrtPrice, U384, u128),
            "Percentage" => dec_one!(op, a, Percentage, U256, u128),
            "FeeGrowth" => dec_one!(op, a, FeeGrowth, U256, u128),
            "FixedPoint" => dec_one!(op, a, FixedPoint, U192, u128),
            "SecondsPerLiquidity" => dec_one!(op, a, SecondsPerLiquidity, U256, u128),
            _ => Err("VH unknown type".into()),
        };
    }
    let u = s(&a[4]);
    macro_rules! wide { ($t:ident, $big:ident) => { match u.as_str() {
        "TokenAmount" if op == "to_value" => dec_value!(a, $t, TokenAmount, $big),
        "Liquidity" if op == "to_value" => dec_value!(a, $t, Liquidity, $big),
        "SqrtPrice" if op == "to_value" => dec_value!(a, $t, SqrtPrice, $big),
        "Percentage" if op == "to_value" => dec_value!(a, $t, Percentage, $big),
        "FeeGrowth" if op == "to_value" => dec_value!(a, $t, FeeGrowth, $big),
        "FixedPoint" if op == "to_value" => dec_value!(a, $t, FixedPoint, $big),
        "SecondsPerLiquidity" if op == "to_value" => dec_value!(a, $t, SecondsPerLiquidity, $big),
        _ if op.contains("decimal") => match u.as_str() {
            "TokenAmount" => dec_scale!(op, a, $t, TokenAmount),
            "Liquidity" => dec_scale!(op, a, $t, Liquidity),
            "SqrtPrice" => dec_scale!(op, a, $t, SqrtPrice),
            "Percentage" => dec_scale!(op, a, $t, Percentage),
            "FeeGrowth" => dec_scale!(op, a, $t, FeeGrowth),
            "FixedPoint" => dec_scale!(op, a, $t, FixedPoint),
            "SecondsPerLiquidity" => dec_scale!(op, a, $t, SecondsPerLiquidity),
            _ => Err("VH unknown type".into()),
        },
        "TokenAmount" => dec_same!(op, a, $t, TokenAmount),
        "Liquidity" => dec_same!(op, a, $t, Liquidity),
        "SqrtPrice" => dec_same!(op, a, $t, SqrtPrice),
        "Percentage" => dec_same!(op, a, $t, Percentage),
        "FeeGrowth" => dec_same!(op, a, $t, FeeGrowth),
        "FixedPoint" => dec_same!(op, a, $t, FixedPoint),
        "SecondsPerLiquidity" => dec_same!(op, a, $t, SecondsPerLiquidity),
        _ => Err("VH unknown type".into()),
    } } }
    match t.as_str() {
        "TokenAmount" => wide!(TokenAmount, U512),
        "Liquidity" => wide!(Liquidity, U512),
        "SqrtPrice" => wide!(SqrtPrice, U384),
        "Percentage" => wide!(Percentage, U256),
        "FeeGrowth" => wide!(FeeGrowth, U256),
        "FixedPoint" => wide!(FixedPoint, U192),
        "SecondsPerLiquidity" => wide!(SecondsPerLiquidity, U256),
        _ => Err("VH unknown type".into()),
    }
}

// [from width, to width, value]
#[cfg(feature = "dec")]
fn cast(a: &[Value], checked: bool) -> R {
    macro_rules! to { ($from:ident, $v:expr) => {{
        let v: $from = $v;
        macro_rules! go { ($to:ident) => { if checked { r(<$to as UintCheckedCast<$from>>::uint_checked_cast(v).map(|z| json!(z.to_string()))) } else { y(json!(<$to as UintCast<$from>>::uint_cast(v).to_string())) } } }
        match s(&a[1]).as_str() {
            "8" => go!(u8), "16" => go!(u16), "32" => go!(u32), "64" => go!(u64), "128" => go!(u128),
            _ => cast_wide!(a, v, $from, checked),
        }
    }} }
    macro_rules! cast_wide { ($a:expr, $v:expr, $from:ident, $c:expr) => {{
        let n: U512 = U512::from_dec_str(&$v.to_string()).unwrap();
        // between two wide types: only different ones have a cast
        wide_cast(&s(&$a[0]), &s(&$a[1]), n, $c)
    }} }
    match s(&a[0]).as_str() {
        "128w" => to!(U128, U128::from_dec_str(&s(&a[2])).unwrap()),
        "192" => to!(U192, U192::from_dec_str(&s(&a[2])).unwrap()),
        "256" => to!(U256, U256::from_dec_str(&s(&a[2])).unwrap()),
        "320" => to!(U320, U320::from_dec_str(&s(&a[2])).unwrap()),
        "384" => to!(U384, U384::from_dec_str(&s(&a[2])).unwrap()),
        "448" => to!(U448, U448::from_dec_str(&s(&a[2])).unwrap()),
        "512" => to!(U512, U512::from_dec_str(&s(&a[2])).unwrap()),
        "prim" => {
            let n: u128 = u128(&a[2]);
            macro_rules! from { ($p:ident) => { match s(&a[1]).as_str() {
                "128w" => y(<U128 as UintCast<$p>>::uint_cast(n as $p)),
                "192" => y(<U192 as UintCast<$p>>::uint_cast(n as $p)),
                "256" => y(<U256 as UintCast<$p>>::uint_cast(n as $p)),
                "320" => y(<U320 as UintCast<$p>>::uint_cast(n as $p)),
                "384" => y(<U384 as UintCast<$p>>::uint_cast(n as $p)),
                "448" => y(<U448 as UintCast<$p>>::uint_cast(n as $p)),
                _ => y(<U512 as UintCast<$p>>::uint_cast(n as $p)),
            } } }
            if n <= u8::MAX as u128 { from!(u8) } else if n <= u16::MAX as u128 { from!(u16) } else if n <= u32::MAX as u128 { from!(u32) } else if n <= u64::MAX as u128 { from!(u64) } else { from!(u128) }
        }
        _ => Err("VH unknown width".into()),
    }
}
#[cfg(feature = "dec")]
fn wide_cast(from: &str, to: &str, n: U512, checked: bool) -> R {
    macro_rules! arm { ($f:ident, $t:ident) => {{
        let v = $f::from_dec_str(&n.to_string()).unwrap();
        if checked { r(<$t as UintCheckedCast<$f>>::uint_checked_cast(v)) } else { y(<$t as UintCast<$f>>::uint_cast(v)) }
    }} }
    macro_rules! pairs { ($($fs:literal $f:ident, $ts:literal $t:ident;)*) => { match (from, to) { $(($fs, $ts) => arm!($f, $t), ($ts, $fs) => arm!($t, $f),)* _ => Err("VH no such cast".into()) } } }
    pairs! {
        "128w" U128, "192" U192; "128w" U128, "256" U256; "128w" U128, "320" U320; "128w" U128, "384" U384; "128w" U128, "448" U448; "128w" U128, "512" U512;
        "192" U192, "256" U256; "192" U192, "320" U320; "192" U192, "384" U384; "192" U192, "448" U448; "192" U192, "512" U512;
        "256" U256, "320" U320; "256" U256, "384" U384; "256" U256, "448" U448; "256" U256, "512" U512;
        "320" U320, "384" U384; "320" U320, "448" U448; "320" U320, "512" U512;
        "384" U384, "448" U448; "384" U384, "512" U512;
        "448" U448, "512" U512;
    }
}

// ---- the functions both libraries have --------------------------------------------------------------
fn common(f: &str, a: &[Value]) -> R {
    match f {
        #[cfg(feature = "dec")]
        "dec" => dec(&s(&a[0]), a),
        #[cfg(feature = "dec")]
        "cast" => cast(a, false),
        #[cfg(feature = "dec")]
        "checked_cast" => cast(a, true),
        #[cfg(feature = "ticks")]
        "sqrt_price" => r(calculate_sqrt_price(i(&a[0]))),
        #[cfg(feature = "ticks")]
        "sqrt_prices" => {
            let mut v = vec![];
            for t in i(&a[0])..=i(&a[1]) {
                v.push(r(calculate_sqrt_price(t))?);
            }
            Ok(json!(v))
        }
        #[cfg(feature = "ticks")]
        "tick_at" => r(get_tick_at_sqrt_price(pr(&a[0]), sp16(&a[1]))),
        // [from, to, spacing]: the tick of each price P(t), and of the prices just below and above
        #[cfg(feature = "ticks")]
        "ticks_at" => {
            let mut v = vec![];
            for t in i(&a[0])..=i(&a[1]) {
                let p = calculate_sqrt_price(t).map_err(|e| format!("{:?}", e))?.get();
                let mut w = vec![];
                for q in [p - 1, p, p + 1] {
                    let q = q.clamp(MIN_SQRT_PRICE, MAX_SQRT_PRICE);
                    w.push(r(get_tick_at_sqrt_price(SqrtPrice::new(q), sp16(&a[2])))?);
                }
                v.push(json!(w));
            }
            Ok(json!(v))
        }
        #[cfg(feature = "swap")]
        "swap_step" => r(compute_swap_step(pr(&a[0]), pr(&a[1]), li(&a[2]), tk(&a[3]), b(&a[4]), pc(&a[5]))),
        #[cfg(feature = "swap")]
        "delta_x" => r(get_delta_x(pr(&a[0]), pr(&a[1]), li(&a[2]), b(&a[3]))),
        #[cfg(feature = "swap")]
        "delta_y" => r(get_delta_y(pr(&a[0]), pr(&a[1]), li(&a[2]), b(&a[3]))),
        #[cfg(feature = "swap")]
        "next_x" => r(get_next_sqrt_price_x_up(pr(&a[0]), li(&a[1]), tk(&a[2]), b(&a[3]))),
        #[cfg(feature = "swap")]
        "enough" => r(is_enough_amount_to_change_price(tk(&a[0]), pr(&a[1]), li(&a[2]), pc(&a[3]), b(&a[4]), b(&a[5]))),
        #[cfg(feature = "amounts")]
        "amount_delta" => r(calculate_amount_delta(i(&a[0]), pr(&a[1]), li(&a[2]), b(&a[3]), i(&a[4]), i(&a[5]))),
        #[cfg(feature = "limits")]
        "max_liq" => y(calculate_max_liquidity_per_tick(sp16(&a[0]))),
        #[cfg(feature = "limits")]
        "check_tick" => r(check_tick(i(&a[0]), sp16(&a[1]))),
        #[cfg(feature = "limits")]
        "check_ticks" => r(check_ticks(i(&a[0]), i(&a[1]), sp16(&a[2]))),
        #[cfg(feature = "limits")]
        "price_in_tick" => r(check_tick_to_sqrt_price_relationship(i(&a[0]), sp16(&a[1]), pr(&a[2]))),
        #[cfg(feature = "map")]
        "search_limit" => y(get_search_limit(i(&a[0]), sp16(&a[1]), b(&a[2]))),
        #[cfg(feature = "growth")]
        "growth_add" => y(fg(&a[0]).unchecked_add(fg(&a[1]))),
        #[cfg(feature = "growth")]
        "growth_sub" => y(fg(&a[0]).unchecked_sub(fg(&a[1]))),
        #[cfg(feature = "growth")]
        "growth_of" => r(FeeGrowth::from_fee(li(&a[0]), tk(&a[1]))),
        #[cfg(feature = "growth")]
        "fee_of" => r(fg(&a[0]).to_fee(li(&a[1]))),
        #[cfg(feature = "growth")]
        "inside" => y(calculate_fee_growth_inside(i(&a[0]), fg(&a[1]), fg(&a[2]), i(&a[3]), fg(&a[4]), fg(&a[5]), i(&a[6]), fg(&a[7]), fg(&a[8]))),
        #[cfg(feature = "growth")]
        "spl_add" => y(spl(&a[0]).unchecked_add(spl(&a[1]))),
        #[cfg(feature = "growth")]
        "spl_sub" => y(spl(&a[0]).unchecked_sub(spl(&a[1]))),
        #[cfg(feature = "growth")]
        "spl_global" => r(SecondsPerLiquidity::calculate_seconds_per_liquidity_global(li(&a[0]), u64_(&a[1]), u64_(&a[2]))),
        #[cfg(feature = "growth")]
        "spl_inside" => r(calculate_seconds_per_liquidity_inside(i(&a[0]), i(&a[1]), i(&a[2]), spl(&a[3]), spl(&a[4]), spl(&a[5]))),
        #[cfg(feature = "liq")]
        "liq_x" => r(get_liquidity_by_x(tk(&a[0]), i(&a[1]), i(&a[2]), pr(&a[3]), b(&a[4]))),
        #[cfg(feature = "liq")]
        "liq_y" => r(get_liquidity_by_y(tk(&a[0]), i(&a[1]), i(&a[2]), pr(&a[3]), b(&a[4]))),
        _ => own(f, a),
    }
}

