// The contract's libraries (calc/decimal, calc/math, src/contracts), compiled as the contract is.
#![no_std]
#![allow(unused_imports, unused_macros, dead_code)]
extern crate alloc;
use alloc::{format, string::{String, ToString}, vec};
#[macro_use]
mod json;
use json::Value;
use contracts::*;
use decimal::*;
use math::{
    clamm::*, consts::*, fee_growth::*, fixed_point::*, liquidity::*, log::*, percentage::*, seconds_per_liquidity::*,
    sqrt_price::*, token_amount::*,
};
use sails_rs::ActorId;

include!("../../calc/common.rs");

#[cfg(any(feature = "map", feature = "store"))]
fn key(sp: u16) -> PoolKey {
    PoolKey { token_x: ActorId::from([1; 32]), token_y: ActorId::from([2; 32]), fee_tier: FeeTier { fee: Percentage::new(0), tick_spacing: sp } }
}
#[cfg(feature = "store")]
fn pool(v: &Value) -> Pool {
    Pool {
        liquidity: li(&v["liq"]), sqrt_price: pr(&v["sp"]), current_tick_index: i(&v["tick"]),
        fee_growth_global_x: fg(&v["fgx"]), fee_growth_global_y: fg(&v["fgy"]),
        fee_protocol_token_x: tk(&v["fpx"]), fee_protocol_token_y: tk(&v["fpy"]),
        start_timestamp: u64_(&v["st"]), last_timestamp: u64_(&v["lt"]), fee_receiver: ActorId::from([9; 32]),
    }
}
#[cfg(feature = "store")]
impl J for Pool {
    fn j(self) -> Value {
        json!({"liq": self.liquidity.j(), "sp": self.sqrt_price.j(), "tick": self.current_tick_index, "fgx": self.fee_growth_global_x.j(),
            "fgy": self.fee_growth_global_y.j(), "fpx": self.fee_protocol_token_x.j(), "fpy": self.fee_protocol_token_y.j(),
            "st": self.start_timestamp.to_string(), "lt": self.last_timestamp.to_string(),
            "rcv": if self.fee_receiver == ActorId::from([9; 32]) { "r" } else { "?" }})
    }
}
#[cfg(feature = "store")]
fn tick(v: &Value) -> Tick {
    Tick {
        index: i(&v["i"]), sign: b(&v["sign"]), liquidity_change: li(&v["ch"]), liquidity_gross: li(&v["gr"]), sqrt_price: pr(&v["sp"]),
        fee_growth_outside_x: fg(&v["fox"]), fee_growth_outside_y: fg(&v["foy"]), seconds_outside: u64_(&v["so"]),
    }
}
#[cfg(feature = "store")]
impl J for Tick {
    fn j(self) -> Value {
        json!({"i": self.index, "sign": self.sign, "ch": self.liquidity_change.j(), "gr": self.liquidity_gross.j(), "sp": self.sqrt_price.j(),
            "fox": self.fee_growth_outside_x.j(), "foy": self.fee_growth_outside_y.j(), "so": self.seconds_outside.to_string()})
    }
}
#[cfg(feature = "store")]
fn pos(v: &Value, lo: i32, up: i32, sp: u16) -> Position {
    Position {
        pool_key: key(sp), liquidity: li(&v["liq"]), lower_tick_index: lo, upper_tick_index: up, fee_growth_inside_x: fg(&v["fix"]),
        fee_growth_inside_y: fg(&v["fiy"]), last_block_number: 7, tokens_owed_x: tk(&v["ox"]), tokens_owed_y: tk(&v["oy"]),
    }
}
#[cfg(feature = "store")]
impl J for Position {
    fn j(self) -> Value {
        json!({"liq": self.liquidity.j(), "fix": self.fee_growth_inside_x.j(), "fiy": self.fee_growth_inside_y.j(),
            "ox": self.tokens_owed_x.j(), "oy": self.tokens_owed_y.j()})
    }
}
#[cfg(feature = "liq")]
impl J for LiquidityResult {
    fn j(self) -> Value {
        json!([self.x.j(), self.y.j(), self.l.j()])
    }
}
#[cfg(any(feature = "map", feature = "store"))]
fn map(v: &Value, sp: u16) -> Tickmap {
    let mut m = Tickmap::default();
    for t in v.as_array().unwrap() {
        m.flip(true, i(t), sp, key(sp));
    }
    m
}

fn own(f: &str, a: &[Value]) -> R {
    match f {
        #[cfg(feature = "limits")]
        "max_tick" => y(get_max_tick(sp16(&a[0]))),
        #[cfg(feature = "limits")]
        "min_tick" => y(get_min_tick(sp16(&a[0]))),
        #[cfg(feature = "limits")]
        "max_price" => y(get_max_sqrt_price(sp16(&a[0]))),
        #[cfg(feature = "limits")]
        "min_price" => y(get_min_sqrt_price(sp16(&a[0]))),
        #[cfg(feature = "limits")]
        "max_chunk" => y(get_max_chunk(sp16(&a[0]))),
        #[cfg(feature = "limits")]
        "consts" => Ok(json!({"max_tick": MAX_TICK, "max_price": MAX_SQRT_PRICE.to_string(), "min_price": MIN_SQRT_PRICE.to_string(),
            "search": math::consts::TICK_SEARCH_RANGE, "search2": contracts::TICK_SEARCH_RANGE, "chunk": CHUNK_SIZE,
            "liq_ticks": LIQUIDITY_TICK_LIMIT, "pos_ticks": POSITION_TICK_LIMIT})),
        #[cfg(feature = "map")]
        "tick_pos" => y(tick_to_position(i(&a[0]), sp16(&a[1]))),
        #[cfg(feature = "map")]
        "pos_tick" => y(position_to_tick(sp16(&a[0]), sp16(&a[1]) as u8, sp16(&a[2]))),
        #[cfg(feature = "amounts")]
        "min_out" => y(calculate_min_amount_out(tk(&a[0]), pc(&a[1]))),
        #[cfg(feature = "map")]
        "next_init" => y(map(&a[0], sp16(&a[2])).next_initialized(i(&a[1]), sp16(&a[2]), key(sp16(&a[2])))),
        #[cfg(feature = "map")]
        "prev_init" => y(map(&a[0], sp16(&a[2])).prev_initialized(i(&a[1]), sp16(&a[2]), key(sp16(&a[2])))),
        #[cfg(feature = "map")]
        "closer" => r(map(&a[0], sp16(&a[4])).get_closer_limit(pr(&a[1]), b(&a[2]), i(&a[3]), sp16(&a[4]), key(sp16(&a[4])))),
        // [ticks, ticks to remove again, tick, spacing]
        #[cfg(feature = "map")]
        "map_get" => {
            let sp = sp16(&a[3]);
            let mut m = map(&a[0], sp);
            for t in a[1].as_array().unwrap() {
                m.flip(false, i(t), sp, key(sp));
            }
            Ok(json!([m.get(i(&a[2]), sp, key(sp)), m.get(i(&a[2]), sp, PoolKey { token_x: ActorId::from([3; 32]), ..key(sp) })]))
        }
        #[cfg(feature = "limits")]
        "fee_tier" => r(FeeTier::new(pc(&a[0]), sp16(&a[1])).map(|t| (t.fee, t.tick_spacing))),
        #[cfg(feature = "limits")]
        "pool_key" => {
            let id = |v: &Value| ActorId::from([i(v) as u8; 32]);
            r(PoolKey::new(id(&a[0]), id(&a[1]), FeeTier { fee: Percentage::new(5), tick_spacing: 3 })
                .map(|k| json!([k.token_x.as_ref()[0], k.token_y.as_ref()[31], k.fee_tier.fee.j(), k.fee_tier.tick_spacing])))
        }
        #[cfg(feature = "liq")]
        "liq_both" => r(get_liquidity(tk(&a[0]), tk(&a[1]), i(&a[2]), i(&a[3]), pr(&a[4]), b(&a[5]))),
        #[cfg(feature = "store")]
        "pool_new" => r(Pool::create(pr(&a[0]), i(&a[1]), u64_(&a[2]), sp16(&a[3]), ActorId::from([9; 32]))),
        #[cfg(feature = "store")]
        "tick_new" => y(Tick::create(i(&a[0]), &pool(&a[1]), u64_(&a[2]))),
        #[cfg(feature = "store")]
        "tick_cross" => {
            let (mut t, mut p) = (tick(&a[0]), pool(&a[1]));
            r(t.cross(&mut p, u64_(&a[2])).map(|_| (t, p)))
        }
        // [tick, delta, upper, open, spacing]
        #[cfg(feature = "store")]
        "tick_update" => {
            let mut t = tick(&a[0]);
            r(t.update(li(&a[1]), calculate_max_liquidity_per_tick(sp16(&a[4])), b(&a[2]), b(&a[3])).map(|_| t))
        }
        #[cfg(feature = "store")]
        "add_fee" => {
            let mut p = pool(&a[0]);
            r(p.add_fee(tk(&a[1]), b(&a[2]), pc(&a[3])).map(|_| p))
        }
        #[cfg(feature = "store")]
        "withdraw_fee" => {
            let mut p = pool(&a[0]);
            let w = p.withdraw_protocol_fee(key(1));
            y((p, w))
        }
        // [position, pool, lower, upper, delta, open, timestamp, spacing]
        #[cfg(feature = "store")]
        "modify" | "claim" | "remove" => {
            let (mut p, mut l, mut u) = (pool(&a[1]), tick(&a[2]), tick(&a[3]));
            let sp = sp16(&a[7]);
            let mut q = pos(&a[0], l.index, u.index, sp);
            let ts = u64_(&a[6]);
            match f {
                "modify" => r(q.modify(&mut p, &mut u, &mut l, li(&a[4]), b(&a[5]), ts, sp).map(|(x, z)| json!([q.j(), p.j(), l.j(), u.j(), x.j(), z.j()]))),
                "claim" => {
                    let (x, z) = q.claim_fee(&mut p, &mut u, &mut l, ts);
                    Ok(json!([q.j(), p.j(), l.j(), u.j(), x.j(), z.j()]))
                }
                _ => {
                    let (x, z, dl, du) = q.remove(&mut p, ts, &mut l, &mut u, sp);
                    Ok(json!([p.j(), l.j(), u.j(), x.j(), z.j(), dl, du]))
                }
            }
        }
        // [pool, lower, upper, ts, liquidity, slippage lower, slippage upper, spacing]
        #[cfg(feature = "store")]
        "create" => {
            let (mut p, mut l, mut u) = (pool(&a[0]), tick(&a[1]), tick(&a[2]));
            let sp = sp16(&a[7]);
            r(Position::create(&mut p, key(sp), &mut l, &mut u, u64_(&a[3]), li(&a[4]), pr(&a[5]), pr(&a[6]), 7, sp)
                .map(|(q, x, z)| json!([q.j(), p.j(), l.j(), u.j(), x.j(), z.j(), q.last_block_number, q.lower_tick_index, q.upper_tick_index])))
        }
        _ => Err(format!("VH unknown function {}", f)),
    }
}

/// The payload is one line {"f":..,"a":[..]}; the reply is {"ok":value} or {"no":reason}. A panic fails the message.
#[no_mangle]
extern "C" fn calc() {
    let v: Value = json::parse(&gstd::msg::load_bytes().unwrap());
    let out = match common(&s(&v["f"]), v["a"].as_array().unwrap()) {
        Ok(x) => json!({ "ok": x }),
        Err(e) => json!({ "no": e }),
    };
    gstd::msg::reply_bytes(out.to_string(), 0).unwrap();
}
