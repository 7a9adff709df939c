#![allow(unused_imports, unused_macros, dead_code)]
// The client SDK's WebAssembly library (sdk/src/wasm), called natively.
use decimal::*;
use invariant_vara_wasm::clamm::*;
use invariant_vara_wasm::collections::tickmap::*;
use invariant_vara_wasm::consts::*;
#[cfg(feature = "fee")]
use invariant_vara_wasm::custom::calculate_fee;
#[cfg(feature = "limits")]
use invariant_vara_wasm::custom::{check_tick_to_sqrt_price_relationship, is_token_x};
use invariant_vara_wasm::log::get_tick_at_sqrt_price;
use invariant_vara_wasm::math::*;
use invariant_vara_wasm::storage::*;
#[cfg(feature = "sim")]
use invariant_vara_wasm::swap::simulate_invariant_swap;
use invariant_vara_wasm::types::{
    fee_growth::*, fixed_point::*, liquidity::*, percentage::*, seconds_per_liquidity::*, sqrt_price::*, token_amount::*,
};

const LIB: &str = "s";

include!("../../calc/common.rs");
use serde_json::{json, Value};
use std::io::{BufRead, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[cfg(feature = "sim")]
fn pool(v: &Value) -> Pool {
    Pool {
        liquidity: li(&v["liq"]), sqrt_price: pr(&v["sp"]), current_tick_index: i(&v["tick"]) as i64,
        fee_growth_global_x: fg(&v["fgx"]), fee_growth_global_y: fg(&v["fgy"]),
        fee_protocol_token_x: tk(&v["fpx"]), fee_protocol_token_y: tk(&v["fpy"]),
        start_timestamp: u64_(&v["st"]), last_timestamp: u64_(&v["lt"]), fee_receiver: "r".into(),
    }
}
#[cfg(any(feature = "map", feature = "sim"))]
fn map(v: &Value, sp: u16) -> Tickmap {
    let mut m = Tickmap::default();
    for t in v.as_array().unwrap() {
        m.flip(true, i(t), sp);
    }
    m
}

fn own(f: &str, a: &[Value]) -> R {
    match f {
        #[cfg(feature = "limits")]
        "max_tick" => r(get_max_tick(sp16(&a[0]))),
        #[cfg(feature = "limits")]
        "min_tick" => r(get_min_tick(sp16(&a[0]))),
        #[cfg(feature = "limits")]
        "max_price" => r(get_max_sqrt_price(sp16(&a[0]))),
        #[cfg(feature = "limits")]
        "min_price" => r(get_min_sqrt_price(sp16(&a[0]))),
        #[cfg(feature = "limits")]
        "max_chunk" => r(get_max_chunk(sp16(&a[0]))),
        #[cfg(feature = "limits")]
        "consts" => Ok(json!({"max_tick": MAX_TICK, "max_price": get_global_max_sqrt_price().to_string(), "min_price": get_global_min_sqrt_price().to_string(),
            "search": get_tick_search_range(), "chunk": get_chunk_size(), "liq_ticks": get_liquidity_tick_limit(), "pos_ticks": get_position_tick_limit(),
            "keys": get_max_pool_keys_returned(), "entries": get_position_entries_limit(), "pairs": get_max_pool_pairs_returned()})),
        #[cfg(feature = "sim")]
        "max_steps" => y(get_max_swap_step()),
        #[cfg(feature = "map")]
        "tick_pos" => r(tick_to_position_js(i(&a[0]), sp16(&a[1]))),
        #[cfg(feature = "map")]
        "tick_pos_inner" => y(tick_to_position(i(&a[0]), sp16(&a[1]))),
        #[cfg(feature = "map")]
        "pos_tick" => r(position_to_tick(sp16(&a[0]), sp16(&a[1]) as u8, sp16(&a[2]))),
        #[cfg(feature = "amounts")]
        "min_out" => y(calculate_min_amount_out(tk(&a[0]), pc(&a[1]))),
        #[cfg(feature = "map")]
        "next_init" => y(map(&a[0], sp16(&a[2])).next_initialized(i(&a[1]), sp16(&a[2]))),
        #[cfg(feature = "map")]
        "prev_init" => y(map(&a[0], sp16(&a[2])).prev_initialized(i(&a[1]), sp16(&a[2]))),
        #[cfg(feature = "map")]
        "closer" => r(map(&a[0], sp16(&a[4])).get_closer_limit(pr(&a[1]), b(&a[2]), i(&a[3]), sp16(&a[4]))),
        #[cfg(feature = "map")]
        "map_get" => {
            let sp = sp16(&a[3]);
            let mut m = map(&a[0], sp);
            for t in a[1].as_array().unwrap() {
                m.flip(false, i(t), sp);
            }
            Ok(json!([m.get(i(&a[2]), sp), false]))
        }
        #[cfg(feature = "limits")]
        "fee_tier" => r(FeeTier::new(pc(&a[0]), sp16(&a[1])).map(|t| (t.fee, t.tick_spacing as u16))),
        #[cfg(feature = "limits")]
        "pool_key" => {
            let id = |v: &Value| format!("0x{}", format!("{:02x}", i(v)).repeat(32));
            let no = |x: &str| u8::from_str_radix(&x[2..4], 16).unwrap();
            r(PoolKey::new(id(&a[0]), id(&a[1]), FeeTier { fee: Percentage::new(5), tick_spacing: 3 })
                .map(|k| json!([no(&k.token_x), no(&k.token_y), k.fee_tier.fee.j(), k.fee_tier.tick_spacing])))
        }
        #[cfg(feature = "limits")]
        "is_token_x" => {
            let id = |v: &Value| format!("0x{}", format!("{:02x}", i(v)).repeat(32));
            r(is_token_x(id(&a[0]), id(&a[1])))
        }
        #[cfg(feature = "fee")]
        "position_fee" => r(calculate_fee(i(&a[0]), fg(&a[1]), fg(&a[2]), i(&a[3]), fg(&a[4]), fg(&a[5]), i(&a[6]), fg(&a[7]), fg(&a[8]), fg(&a[9]), fg(&a[10]), li(&a[11]))),
        // [pool, ticks, fee, spacing, x to y, amount, by amount in, price limit, ticks that are not supplied]
        #[cfg(feature = "sim")]
        "simulate" => {
            let sp = sp16(&a[3]);
            let idx = json!(a[1].as_array().unwrap().iter().map(|t| t["i"].clone()).collect::<Vec<_>>());
            let ticks = a[1].as_array().unwrap().iter().filter(|t| !a[8].as_array().unwrap().contains(&t["i"]))
                .map(|t| LiquidityTick { index: i(&t["i"]) as i64, liquidity_change: li(&t["ch"]), sign: b(&t["sign"]) }).collect();
            r(simulate_invariant_swap(map(&idx, sp), FeeTier { fee: pc(&a[2]), tick_spacing: sp as u64 }, pool(&a[0]), ticks, b(&a[4]), tk(&a[5]), b(&a[6]), pr(&a[7]))
                .map(|z| json!({"in": z.amount_in.j(), "out": z.amount_out.j(), "fee": z.fee.j(), "start": z.start_sqrt_price.j(), "target": z.target_sqrt_price.j(),
                    "crossed": z.crossed_ticks.iter().map(|t| json!({"i": t.index, "ch": t.liquidity_change.j(), "sign": t.sign})).collect::<Vec<_>>(),
                    "gil": z.global_insufficient_liquidity, "max": z.max_swap_steps_reached, "old": z.state_outdated})))
        }
        _ => Err(format!("VH unknown function {}", f)),
    }
}

// every line comes out with the result added: {"f":..,"a":[..],"lib":..,"ok":value} or {..,"no":reason}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let input = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap());
    let mut out = BufWriter::new(std::fs::File::create(&args[2]).unwrap());
    for line in input.lines() {
        let line = line.unwrap();
        let mut v: Value = serde_json::from_str(&line).unwrap();
        if let Some(l) = v.get("only") {
            if l.as_str() != Some(LIB) {
                continue;
            }
        }
        let f = s(&v["f"]);
        let a: Vec<Value> = v["a"].as_array().unwrap().clone();
        let res = catch_unwind(AssertUnwindSafe(|| common(&f, &a))).unwrap_or_else(|e| {
            Err(e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_else(|| "panic".into()))
        });
        v["lib"] = json!(LIB);
        match res {
            Ok(x) => v["ok"] = x,
            Err(e) => {
                if e.starts_with("VH ") {
                    eprintln!("{}: {}", line, e);
                    std::process::exit(3);
                }
                v["no"] = json!(e.chars().filter(|c| c.is_ascii_alphanumeric() || *c == ' ').take(60).collect::<String>())
            }
        }
        writeln!(out, "{}", v).unwrap();
    }
}
