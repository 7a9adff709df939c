//! The world around the program: users, blocks, token programs (whose answers are chosen by the scenario), waitlist.
use crate::scale::*;
use crate::vm::*;
use primitive_types::U256;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub type Obj = Map<String, Value>;

#[derive(Clone)]
pub struct Waiting {
    pub label: String,
    pub op: Value,
    pub ctx: Ctx,
    pub deadline: u64,
}

#[derive(Clone)]
pub struct Transfer {
    pub label: String,
    pub id: Id,
    pub token: Id,
    pub amount: U256,
    pub from: Id,
    pub to: Id,
}

#[derive(Clone, Default, PartialEq)]
pub struct Obs {
    pub pf: Value,
    pub tiers: Value,
    pub keys: Value,
    pub pools: BTreeMap<String, Value>,
    pub bits: BTreeMap<String, Value>,
    pub ticks: BTreeMap<String, BTreeMap<i32, Value>>,
    pub pos: BTreeMap<String, Vec<Value>>,
    pub bal: BTreeMap<String, BTreeMap<String, String>>,
    pub errs: Vec<String>,
}

pub struct World {
    pub vm: Vm,
    pub block: u32,
    pub ts: u64,
    pub balance: u128,
    pub gas: u64,
    pub next_id: u64,
    pub next_msg: u64,
    pub next_tr: u64,
    pub waiting: Vec<Waiting>,
    pub transfers: Vec<Transfer>,  // unanswered
    pub users: Vec<String>,
    pub obs: Obs,
    pub steps: Vec<Value>,
    pub pools: BTreeSet<String>,
    pub probe: BTreeSet<(String, i32)>,
}

#[derive(Clone)]
pub struct Snap {
    im: Image,
    block: u32,
    ts: u64,
    balance: u128,
    gas: u64,
    next_id: u64,
    next_msg: u64,
    next_tr: u64,
    waiting: Vec<Waiting>,
    transfers: Vec<Transfer>,
    obs: Obs,
    nsteps: usize,
    pools: BTreeSet<String>,
    probe: BTreeSet<(String, i32)>,
}

pub fn s<'a>(o: &'a Value, k: &str) -> &'a str {
    o[k].as_str().unwrap_or_else(|| panic!("field {} of {}", k, o))
}
pub fn u256(o: &Value, k: &str) -> U256 {
    U256::from_dec_str(s(o, k)).unwrap()
}
pub fn u128v(o: &Value, k: &str) -> u128 {
    s(o, k).parse().unwrap()
}
pub fn int(o: &Value, k: &str) -> i64 {
    o[k].as_i64().unwrap_or_else(|| panic!("int {} of {}", k, o))
}

/// payload of a user message for an operation
pub fn encode(o: &Value) -> (Vec<u8>, u128) {
    let act = action(s(o, "op"));
    let e = Enc::new().str("Service").str(act);
    let key = |o: &Value| Key::parse(s(o, "pool"));
    let tier = |o: &Value| Tier { fee: u128v(o, "fee"), sp: int(o, "sp") as u16 };
    let opt = |e: Enc, v: &Value| match v.as_str() {
        Some(x) => e.u8(1).u256(U256::from_dec_str(x).unwrap()),
        None => e.u8(0),
    };
    let hops = |mut e: Enc, o: &Value| {
        let h = o["hops"].as_array().unwrap();
        e = e.compact(h.len() as u64);
        for x in h {
            e = e.key(&Key::parse(s(x, "pool"))).bool(x["xy"].as_bool().unwrap());
        }
        e
    };
    let mut value = 0;
    let e = match s(o, "op") {
        "set_pf" => e.u128(u128v(o, "v")),
        "add_tier" | "rm_tier" | "tier_exists" => e.tier(&tier(o)),
        "create_pool" => e
            .id(&mkid(s(o, "t0")))
            .id(&mkid(s(o, "t1")))
            .tier(&tier(o))
            .u128(u128v(o, "sqrt"))
            .i32(int(o, "tick") as i32),
        "set_rcv" => e.key(&key(o)).id(&mkid(s(o, "rcv"))),
        "open" => e
            .key(&key(o))
            .i32(int(o, "lo") as i32)
            .i32(int(o, "up") as i32)
            .u256(u256(o, "liq"))
            .u128(u128v(o, "slo"))
            .u128(u128v(o, "sup")),
        "close" | "claim" => e.u32(int(o, "i") as u32),
        "transfer" => e.u32(int(o, "i") as u32).id(&mkid(s(o, "to"))),
        "swap" | "quote" => e
            .key(&key(o))
            .bool(o["xy"].as_bool().unwrap())
            .u256(u256(o, "amt"))
            .bool(o["in"].as_bool().unwrap())
            .u128(u128v(o, "lim")),
        "route" => hops(e.u256(u256(o, "amt")).u256(u256(o, "exp")).u128(u128v(o, "slip")), o),
        "quote_route" => hops(e.u256(u256(o, "amt")), o),
        "wpf" => e.key(&key(o)),
        "dep_vara" => {
            value = u128v(o, "amt");
            e
        }
        "wd_vara" => opt(e, &o["amt"]),
        "dep1" => e.id(&mkid(s(o, "tok"))).u256(u256(o, "amt")),
        "wd1" => opt(e.id(&mkid(s(o, "tok"))), &o["amt"]),
        "dep2" => e.id(&mkid(s(o, "tx"))).u256(u256(o, "ax")).id(&mkid(s(o, "ty"))).u256(u256(o, "ay")),
        "wd2" => opt(opt(e.id(&mkid(s(o, "tx"))), &o["ax"]).id(&mkid(s(o, "ty"))), &o["ay"]),
        // queries
        "get_pf" | "get_tiers" => e,
        "get_pool" => e.id(&mkid(s(o, "t0"))).id(&mkid(s(o, "t1"))).tier(&tier(o)),
        "get_keys" => e.u16(int(o, "size") as u16).u16(int(o, "off") as u16),
        "get_pos" => e.id(&mkid(s(o, "own"))).u32(int(o, "i") as u32),
        "get_posa" => e.id(&mkid(s(o, "own"))).u32(int(o, "i") as u32),
        "get_tick" | "tick_init" => e.key(&key(o)).i32(int(o, "i") as i32),
        "get_all_pos" | "pos_count" | "get_bal" => e.id(&mkid(s(o, "own"))),
        "get_positions" => e.id(&mkid(s(o, "own"))).u32(int(o, "size") as u32).u32(int(o, "off") as u32),
        "tick_count" | "get_tickmap" => e.key(&key(o)),
        "pools_pair" => e.id(&mkid(s(o, "t0"))).id(&mkid(s(o, "t1"))),
        "liq_ticks" => {
            let t = o["ticks"].as_array().unwrap();
            let mut e = e.key(&key(o)).compact(t.len() as u64);
            for x in t {
                e = e.i32(x.as_i64().unwrap() as i32);
            }
            e
        }
        "pos_ticks" => e.id(&mkid(s(o, "own"))).u32(int(o, "off") as u32),
        x => panic!("op {}", x),
    };
    // value attached to operations that do not take any
    if let Some(v) = o.get("val").and_then(|v| v.as_str()) {
        value = v.parse().unwrap();
    }
    (e.0, value)
}

pub fn action(op: &str) -> &'static str {
    match op {
        "set_pf" => "ChangeProtocolFee",
        "add_tier" => "AddFeeTier",
        "rm_tier" => "RemoveFeeTier",
        "tier_exists" => "FeeTierExists",
        "create_pool" => "CreatePool",
        "set_rcv" => "ChangeFeeReceiver",
        "open" => "CreatePosition",
        "close" => "RemovePosition",
        "claim" => "ClaimFee",
        "transfer" => "TransferPosition",
        "swap" => "Swap",
        "quote" => "Quote",
        "route" => "SwapRoute",
        "quote_route" => "QuoteRoute",
        "wpf" => "WithdrawProtocolFee",
        "dep_vara" => "DepositVara",
        "wd_vara" => "WithdrawVara",
        "dep1" => "DepositSingleToken",
        "wd1" => "WithdrawSingleToken",
        "dep2" => "DepositTokenPair",
        "wd2" => "WithdrawTokenPair",
        "get_pf" => "GetProtocolFee",
        "get_tiers" => "GetFeeTiers",
        "get_pool" => "GetPool",
        "get_keys" => "GetPoolKeys",
        "get_pos" => "GetPosition",
        "get_posa" => "GetPositionWithAssociates",
        "get_tick" => "GetTick",
        "tick_init" => "IsTickInitialized",
        "get_all_pos" => "GetAllPositions",
        "pos_count" => "GetUserPositionAmount",
        "get_bal" => "GetUserBalances",
        "get_positions" => "GetPositions",
        "tick_count" => "GetLiquidityTicksAmount",
        "get_tickmap" => "GetTickmap",
        "pools_pair" => "GetAllPoolsForPair",
        "liq_ticks" => "GetLiquidityTicks",
        "pos_ticks" => "GetPositionTicks",
        x => panic!("action {}", x),
    }
}

fn bits(d: &mut Dec) -> D<Value> {
    let v = d.vec(|d| {
        let c = d.u16()?;
        let b = d.u64()?;
        Ok((c, b))
    })?;
    Ok(Value::Array(
        v.into_iter()
            .filter(|(_, b)| *b != 0)
            .map(|(c, b)| json!([c, (0..64).filter(|i| b >> i & 1 == 1).collect::<Vec<i32>>()]))
            .collect(),
    ))
}

/// decode the reply to an operation; `{"err":..}` for a Result::Err reply
pub fn decode(op: &str, payload: &[u8]) -> D<Value> {
    let mut d = Dec(payload);
    if d.str()? != "Service" || d.str()? != action(op) {
        return Err("reply prefix".into());
    }
    let v = {
        let is_result = matches!(
            op,
            "get_pool" | "get_pos" | "get_posa" | "get_tick" | "get_positions" | "pools_pair" | "quote" | "quote_route" | "liq_ticks"
        );
        if is_result && d.u8()? == 1 {
            let e = d.u8()?;
            d.done()?;
            return Ok(json!({ "err": e }));
        }
        let d = &mut d;
        match op {
            "set_pf" | "get_pf" => json!(d.u128()?.to_string()),
            "add_tier" | "rm_tier" => {
                let t = d.tier()?;
                json!({"fee": t.fee.to_string(), "sp": t.sp})
            }
            "tier_exists" | "tick_init" => json!(d.bool()?),
            "create_pool" | "set_rcv" | "transfer" | "wpf" => json!("unit"),
            "open" | "get_pos" => d.position()?,
            "close" | "claim" | "dep2" | "wd2" => json!([d.u256()?.to_string(), d.u256()?.to_string()]),
            "swap" => json!({"in": d.u256()?.to_string(), "out": d.u256()?.to_string(), "s0": d.u128()?.to_string(),
                "s1": d.u128()?.to_string(), "fee": d.u256()?.to_string(), "pool": d.pool()?, "ticks": d.vec(|d| d.tick())?}),
            "quote" => json!({"in": d.u256()?.to_string(), "out": d.u256()?.to_string(), "s1": d.u128()?.to_string(),
                "ticks": d.vec(|d| d.tick())?}),
            "route" | "quote_route" | "dep_vara" | "wd_vara" | "dep1" | "wd1" => json!(d.u256()?.to_string()),
            "get_tiers" => Value::Array(d.vec(|d| {
                let t = d.tier()?;
                Ok(json!({"fee": t.fee.to_string(), "sp": t.sp}))
            })?),
            "get_pool" => d.pool()?,
            "get_keys" => json!([d.vec(|d| Ok(d.key()?.name()))?, d.u16()?]),
            "get_posa" => json!([d.position()?, d.pool()?, d.tick()?, d.tick()?]),
            "get_tick" => d.tick()?,
            "get_all_pos" => Value::Array(d.vec(|d| d.position())?),
            "pos_count" | "tick_count" => json!(d.u32()?),
            "get_bal" => {
                let v = d.vec(|d| Ok((name(&d.id()?), d.u256()?.to_string())))?;
                let n = v.len();
                let m: Obj = v.into_iter().map(|(k, v)| (k, json!(v))).collect();
                if m.len() != n {
                    return Err("duplicate token".into());
                }
                Value::Object(m)
            }
            "get_positions" => json!([
                d.vec(|d| Ok(json!([d.pool()?, d.vec(|d| Ok(json!([d.position()?, d.u32()?])))?])))?,
                d.u32()?
            ]),
            "get_tickmap" => bits(d)?,
            "pools_pair" => Value::Array(d.vec(|d| {
                let t = d.tier()?;
                Ok(json!([t.fee.to_string(), t.sp, d.pool()?]))
            })?),
            "liq_ticks" => Value::Array(d.vec(|d| Ok(json!({"i": d.i32()?, "ch": d.u256()?.to_string(), "sign": d.bool()?})))?),
            "pos_ticks" => Value::Array(d.vec(|d| {
                Ok(json!({"i": d.i32()?, "fox": d.u128()?.to_string(), "foy": d.u128()?.to_string(), "so": d.u64()?.to_string()}))
            })?),
            x => panic!("decode {}", x),
        }
    };
    d.done()?;
    Ok(v)
}

#[derive(Default)]
struct Out {
    ev: Vec<Value>,
    msgs: Vec<Value>,
    fin: Vec<Value>,
}

impl World {
    pub fn new(code: &Code, users: &[&str], pf: u128, ts: u64) -> World {
        let vm = Vm::new(code);
        let mut w = World {
            vm,
            block: 10,
            ts,
            balance: 0,
            gas: 700_000_000_000,
            next_id: 0,
            next_msg: 0,
            next_tr: 0,
            waiting: vec![],
            transfers: vec![],
            users: users.iter().map(|s| s.to_string()).collect(),
            obs: Obs::default(),
            steps: vec![],
            pools: BTreeSet::new(),
            probe: BTreeSet::new(),
        };
        let c = w.ctx(mkid("u0"), Enc::new().str("New").id(&mkid("u0")).u128(pf).0, 0);
        let (end, _) = w.vm.run("init", c);
        assert_eq!(end, End::Done, "init failed");
        let mut st = Obj::new();
        st.insert("op".into(), json!("init"));
        st.insert("pf".into(), json!(pf.to_string()));
        st.insert("nb".into(), json!("0"));
        st.insert("ts".into(), json!(ts.to_string()));
        st.insert("out".into(), json!("ok"));
        let o = w.observe();
        w.finish_step(st, o);
        w
    }

    pub fn snap(&mut self) -> Snap {
        Snap {
            im: self.vm.image(),
            block: self.block,
            ts: self.ts,
            balance: self.balance,
            gas: self.gas,
            next_id: self.next_id,
            next_msg: self.next_msg,
            next_tr: self.next_tr,
            waiting: self.waiting.clone(),
            transfers: self.transfers.clone(),
            obs: self.obs.clone(),
            nsteps: self.steps.len(),
            pools: self.pools.clone(),
            probe: self.probe.clone(),
        }
    }
    /// go back; the recorded steps are kept, a "goto" step tells the checker where the trace continues
    pub fn back(&mut self, sn: &Snap) {
        self.vm.restore(&sn.im);
        self.block = sn.block;
        self.ts = sn.ts;
        self.balance = sn.balance;
        self.gas = sn.gas;
        self.next_id = sn.next_id;
        self.next_msg = sn.next_msg;
        self.next_tr = sn.next_tr;
        self.waiting = sn.waiting.clone();
        self.transfers = sn.transfers.clone();
        self.obs = sn.obs.clone();
        self.pools = sn.pools.clone();
        self.probe = sn.probe.clone();
        self.steps.truncate(sn.nsteps);
    }

    fn ctx(&self, source: Id, payload: Vec<u8>, value: u128) -> Ctx {
        Ctx {
            source,
            payload,
            value,
            gas: self.gas,
            balance: self.balance + value,
            block: self.block,
            ts: self.ts,
            next_id: self.next_id,
            ..Ctx::default()
        }
    }

    fn collect(&mut self, c: &Ctx, out: &mut Out) {
        for m in &c.sent {
            if m.dest == [0u8; 32] {
                match Dec(&m.payload).event() {
                    Ok(e) => out.ev.push(e),
                    Err(e) => out.ev.push(json!({"e": "bad", "why": e})),
                }
            } else {
                let mut d = Dec(&m.payload);
                let r = (|| -> D<(Id, Id, U256)> {
                    if d.str()? != "Vft" || d.str()? != "TransferFrom" {
                        return Err("call".into());
                    }
                    let r = (d.id()?, d.id()?, d.u256()?);
                    d.done()?;
                    Ok(r)
                })();
                match r {
                    Ok((from, to, amt)) => {
                        let label = format!("k{}", self.next_tr);
                        self.next_tr += 1;
                        out.msgs.push(json!({"id": label, "tok": name(&m.dest), "from": name(&from), "to": name(&to),
                            "amt": amt.to_string(), "val": m.value.to_string()}));
                        self.transfers.push(Transfer { label, id: m.id, token: m.dest, amount: amt, from, to });
                    }
                    Err(e) => out.msgs.push(json!({"id": "bad", "tok": name(&m.dest), "why": e, "val": m.value.to_string()})),
                }
            }
        }
    }

    /// run `handle` for a (new or resumed) user message
    fn run_handle(&mut self, w: Waiting, out: &mut Out) -> Value {
        let im = self.vm.image();
        let id0 = self.next_id;
        let (end, c) = self.vm.run("handle", w.ctx.clone());
        let op = s(&w.op, "op").to_string();
        match end {
            End::Fail(why) => {
                self.vm.restore(&im);
                self.next_id = id0 + 1000; // ids are never reused
                if c.reserved {
                    let mut sc = self.ctx([0; 32], vec![], 0);
                    sc.signal_from = w.ctx.msg_id;
                    let im = self.vm.image();
                    let (e, c2) = self.vm.run("handle_signal", sc);
                    if let End::Fail(_) = e {
                        self.vm.restore(&im);
                    }
                    self.next_id = c2.next_id;
                }
                json!({"out": "fail", "err": why.chars().take(160).collect::<String>()})
            }
            End::Done | End::Leave => {
                self.balance = c.balance;
                self.next_id = c.next_id;
                self.collect(&c, out);
                let r = match &c.reply {
                    None => json!({"out": "noreply"}),
                    Some((p, v)) => {
                        if p.len() == 1 {
                            json!({"out": "soft", "err": p[0], "rv": v.to_string()})
                        } else {
                            match decode(&op, p) {
                                Ok(x) => json!({"out": "ok", "res": x, "rv": v.to_string()}),
                                Err(e) => json!({"out": "badreply", "err": e, "rv": v.to_string()}),
                            }
                        }
                    }
                };
                let woken = c.woken.clone();
                self.wake(&woken, out);
                r
            }
            End::Wait(n) => {
                self.balance = c.balance;
                self.next_id = c.next_id;
                self.collect(&c, out);
                let replied = c.reply.is_some();
                let woken = c.woken.clone();
                self.waiting.push(Waiting { deadline: self.block as u64 + n as u64, ..w });
                self.wake(&woken, out);
                json!({"out": if replied {"badwait"} else {"wait"}})
            }
        }
    }

    fn wake(&mut self, ids: &[Id], out: &mut Out) {
        for id in ids {
            if let Some(i) = self.waiting.iter().position(|w| w.ctx.msg_id == *id) {
                let w = self.waiting.remove(i);
                self.resume(w, out);
            }
        }
    }
    fn resume(&mut self, mut w: Waiting, out: &mut Out) {
        w.ctx.balance = self.balance;
        w.ctx.block = self.block;
        w.ctx.ts = self.ts;
        w.ctx.next_id = self.next_id;
        let label = w.label.clone();
        let op = w.op.clone();
        let mut r = self.run_handle(w, out);
        if s(&r, "out") != "wait" {
            r["id"] = json!(label);
            r["op"] = op["op"].clone();
            out.fin.push(r);
        }
    }

    /// execute one stimulus and record the step
    pub fn step(&mut self, o: Value) -> Value {
        let op = s(&o, "op").to_string();
        let mut st = o.as_object().unwrap().clone();
        let mut out = Out::default();
        let r = match op.as_str() {
            "reply" => {
                // answer of a token program to an earlier transfer request
                let label = s(&o, "id").to_string();
                match self.transfers.iter().position(|t| t.label == label) {
                    None => json!({"out": "skip"}),
                    Some(i) => {
                        let t = self.transfers.remove(i);
                        let (code, payload): ([u8; 4], Vec<u8>) = match s(&o, "kind") {
                            "true" => ([0, 0, 0, 0], Enc::new().str("Vft").str("TransferFrom").bool(true).0),
                            "false" => ([0, 0, 0, 0], Enc::new().str("Vft").str("TransferFrom").bool(false).0),
                            "panic" => ([1, 0, 3, 0], Enc::new().str("some panic").0),
                            "panic_raw" => ([1, 0, 3, 0], b"Panic occurred: out of funds".to_vec()),
                            "oog" => ([1, 0, 1, 0], b"Not enough gas to handle program data".to_vec()),
                            "nocode" => ([1, 2, 0, 0], b"Inactive program".to_vec()),
                            "empty_err" => ([1, 0, 0, 0], vec![]),
                            "err_true" => ([1, 0, 3, 0], Enc::new().str("Vft").str("TransferFrom").bool(true).0),
                            "auto" => ([0, 1, 0, 0], vec![]),
                            "garbage" => ([0, 0, 0, 0], vec![0xff; 7]),
                            "wrong_svc" => ([0, 0, 0, 0], Enc::new().str("Foo").str("TransferFrom").bool(true).0),
                            "wrong_act" => ([0, 0, 0, 0], Enc::new().str("Vft").str("Transfer").bool(true).0),
                            k => panic!("reply kind {}", k),
                        };
                        st.insert("tok".into(), json!(name(&t.token)));
                        let mut c = self.ctx(t.token, payload, 0);
                        c.msg_id = self.fresh();
                        c.next_id = self.next_id;
                        c.reply_to = t.id;
                        c.reply_code = code;
                        let im = self.vm.image();
                        let (end, c2) = self.vm.run("handle_reply", c);
                        match end {
                            End::Fail(why) => {
                                self.vm.restore(&im);
                                self.next_id += 1000;
                                json!({"out": "fail", "err": why.chars().take(160).collect::<String>()})
                            }
                            _ => {
                                self.balance = c2.balance;
                                self.next_id = c2.next_id;
                                self.collect(&c2, &mut out);
                                let woken = c2.woken.clone();
                                self.wake(&woken, &mut out);
                                json!({"out": "ok"})
                            }
                        }
                    }
                }
            }
            "tick" => {
                // time passes
                self.block += int(&o, "blocks") as u32;
                self.ts += s(&o, "ms").parse::<u64>().unwrap();
                let b = self.block as u64;
                let due: Vec<Waiting> = self.waiting.iter().filter(|w| w.deadline <= b).cloned().collect();
                self.waiting.retain(|w| w.deadline > b);
                for w in due {
                    self.resume(w, &mut out);
                }
                json!({"out": "ok"})
            }
            _ => {
                let (payload, value) = encode(&o);
                let label = format!("m{}", self.next_msg);
                self.next_msg += 1;
                st.insert("id".into(), json!(label));
                let id = self.fresh();
                let mut c = self.ctx(mkid(s(&o, "who")), payload, value);
                c.msg_id = id;
                c.next_id = self.next_id;
                if let Some(g) = o.get("gas").and_then(|g| g.as_str()) {
                    c.gas = g.parse().unwrap();
                }
                self.run_handle(Waiting { label, op: o.clone(), ctx: c, deadline: 0 }, &mut out)
            }
        };
        st.insert("blk".into(), json!(self.block));
        st.insert("ts".into(), json!(self.ts.to_string()));
        for (k, v) in r.as_object().unwrap() {
            st.insert(k.clone(), v.clone());
        }
        st.insert("ev".into(), Value::Array(out.ev));
        st.insert("msgs".into(), Value::Array(out.msgs));
        st.insert("fin".into(), Value::Array(out.fin));
        st.insert("nb".into(), json!(self.balance.to_string()));
        if op == "open" || op == "tick_init" || op == "get_tick" {
            if let Some(p) = o.get("pool").and_then(|p| p.as_str()) {
                for k in ["lo", "up", "i"] {
                    if let Some(t) = o.get(k).and_then(|t| t.as_i64()) {
                        if t.abs() <= 221818 {
                            self.probe.insert((p.to_string(), t as i32));
                        }
                    }
                }
            }
        }
        let ob = self.observe();
        self.finish_step(st, ob);
        r
    }

    fn fresh(&mut self) -> Id {
        self.next_id += 1;
        let mut id = [0u8; 32];
        id[..8].copy_from_slice(&self.next_id.to_be_bytes());
        id[31] = 0xbb;
        id
    }

    fn finish_step(&mut self, mut st: Obj, o: Obs) {
        let p = &self.obs;
        let mut d = Obj::new();
        if o.pf != p.pf {
            d.insert("pf".into(), o.pf.clone());
        }
        if o.tiers != p.tiers {
            d.insert("tiers".into(), o.tiers.clone());
        }
        if o.keys != p.keys {
            d.insert("keys".into(), o.keys.clone());
        }
        let mut m = Obj::new();
        for (k, v) in &o.pools {
            if p.pools.get(k) != Some(v) {
                m.insert(k.clone(), v.clone());
            }
        }
        if !m.is_empty() {
            d.insert("pools".into(), Value::Object(m));
        }
        let gone: Vec<&String> = p.pools.keys().filter(|k| !o.pools.contains_key(*k)).collect();
        if !gone.is_empty() {
            d.insert("gone".into(), json!(gone));
        }
        let mut m = Obj::new();
        for (k, v) in &o.bits {
            if p.bits.get(k) != Some(v) {
                m.insert(k.clone(), v.clone());
            }
        }
        if !m.is_empty() {
            d.insert("bits".into(), Value::Object(m));
        }
        let mut m = Obj::new();
        let none = BTreeMap::new();
        for (k, v) in &o.ticks {
            let pv = p.ticks.get(k).unwrap_or(&none);
            let set: Vec<Value> = v.iter().filter(|(i, t)| pv.get(i) != Some(*t)).map(|(_, t)| t.clone()).collect();
            let del: Vec<i32> = pv.keys().filter(|i| !v.contains_key(i)).cloned().collect();
            if !set.is_empty() || !del.is_empty() {
                m.insert(k.clone(), json!({"set": set, "del": del}));
            }
        }
        if !m.is_empty() {
            d.insert("ticks".into(), Value::Object(m));
        }
        let mut m = Obj::new();
        for (k, v) in &o.pos {
            if p.pos.get(k) != Some(v) {
                m.insert(k.clone(), json!(v));
            }
        }
        if !m.is_empty() {
            d.insert("pos".into(), Value::Object(m));
        }
        let mut m = Obj::new();
        for (k, v) in &o.bal {
            if p.bal.get(k) != Some(v) {
                m.insert(k.clone(), json!(v));
            }
        }
        if !m.is_empty() {
            d.insert("bal".into(), Value::Object(m));
        }
        if !o.errs.is_empty() {
            d.insert("errs".into(), json!(o.errs));
        }
        st.insert("d".into(), Value::Object(d));
        self.steps.push(Value::Object(st));
        self.obs = o;
    }

    /// a read-only call whose effects are discarded (observation)
    pub fn peek(&mut self, o: Value) -> Result<Value, String> {
        let (payload, _) = encode(&o);
        let mut c = self.ctx(mkid("u9"), payload, 0);
        c.msg_id = [0xcc; 32];
        let (end, c2) = self.vm.run("handle", c);
        match end {
            End::Done | End::Leave => match c2.reply {
                Some((p, _)) => decode(s(&o, "op"), &p),
                None => Err("no reply".into()),
            },
            End::Fail(e) => Err(e),
            End::Wait(_) => Err("wait".into()),
        }
    }

    pub fn observe(&mut self) -> Obs {
        let im = self.vm.image();
        let mut o = Obs::default();
        let mut errs = vec![];
        macro_rules! q {
            ($v:expr) => {{
                let q = $v;
                match self.peek(q.clone()) {
                    Ok(v) => v,
                    Err(e) => {
                        self.vm.restore(&im);
                        errs.push(format!("{}: {}", q, e.chars().take(100).collect::<String>()));
                        Value::Null
                    }
                }
            }};
        }
        o.pf = q!(json!({"op": "get_pf"}));
        o.tiers = q!(json!({"op": "get_tiers"}));
        let keys = q!(json!({"op": "get_keys", "size": 60000, "off": 0}));
        o.keys = keys[0].clone();
        for k in keys[0].as_array().cloned().unwrap_or_default() {
            self.pools.insert(k.as_str().unwrap().to_string());
        }
        for u in self.users.clone() {
            let p = q!(json!({"op": "get_all_pos", "own": u}));
            o.pos.insert(u.clone(), p.as_array().cloned().unwrap_or_default());
            let b = q!(json!({"op": "get_bal", "own": u}));
            let m = b
                .as_object()
                .map(|m| m.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect())
                .unwrap_or_default();
            o.bal.insert(u, m);
        }
        for ps in o.pos.values() {
            for p in ps {
                for k in ["lo", "up"] {
                    self.probe.insert((s(p, "pool").to_string(), int(p, k) as i32));
                }
            }
        }
        for pk in self.pools.clone() {
            let k = Key::parse(&pk);
            let r = q!(json!({"op": "get_pool", "t0": name(&k.x), "t1": name(&k.y), "fee": k.t.fee.to_string(), "sp": k.t.sp}));
            if r.get("err").is_none() && !r.is_null() {
                o.pools.insert(pk.clone(), r);
            }
            let b = q!(json!({"op": "get_tickmap", "pool": pk}));
            let mut cand: BTreeSet<i32> = self.probe.iter().filter(|(p, _)| *p == pk).map(|(_, t)| *t).collect();
            let sp = k.t.sp as i32;
            for c in b.as_array().cloned().unwrap_or_default() {
                for bit in c[1].as_array().unwrap() {
                    let t = (c[0].as_i64().unwrap() as i32 * 64 + bit.as_i64().unwrap() as i32 - 221818 / sp) * sp;
                    cand.insert(t);
                }
            }
            let mut m = BTreeMap::new();
            for t in cand {
                let r = q!(json!({"op": "get_tick", "pool": pk, "i": t}));
                if r.get("err").is_none() && !r.is_null() {
                    m.insert(t, r);
                }
            }
            o.bits.insert(pk.clone(), if b.is_null() { json!([]) } else { b });
            o.ticks.insert(pk, m);
        }
        self.vm.restore(&im);
        o.errs = errs;
        o
    }

    pub fn trace(&self, tag: &str) -> Value {
        let mut pk = Obj::new();
        let mut names: BTreeSet<String> = self.pools.clone();
        for st in &self.steps {
            if let Some(p) = st.get("pool").and_then(|p| p.as_str()) {
                names.insert(p.to_string());
            }
            if let Some(h) = st.get("hops").and_then(|p| p.as_array()) {
                for x in h {
                    names.insert(s(x, "pool").to_string());
                }
            }
            if s(st, "op") == "create_pool" {
                let (a, b) = (mkid(s(st, "t0")), mkid(s(st, "t1")));
                names.insert(Key::new(a, b, Tier { fee: u128v(st, "fee"), sp: int(st, "sp") as u16 }).name());
            }
        }
        for p in names {
            pk.insert(p.clone(), Key::parse(&p).json());
        }
        json!({"tag": tag, "users": self.users, "pk": pk, "steps": self.steps})
    }
}

pub fn load(path: &str) -> Arc<Code> {
    Arc::new(Code::load(path))
}
