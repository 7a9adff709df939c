//! Seeded scenario generators: they only choose what to do next, looking at the state the contract shows.
use crate::scale::*;
use crate::vm::Code;
use crate::world::*;
use primitive_types::U256;
use rand::prelude::*;
use rand::rngs::StdRng;
use serde_json::{json, Value};

pub const MAXT: i32 = 221818;
const MAX_SP: &str = "65535383934512647000000000000";
const MIN_SP: &str = "15258932000000000000";
const U128MAX: &str = "340282366920938463463374607431768211455";
const E12: u128 = 1_000_000_000_000;

pub struct G<'a> {
    pub r: StdRng,
    pub w: World,
    pub wide: bool,      // whole price range instead of around the current tick
    pub size: u32,       // decimal digits of typical balances
    pub wrap: bool,
    pub ends: bool,
    pub answers: bool,   // transfers are not answered at once
    /// balances up to the largest amount
    pub full: bool,
    pub prof: &'a str,
}

fn dec(s: &str) -> U256 {
    U256::from_dec_str(s).unwrap()
}
fn st(v: U256) -> String {
    v.to_string()
}

impl<'a> G<'a> {
    fn p(&mut self, pr: f64) -> bool {
        self.r.gen_bool(pr)
    }
    fn n(&mut self, a: i64, b: i64) -> i64 {
        self.r.gen_range(a..=b)
    }
    fn pick<T: Clone>(&mut self, v: &[T]) -> Option<T> {
        v.choose(&mut self.r).cloned()
    }
    fn user(&mut self) -> String {
        let i = self.n(0, self.w.users.len() as i64 - 1);
        self.w.users[i as usize].clone()
    }
    /// a number of at most d decimal digits, every length equally likely
    fn num(&mut self, d: u32) -> U256 {
        let k = self.r.gen_range(0..=d);
        let mut v = U256::zero();
        for _ in 0..k {
            v = v * 10 + self.r.gen_range(0..10u32);
        }
        if self.p(0.05) {
            v = U256::from(10).pow(U256::from(k.min(76)));
        }
        v
    }
    fn bal(&self, u: &str, t: &str) -> U256 {
        self.w.obs.bal.get(u).and_then(|b| b.get(t)).map(|s| dec(s)).unwrap_or_default()
    }
    fn frac(&mut self, v: U256) -> U256 {
        // a part of v, often the whole, sometimes one more
        match self.n(0, 9) {
            0 => v,
            1 => v.saturating_add(U256::one()),
            2 => v.saturating_sub(U256::one()),
            _ => {
                let k = self.r.gen_range(0..=60u32);
                let m = self.r.gen_range(1..=1000u32);
                (v >> k).saturating_sub(v / 2000 * (m % 97))
            }
        }
    }
    fn pools(&self) -> Vec<String> {
        self.w.obs.pools.keys().cloned().collect()
    }
    fn pool(&mut self) -> Option<String> {
        let v = self.pools();
        self.pick(&v)
    }
    fn ptick(&self, p: &str) -> i32 {
        self.w.obs.pools[p]["tick"].as_i64().unwrap() as i32
    }
    fn psp(&self, p: &str) -> U256 {
        dec(self.w.obs.pools[p]["sp"].as_str().unwrap())
    }
    fn go(&mut self, o: Value) -> Value {
        self.w.step(o)
    }
    fn ok(r: &Value) -> bool {
        r["out"] == "ok" || r["out"] == "wait"
    }

    // ---- tokens -----------------------------------------------------------------------------------------------
    pub fn pending(&self) -> Vec<String> {
        self.w.transfers.iter().map(|t| t.label.clone()).collect()
    }
    pub fn answer(&mut self, kind: &str) {
        let v = self.pending();
        if let Some(id) = self.pick(&v) {
            self.go(json!({"op":"reply","id":id,"kind":kind}));
        }
    }
    pub fn answer_all(&mut self) {
        while !self.pending().is_empty() {
            self.answer("true");
        }
    }
    pub fn fund(&mut self, u: &str, t: &str, amt: U256) {
        if t == "vara" {
            let a = amt.min(U256::from(u128::MAX >> 3));
            self.go(json!({"op":"dep_vara","who":u,"amt":st(a)}));
            return;
        }
        let r = self.go(json!({"op":"dep1","who":u,"tok":t,"amt":st(amt)}));
        if r["out"] == "wait" {
            let id = self.w.transfers.last().unwrap().label.clone();
            self.go(json!({"op":"reply","id":id,"kind":"true"}));
        }
    }

    // ---- configuration ---------------------------------------------------------------------------------------
    pub fn rnd_fee(&mut self) -> u128 {
        if self.wrap {
            return E12 - self.r.gen_range(1..20);
        }
        match self.n(0, 11) {
            0 => 0,
            1 => 1,
            2 => self.r.gen_range(0..E12),
            3 => E12 / 2,
            4 => E12 / 100,
            5 => E12 - 1,
            6 | 7 => 3 * E12 / 1000,
            8 => 100_000_000,
            _ => 6 * E12 / 1000,
        }
    }
    pub fn rnd_sp(&mut self) -> i64 {
        match self.n(0, 9) {
            0 | 1 => 1,
            2 => 2,
            3 => 100,
            4 => self.n(1, 100),
            5 => 5,
            6 => 64,
            _ => 10,
        }
    }
    pub fn tier(&mut self) -> Option<(u128, i64)> {
        let fee = self.rnd_fee();
        let sp = self.rnd_sp();
        let r = self.go(json!({"op":"add_tier","who":"u0","fee":fee.to_string(),"sp":sp}));
        if Self::ok(&r) {
            Some((fee, sp))
        } else {
            None
        }
    }
    fn tick_price(&mut self, p_sp: i64, tick: i32) -> Option<U256> {
        // price of a tick, as the contract computes it: the step does not care, so take it from the formula
        let _ = p_sp;
        Some(sqrt_price(tick))
    }
    pub fn init_tick(&mut self, sp: i64) -> i32 {
        let sp = sp as i32;
        let m = MAXT / sp * sp;
        let t = if self.ends {
            let k = self.n(0, 300) as i32 * sp;
            if self.p(0.5) {
                (m - k).max(-m)
            } else {
                (-m + k).min(m)
            }
        } else if self.wide {
            self.n((-m / sp) as i64, (m / sp) as i64) as i32 * sp
        } else {
            self.n(-200, 200) as i32 / sp * sp
        };
        t
    }
    pub fn mkpool(&mut self, a: &str, b: &str, fee: u128, sp: i64) -> Option<String> {
        let t = self.init_tick(sp);
        let lo = self.tick_price(sp, t).unwrap();
        let s = match self.n(0, 3) {
            0 if (t as i64 + sp) <= MAXT as i64 => sqrt_price(t + sp as i32) - U256::one(),
            1 if (t as i64 + sp) <= MAXT as i64 => {
                let hi = sqrt_price(t + sp as i32);
                lo + (hi - lo) / 3
            }
            _ => lo,
        };
        let (x, y) = if self.p(0.5) { (a, b) } else { (b, a) };
        let u = self.user();
        let r = self.go(json!({"op":"create_pool","who":u,"t0":x,"t1":y,"fee":fee.to_string(),"sp":sp,"sqrt":st(s),"tick":t}));
        if Self::ok(&r) {
            Some(Key::new(mkid(a), mkid(b), Tier { fee, sp: sp as u16 }).name())
        } else {
            None
        }
    }

    // ---- positions -------------------------------------------------------------------------------------------
    pub fn range(&mut self, p: &str) -> (i32, i32) {
        let k = Key::parse(p);
        let sp = k.t.sp as i32;
        let m = MAXT / sp * sp;
        let c = self.ptick(p);
        let ticks: Vec<i32> = self.w.obs.ticks.get(p).map(|t| t.keys().cloned().collect()).unwrap_or_default();
        let mut one = |g: &mut Self| -> i32 {
            let t = match g.n(0, 9) {
                0 | 1 | 2 if !ticks.is_empty() => g.pick(&ticks).unwrap(),
                3 if g.wide || g.ends => {
                    if g.p(0.5) {
                        m
                    } else {
                        -m
                    }
                }
                4 if g.wide => g.n((-m / sp) as i64, (m / sp) as i64) as i32 * sp,
                5 => c + g.n(-260, 260) as i32 * sp,
                6 | 7 => c + g.n(-2, 2) as i32 * sp,
                _ => c + g.n(-20, 20) as i32 * sp,
            };
            t.max(-m).min(m)
        };
        let (mut a, mut b) = (one(self), one(self));
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        if a == b && !self.p(0.03) {
            b = (a + sp * self.n(1, 8) as i32).min(m);
            if a == b {
                a -= sp;
            }
        }
        if self.p(0.01) {
            a += 1;
        }
        if self.p(0.005) {
            b = m + sp;
        }
        if self.p(0.005) {
            std::mem::swap(&mut a, &mut b);
        }
        (a, b)
    }
    pub fn open(&mut self) {
        let Some(p) = self.pool() else { return };
        let u = self.user();
        let (lo, up) = self.range(&p);
        self.open_at(&p, &u, lo, up);
    }
    pub fn open_at(&mut self, p: &str, u: &str, lo: i32, up: i32) {
        let k = Key::parse(p);
        let b = {
            let (bx, by) = (self.bal(u, &name(&k.x)), self.bal(u, &name(&k.y)));
            // liquidity that costs about the balance: L = amount * 1e5 / (difference of prices)
            let pr = self.psp(p);
            let cl = |t: i32| sqrt_price(t.max(-MAXT).min(MAXT));
            let (pl, ph) = (cl(lo.min(up)), cl(up.max(lo)));
            let cur = pr.max(pl).min(ph);
            let e24 = U256::exp10(24);
            let dy = cur.saturating_sub(pl);
            let ly = if dy.is_zero() { U256::MAX } else { by.checked_mul(U256::exp10(29)).map(|v| v / dy).unwrap_or(by) };
            let dx = ph.saturating_sub(cur);
            let lx = if dx.is_zero() {
                U256::MAX
            } else {
                bx.checked_mul(U256::exp10(5))
                    .and_then(|v| v.checked_mul(cur))
                    .and_then(|v| (v / dx).checked_mul(ph))
                    .map(|v| v / e24)
                    .unwrap_or(bx)
            };
            lx.min(ly)
        };
        let mut liq = match self.n(0, 9) {
            0 => self.num(20),
            1 => self.num(3) + U256::one(),
            2 => b,
            3 => b.saturating_sub(self.num(6)),
            _ => {
                let m = self.r.gen_range(1..=24u32);
                let sh = self.r.gen_range(0..=12u32);
                b / U256::from(m) >> sh
            }
        };
        if self.wrap {
            liq = U256::from(100_000u32) * (self.num(4) + U256::from(200));
        }
        if self.prof == "huge" && self.p(0.2) {
            liq = match self.n(0, 4) {
                0 => U256::MAX,
                1 => U256::MAX / U256::from((2 * MAXT + 1) / k.t.sp as i32),
                2 => U256::MAX / U256::from((2 * MAXT + 1) / k.t.sp as i32) - U256::one(),
                _ => U256::MAX >> self.r.gen_range(0..200u32),
            };
        }
        let sp = self.psp(p);
        let (slo, sup) = match self.n(0, 19) {
            0 => (sp, sp),
            1 => (sp + U256::one(), dec(U128MAX)),
            2 => (U256::zero(), sp - U256::one()),
            3 => (sp - sp / 100, sp + sp / 100),
            _ => (U256::zero(), dec(U128MAX)),
        };
        self.go(json!({"op":"open","who":u,"pool":p,"lo":lo,"up":up,"liq":st(liq),"slo":st(slo),"sup":st(sup)}));
        let n = self.w.steps.len();
        if self.w.steps[n - 1]["out"] == "fail" && self.p(0.7) && !liq.is_zero() {
            let l2 = (liq >> self.r.gen_range(1..20u32)) + U256::one();
            self.go(json!({"op":"open","who":u,"pool":p,"lo":lo,"up":up,"liq":st(l2),"slo":"0","sup":U128MAX}));
        }
    }
    pub fn owner(&mut self) -> Option<(String, i64)> {
        let v: Vec<(String, usize)> =
            self.w.obs.pos.iter().filter(|(_, p)| !p.is_empty()).map(|(u, p)| (u.clone(), p.len())).collect();
        let (u, n) = self.pick(&v)?;
        let i = if self.p(0.04) { n as i64 + self.n(0, 2) } else { self.n(0, n as i64 - 1) };
        Some((u, i))
    }
    pub fn close(&mut self) {
        if let Some((u, i)) = self.owner() {
            let mut o = json!({"op":"close","who":u,"i":i});
            if self.p(0.05) {
                o["who"] = json!(self.user());
            }
            self.go(o);
        }
    }
    pub fn claim(&mut self) {
        if let Some((u, i)) = self.owner() {
            self.go(json!({"op":"claim","who":u,"i":i}));
            if self.p(0.2) {
                self.go(json!({"op":"claim","who":u,"i":i}));
            }
            if self.p(0.1) {
                self.go(json!({"op":"close","who":u,"i":i}));
            }
        }
    }
    pub fn transfer(&mut self) {
        if let Some((u, i)) = self.owner() {
            let to = self.user();
            self.go(json!({"op":"transfer","who":u,"i":i,"to":to}));
        }
    }

    // ---- trades ----------------------------------------------------------------------------------------------
    fn quote(&mut self, p: &str, xy: bool, amt: U256, byin: bool, lim: &str) -> Option<(U256, U256, U256)> {
        let im = self.w.vm.image();
        let r = self.w.peek(json!({"op":"quote","pool":p,"xy":xy,"amt":st(amt),"in":byin,"lim":lim}));
        self.w.vm.restore(&im);
        let r = r.ok()?;
        r.get("out")?;
        Some((u256(&r, "in"), u256(&r, "out"), u256(&r, "s1")))
    }
    fn end(xy: bool) -> &'static str {
        if xy {
            MIN_SP
        } else {
            MAX_SP
        }
    }
    /// smallest amount whose swap reaches the price `target`
    fn reach(&mut self, p: &str, xy: bool, byin: bool, target: U256) -> Option<U256> {
        let lim = target.to_string();
        let hit = |g: &mut Self, a: U256| {
            let im = g.w.vm.image();
            let r = g.w.peek(json!({"op":"quote","pool":p,"xy":xy,"amt":st(a),"in":byin,"lim":lim}));
            g.w.vm.restore(&im);
            match r {
                Ok(r) if r.get("out").is_some() => u256(&r, "s1") == target,
                Ok(r) if r.get("err") == Some(&json!(13)) => false, // no gain
                Ok(r) if r.get("err") == Some(&json!(12)) => true,  // past the limit
                _ => a > U256::from(1000),                          // too small to gain anything, or too large
            }
        };
        let mut hi = U256::one();
        let mut n = 0;
        while !hit(self, hi) {
            hi = hi * 64;
            n += 1;
            if n > 34 {
                return None;
            }
        }
        let mut lo = U256::zero();
        while hi - lo > U256::one() {
            let m = lo + (hi - lo) / 2;
            if hit(self, m) {
                hi = m
            } else {
                lo = m
            }
        }
        Some(hi)
    }
    pub fn trade(&mut self, o: Value) {
        let mut o = o;
        if self.p(0.25) {
            let mut q = o.clone();
            q["op"] = json!("quote");
            self.go(q);
        }
        o["op"] = json!("swap");
        self.go(o);
    }
    pub fn swap(&mut self) {
        let Some(p) = self.pool() else { return };
        self.swap_in(&p);
    }
    pub fn swap_in(&mut self, p: &str) {
        let k = Key::parse(p);
        let mut xy = self.p(0.5);
        // keep away from the ends, unless that is wanted
        let t = self.ptick(p);
        if !self.ends && !self.wide && t.abs() > 3000 && self.p(0.7) {
            xy = t > 0;
        }
        let u = self.user();
        let byin = self.p(0.6);
        let sp = self.psp(p);
        let ticks: Vec<U256> = self.w.obs.ticks.get(p).map(|t| t.values().map(|v| dec(s(v, "sp"))).collect()).unwrap_or_default();
        let ahead: Vec<U256> = ticks.into_iter().filter(|t| if xy { *t <= sp } else { *t >= sp }).collect();
        let tin = name(if xy { &k.x } else { &k.y });
        let b = self.bal(&u, &tin);
        let mut lim = dec(Self::end(xy));
        let mut amt;
        match self.n(0, 11) {
            0 | 1 | 2 if !ahead.is_empty() => {
                // land exactly on (or one off) an initialised tick
                let mut v = ahead.clone();
                v.sort();
                if xy {
                    v.reverse();
                }
                let i = self.n(0, (v.len() as i64 - 1).min(3)) as usize;
                let target = v[i];
                // (searching far away takes long)
                let far = self.w.obs.ticks[p].iter().find(|(_, x)| dec(s(x, "sp")) == target).map_or(0, |(i, _)| (*i as i64 - t as i64).abs());
                let found = if far / (256 * k.t.sp as i64) > 8 && !self.p(0.1) { None } else { self.reach(p, xy, byin, target) };
                match found {
                    Some(a) => {
                        amt = match self.n(0, 5) {
                            0 => a + U256::one(),
                            1 => a.saturating_sub(U256::one()),
                            2 => a + self.num(4),
                            _ => a,
                        };
                        match self.n(0, 4) {
                            0 => lim = target,
                            1 => lim = if xy { target - U256::one() } else { target + U256::one() },
                            _ => {}
                        }
                    }
                    None => amt = self.frac(b),
                }
            }
            3 => {
                // a limit close by
                amt = self.frac(b);
                let d = sp >> self.r.gen_range(4..40u32);
                lim = if xy { sp.saturating_sub(d) } else { sp + d };
            }
            4 => {
                amt = self.num(6);
            }
            5 if !ahead.is_empty() => {
                amt = self.frac(b);
                lim = self.pick(&ahead).unwrap();
            }
            6 => {
                amt = self.frac(b);
                if self.p(0.2) {
                    lim = sp;
                } else if self.p(0.2) {
                    lim = if xy { sp + U256::one() } else { sp - U256::one() };
                } else if self.p(0.1) {
                    lim = if xy { dec(MIN_SP) - U256::one() } else { dec(MAX_SP) + U256::one() };
                } else if self.p(0.1) {
                    lim = U256::zero();
                } else if self.p(0.1) {
                    lim = dec(U128MAX)
                }
            }
            _ => amt = self.frac(b),
        }
        if self.wrap && self.p(0.8) {
            amt = U256::from(E12) * self.r.gen_range(1..60u32) + self.num(10);
        }
        if amt.is_zero() && !self.p(0.05) {
            amt = U256::one();
        }
        if self.prof == "huge" && self.p(0.05) {
            amt = U256::MAX >> self.r.gen_range(0..40u32);
        }
        // mostly trades that go through
        if self.p(0.92) {
            let l = st(lim);
            let a0 = amt;
            for _ in 0..60 {
                match self.quote(p, xy, amt, byin, &l) {
                    Some((i, _, _)) if i <= b => break,
                    _ if amt.is_zero() => break,
                    _ => amt = amt >> self.r.gen_range(1..5u32),
                }
            }
            if amt.is_zero() {
                // nothing works with this limit; try the other way round now and then
                amt = a0;
                if self.p(0.7) {
                    return;
                }
            } else if a0 != amt && self.p(0.5) {
                amt = amt + self.num(3);
            }
        }
        self.trade(json!({"op":"swap","who":u,"pool":p,"xy":xy,"amt":st(amt),"in":byin,"lim":st(lim)}));
    }
    pub fn route(&mut self) {
        let v = self.pools();
        if v.is_empty() {
            return;
        }
        let u = self.user();
        let n = self.n(1, 4);
        let mut hops = vec![];
        // follow the tokens most of the time
        let mut tok: Option<Id> = None;
        for _ in 0..n {
            let c: Vec<String> = v
                .iter()
                .filter(|p| {
                    let k = Key::parse(p);
                    tok.map_or(true, |t| k.x == t || k.y == t)
                })
                .cloned()
                .collect();
            let p = if c.is_empty() || self.p(0.03) { self.pick(&v).unwrap() } else { self.pick(&c).unwrap() };
            let k = Key::parse(&p);
            let xy = match tok {
                Some(t) if self.p(0.98) => k.x == t,
                _ => self.p(0.5),
            };
            tok = Some(if xy { k.y } else { k.x });
            hops.push(json!({"pool": p, "xy": xy}));
        }
        if self.p(0.02) {
            hops.clear();
        }
        let first = hops.first().map(|h| (Key::parse(s(h, "pool")), h["xy"].as_bool().unwrap()));
        let b = first.map(|(k, xy)| self.bal(&u, &name(if xy { &k.x } else { &k.y }))).unwrap_or(U256::one());
        let mut amt = if self.p(0.3) { self.num(self.size / 2 + 1) } else { self.frac(b) };
        let mut q = json!({"op":"quote_route","who":u,"amt":st(amt),"hops":hops});
        let im = self.w.vm.image();
        let mut est;
        let mut n = 0;
        loop {
            est = self.w.peek(q.clone()).ok().and_then(|v| v.as_str().map(|s| dec(s)));
            self.w.vm.restore(&im);
            n += 1;
            if est.is_some() && amt <= b || n > 40 || amt.is_zero() || self.p(0.02) {
                break;
            }
            amt = amt >> self.r.gen_range(1..5u32);
            q["amt"] = json!(st(amt));
        }
        if est.is_none() && self.p(0.7) {
            return;
        }
        let quoted = self.p(0.3);
        if quoted {
            self.go(q);
        }
        let mut slip = match self.n(0, 4) {
            0 => 0,
            1 => E12 / 100,
            2 => self.r.gen_range(0..E12),
            3 => E12,
            _ => E12 / 1000,
        };
        if self.p(0.02) {
            slip = E12 + 1;
        }
        let e = est.unwrap_or(amt);
        let exp = match self.n(0, 5) {
            0 => U256::zero(),
            1 => e,
            2 => e + U256::one(),
            // just at the tolerance
            3 if slip < E12 => {
                let x = e.saturating_mul(U256::from(E12)) / U256::from(E12 - slip);
                if self.p(0.5) {
                    x
                } else {
                    x + U256::one()
                }
            }
            _ => e / 2,
        };
        self.go(json!({"op":"route","who":u,"amt":st(amt),"exp":st(exp),"slip":slip.to_string(),"hops":hops}));
        if self.p(0.2) {
            self.go(json!({"op":"route","who":u,"amt":st(amt),"exp":"0","slip":"0","hops":hops}));
        }
    }

    // ---- protocol fee, configuration by anybody ---------------------------------------------------------------
    pub fn config(&mut self) {
        let u = if self.p(0.6) { "u0".to_string() } else { self.user() };
        match self.n(0, 11) {
            0 | 1 => {
                let v = match self.n(0, 5) {
                    0 => 0,
                    1 => E12,
                    2 => E12 + 1,
                    3 => E12 / 100,
                    4 => self.r.gen_range(0..E12),
                    _ => 1,
                };
                let v = if self.prof != "config" && v > E12 { E12 / 4 } else { v };
                self.go(json!({"op":"set_pf","who":u,"v":v.to_string()}));
            }
            2 => {
                let fee = match self.n(0, 5) {
                    0 => E12,
                    1 => E12 + 1,
                    2 => u128::MAX,
                    _ => self.rnd_fee(),
                };
                let sp = match self.n(0, 5) {
                    0 => 0,
                    1 => 101,
                    2 => 65535,
                    _ => self.rnd_sp(),
                };
                self.go(json!({"op":"add_tier","who":u,"fee":fee.to_string(),"sp":sp}));
                if self.p(0.3) {
                    self.go(json!({"op":"add_tier","who":u,"fee":fee.to_string(),"sp":sp}));
                }
            }
            3 => {
                let t = self.w.obs.tiers.as_array().cloned().unwrap_or_default();
                if let Some(t) = self.pick(&t) {
                    let mut o = json!({"op":"rm_tier","who":u,"fee":t["fee"],"sp":t["sp"]});
                    if self.p(0.2) {
                        o["sp"] = json!(self.n(1, 100));
                    }
                    self.go(o.clone());
                    if self.p(0.7) {
                        // put it back (at the end of the list)
                        o["op"] = json!("add_tier");
                        o["who"] = json!("u0");
                        self.go(o);
                    }
                }
            }
            4 | 5 => {
                if let Some(p) = self.pool() {
                    let rcv = self.user();
                    self.go(json!({"op":"set_rcv","who":u,"pool":p,"rcv":rcv}));
                }
            }
            6 | 7 | 8 => {
                if let Some(p) = self.pool() {
                    let who = if self.p(0.7) { s(&self.w.obs.pools[&p], "rcv").to_string() } else { u };
                    if self.w.users.contains(&who) {
                        self.go(json!({"op":"wpf","who":who,"pool":p}));
                        if self.p(0.2) {
                            self.go(json!({"op":"wpf","who":who,"pool":p}));
                        }
                    }
                }
            }
            _ => self.create_any(),
        }
    }
    pub fn create_any(&mut self) {
        let toks = ["t1", "t2", "t3", "vara"];
        let a = self.pick(&toks).unwrap();
        let b = self.pick(&toks).unwrap();
        let tiers = self.w.obs.tiers.as_array().cloned().unwrap_or_default();
        let (fee, sp) = match self.pick(&tiers) {
            Some(t) if self.p(0.9) => (u128v(&t, "fee"), int(&t, "sp")),
            _ => (self.rnd_fee(), self.rnd_sp()),
        };
        if sp < 1 || sp > 100 {
            return;
        }
        if self.p(0.7) && a != b {
            if let Some(p) = self.mkpool(a, b, fee, sp) {
                let _ = p;
            }
            return;
        }
        // a bad price or tick
        let t = self.init_tick(sp);
        let m = MAXT / sp as i32 * sp as i32;
        let (tick, sq) = match self.n(0, 6) {
            0 => (t + 1, sqrt_price(t)),
            1 => (t, sqrt_price(t) - U256::one()),
            2 => (t, sqrt_price((t + sp as i32).min(MAXT))),
            3 => (m + sp as i32, sqrt_price(m)),
            4 => (-m, sqrt_price(-m) - U256::one()),
            5 => (m, sqrt_price(m) + U256::one()),
            _ => (m, sqrt_price(m)),
        };
        let u = self.user();
        self.go(json!({"op":"create_pool","who":u,"t0":a,"t1":b,"fee":fee.to_string(),"sp":sp,"sqrt":st(sq),"tick":tick}));
    }

    /// an amount to deposit; in some histories balances reach the largest amount there is
    fn dep_amt(&mut self, u: &str, t: &str) -> U256 {
        if !self.full || self.p(0.5) {
            return self.num(self.size);
        }
        let room = U256::MAX - self.bal(u, t);
        match self.n(0, 5) {
            0 => room,
            1 => room.saturating_add(U256::one()),
            2 => room.saturating_sub(self.num(4)),
            3 => room / 2 + U256::from(self.n(0, 2)),
            4 => room.saturating_add(self.num(4)),
            _ => U256::MAX,
        }
    }
    // ---- deposits and withdrawals ----------------------------------------------------------------------------
    pub fn money(&mut self) {
        let u = self.user();
        let toks = ["t1", "t2", "t3", "t1", "t2", "t3", "vara"];
        let t = self.pick(&toks).unwrap();
        let t2 = self.pick(&toks).unwrap();
        let mut o = match self.n(0, 9) {
            0 | 1 => {
                let a = self.dep_amt(&u, t);
                json!({"op":"dep1","who":u,"tok":t,"amt":st(a)})
            }
            2 | 3 => {
                let (a, b) = (self.dep_amt(&u, t), self.dep_amt(&u, t2));
                json!({"op":"dep2","who":u,"tx":t,"ax":st(a),"ty":t2,"ay":st(b)})
            }
            4 | 5 => {
                let b = self.bal(&u, t);
                let a = if self.p(0.3) { Value::Null } else { json!(st(self.frac(b))) };
                json!({"op":"wd1","who":u,"tok":t,"amt":a})
            }
            6 | 7 => {
                let (b, b2) = (self.bal(&u, t), self.bal(&u, t2));
                let a = if self.p(0.3) { Value::Null } else { json!(st(self.frac(b))) };
                let a2 = if self.p(0.3) { Value::Null } else { json!(st(self.frac(b2))) };
                json!({"op":"wd2","who":u,"tx":t,"ax":a,"ty":t2,"ay":a2})
            }
            8 => json!({"op":"dep_vara","who":u,"amt":st(self.num(20))}),
            _ => {
                let b = self.bal(&u, "vara");
                let a = if self.p(0.3) { Value::Null } else { json!(st(self.frac(b))) };
                json!({"op":"wd_vara","who":u,"amt":a})
            }
        };
        let op = s(&o, "op").to_string();
        if op != "dep_vara" && op != "wd_vara" {
            if self.p(if self.answers { 0.2 } else { 0.1 }) {
                let cost = 42_400_200_000u64;
                let g = match self.n(0, 6) {
                    0 => cost,
                    1 => cost - 1,
                    2 => 2 * cost,
                    3 => 2 * cost - 1,
                    4 => self.r.gen_range(cost..2 * cost),
                    _ => self.r.gen_range(0..3 * cost),
                };
                o["gas"] = json!(g.to_string());
            }
            if self.prof == "async" && self.p(0.05) {
                o["val"] = json!(st(self.num(12)));
            }
        } else if op == "wd_vara" && self.p(0.05) {
            o["val"] = json!(st(self.num(12)));
        }
        let r = self.go(o);
        if r["out"] == "wait" && (!self.answers || self.p(0.3)) {
            let all = self.p(0.8);
            let kind = if all { "true" } else { self.kind() };
            let n = self.pending().len();
            for _ in 0..n {
                let id = match self.w.transfers.last() {
                    Some(t) => t.label.clone(),
                    None => break,
                };
                self.go(json!({"op":"reply","id":id,"kind":kind}));
                if self.answers {
                    break;
                }
            }
        }
    }
    pub fn kind(&mut self) -> &'static str {
        *["true", "true", "true", "false", "false", "panic", "panic_raw", "oog", "nocode", "empty_err", "err_true", "auto", "garbage",
            "wrong_svc", "wrong_act"]
            .choose(&mut self.r)
            .unwrap()
    }
    pub fn reply(&mut self) {
        let k = self.kind();
        self.answer(k);
    }
    pub fn time(&mut self) {
        let blocks = match self.n(0, 5) {
            0 => 0,
            1 => 1,
            2 => self.n(1, 10),
            3 => self.n(1, 99),
            4 => self.n(101, 220),
            _ => self.n(1, 30),
        };
        let ms = match self.n(0, 6) {
            0 => 0,
            1 => 1,
            2 => self.n(0, 1 << 40) as u64,
            _ => blocks as u64 * 3000 + self.n(0, 10) as u64,
        };
        self.go(json!({"op":"tick","blocks":blocks,"ms":ms.to_string()}));
    }

    // ---- queries ---------------------------------------------------------------------------------------------
    pub fn query(&mut self) {
        let own = self.user();
        let who = self.user();
        let npos = self.w.obs.pos.get(&own).map(|p| p.len()).unwrap_or(0) as i64;
        let pool = self.pool();
        let page = |g: &mut Self, n: i64| -> (i64, i64) {
            let off = g.n(0, n + 1);
            let size = match g.n(0, 4) {
                0 => 0,
                1 => 1,
                2 => n,
                3 => n + 5,
                _ => g.n(0, n + 1),
            };
            (size, off)
        };
        let o = match self.n(0, 19) {
            0 => json!({"op":"get_pf"}),
            1 => json!({"op":"get_tiers"}),
            2 => {
                let t = self.w.obs.tiers.as_array().cloned().unwrap_or_default();
                match self.pick(&t) {
                    Some(t) if self.p(0.7) => json!({"op":"tier_exists","fee":t["fee"],"sp":t["sp"]}),
                    _ => json!({"op":"tier_exists","fee":self.rnd_fee().to_string(),"sp":self.rnd_sp()}),
                }
            }
            3 => match pool {
                Some(p) => {
                    let k = Key::parse(&p);
                    let (a, b) = if self.p(0.5) { (k.x, k.y) } else { (k.y, k.x) };
                    let a = if self.p(0.1) { b } else { a };
                    json!({"op":"get_pool","t0":name(&a),"t1":name(&b),"fee":k.t.fee.to_string(),"sp":k.t.sp})
                }
                None => json!({"op":"get_pool","t0":"t1","t1":"t2","fee":"1","sp":1}),
            },
            4 => {
                let n = self.w.obs.keys.as_array().map(|k| k.len()).unwrap_or(0) as i64;
                let (size, off) = page(self, n);
                if self.p(0.05) {
                    json!({"op":"get_keys","size":65535,"off":off})
                } else {
                    json!({"op":"get_keys","size":size,"off":off})
                }
            }
            5 => json!({"op":"get_pos","own":own,"i":self.n(0, npos)}),
            6 => json!({"op":"get_posa","own":own,"i":self.n(0, npos)}),
            7 | 8 => match pool {
                Some(p) => {
                    let t: Vec<i32> = self.w.obs.ticks.get(&p).map(|t| t.keys().cloned().collect()).unwrap_or_default();
                    let sp = Key::parse(&p).t.sp as i32;
                    let m = MAXT / sp * sp;
                    let i = match self.pick(&t) {
                        Some(i) if self.p(0.6) => i,
                        Some(i) if self.p(0.5) => (i + sp * self.n(-2, 2) as i32).max(-m).min(m),
                        _ => self.n((-m / sp) as i64, (m / sp) as i64) as i32 * sp,
                    };
                    if self.p(0.5) {
                        json!({"op":"get_tick","pool":p,"i":i})
                    } else {
                        json!({"op":"tick_init","pool":p,"i":i})
                    }
                }
                None => return,
            },
            9 => json!({"op":"get_all_pos","own":own}),
            10 => json!({"op":"pos_count","own":own}),
            11 => json!({"op":"get_bal","own":own}),
            12 | 13 => {
                let (size, off) = page(self, npos);
                let off = off.min(npos);
                json!({"op":"get_positions","own":own,"size":size,"off":off})
            }
            14 => match pool {
                Some(p) => json!({"op":"tick_count","pool":p}),
                None => return,
            },
            15 => match pool {
                Some(p) => json!({"op":"get_tickmap","pool":p}),
                None => return,
            },
            16 => {
                let toks = ["t1", "t2", "t3", "vara"];
                json!({"op":"pools_pair","t0":self.pick(&toks),"t1":self.pick(&toks)})
            }
            17 => match pool {
                Some(p) => {
                    let t: Vec<i32> = self.w.obs.ticks.get(&p).map(|t| t.keys().cloned().collect()).unwrap_or_default();
                    let n = self.n(0, t.len() as i64);
                    let mut v: Vec<i32> = t.choose_multiple(&mut self.r, n as usize).cloned().collect();
                    if self.p(0.1) {
                        v.push(self.n(-200000, 200000) as i32);
                    }
                    json!({"op":"liq_ticks","pool":p,"ticks":v})
                }
                None => return,
            },
            _ => json!({"op":"pos_ticks","own":own,"off":self.n(0, npos)}),
        };
        let mut o = o;
        o["who"] = json!(who);
        self.go(o);
    }

    // ---- leaving ---------------------------------------------------------------------------------------------
    pub fn exit(&mut self) {
        // no transfer is left unanswered
        self.answer_all();
        if self.full {
            self.empty();
        }
        let mut todo = vec![];
        for p in self.pools() {
            todo.push(("wpf", p, String::new()));
        }
        for (u, ps) in self.w.obs.pos.clone() {
            for _ in ps {
                todo.push(("close", u.clone(), String::new()));
            }
        }
        let n = todo.len() / 3;
        for _ in 0..n {
            todo.push(("claim", String::new(), String::new()));
        }
        for (u, b) in self.w.obs.bal.clone() {
            for t in b.keys() {
                if self.p(0.3) {
                    todo.push(("wd", u.clone(), t.clone()));
                }
            }
        }
        todo.shuffle(&mut self.r);
        for (k, a, t) in todo {
            match k {
                "wpf" => {
                    let who = s(&self.w.obs.pools[&a], "rcv").to_string();
                    self.go(json!({"op":"wpf","who":who,"pool":a,"must":true}));
                }
                "close" => {
                    let n = self.w.obs.pos.get(&a).map(|p| p.len()).unwrap_or(0) as i64;
                    if n > 0 {
                        let i = self.n(0, n - 1);
                        self.go(json!({"op":"close","who":a,"i":i,"must":true}));
                    }
                }
                "claim" => {
                    let v: Vec<(String, usize)> =
                        self.w.obs.pos.iter().filter(|(_, p)| !p.is_empty()).map(|(u, p)| (u.clone(), p.len())).collect();
                    if let Some((u, n)) = self.pick(&v) {
                        let i = self.n(0, n as i64 - 1);
                        self.go(json!({"op":"claim","who":u,"i":i,"must":true}));
                    }
                }
                _ => self.withdraw(&a, &t),
            }
        }
        self.empty();
    }
    fn empty(&mut self) {
        for (u, b) in self.w.obs.bal.clone() {
            for t in b.keys() {
                self.withdraw(&u, t);
            }
        }
    }
    fn withdraw(&mut self, u: &str, t: &str) {
        let all = self.p(0.5);
        let a = if all { Value::Null } else { json!(st(self.bal(u, t))) };
        if self.bal(u, t).is_zero() {
            return;
        }
        if t == "vara" {
            self.go(json!({"op":"wd_vara","who":u,"amt":a,"must":true}));
        } else {
            self.go(json!({"op":"wd1","who":u,"tok":t,"amt":a,"must":true}));
            self.answer_all();
        }
    }
}

/// the price of a tick (only used to choose interesting inputs)
pub fn sqrt_price(t: i32) -> U256 {
    let f: [u128; 18] = [
        1000049998750, 1000100000000, 1000200010000, 1000400060004, 1000800280056, 1001601200560, 1003204964963, 1006420201726,
        1012881622442, 1025929181080, 1052530684591, 1107820842005, 1227267017980, 1506184333421, 2268591246242, 5146506242525,
        26486526504348, 701536086265529,
    ];
    let e = U256::from(E12);
    let mut a = e;
    for (k, c) in f.iter().enumerate() {
        if t.unsigned_abs() >> k & 1 == 1 {
            a = a * U256::from(*c) / e;
        }
    }
    if t < 0 {
        a = e * e / a;
    }
    a * e
}

pub fn scenario(code: &Code, prof: &str, seed: u64, steps: usize) -> Value {
    let mut r = StdRng::seed_from_u64(seed);
    let users: &[&str] = if prof == "async" { &["u0", "u1", "u2"] } else { &["u0", "u1", "u2", "u3"] };
    let pf = match r.gen_range(0..4) {
        0 => 0,
        1 => E12 / 100,
        2 => r.gen_range(0..E12),
        _ => E12 / 4,
    };
    let w = World::new(code, users, pf, 1_700_000_000_000 + r.gen_range(0..1000000));
    let size = match prof {
        "huge" => r.gen_range(30..=70),
        "wrap" => 24,
        "ends" => r.gen_range(20..=40),
        _ => *[4, 8, 12, 16, 20, 27].choose(&mut r).unwrap(),
    };
    let wide = matches!(prof, "huge" | "ends") || r.gen_bool(0.15);
    let full = matches!(prof, "async" | "mixed") && r.gen_bool(0.2);
    let mut g = G { r, w, wide, size, wrap: prof == "wrap", ends: prof == "ends", answers: prof == "async", full, prof };
    // tokens and pools
    if prof != "config" && prof != "async" || g.p(0.7) {
        let npools = match prof {
            "route" => g.n(3, 5),
            "query" | "mixed" => g.n(1, 5),
            _ => g.n(1, 2),
        };
        let toks: Vec<&str> = if g.p(0.12) { vec!["t1", "t2", "vara"] } else { vec!["t1", "t2", "t3"] };
        let mut tiers = vec![];
        for _ in 0..g.n(1, 3) {
            if let Some(t) = g.tier() {
                tiers.push(t);
            }
        }
        for k in 0..npools {
            let (a, b) = match (prof, k) {
                ("route", 0) => (toks[0], toks[1]),
                ("route", 1) => (toks[1], toks[2]),
                ("route", 2) => (toks[0], toks[2]),
                (_, 0) => (toks[0], toks[1]),
                _ => {
                    let a = g.n(0, 2) as usize;
                    (toks[a], toks[(a + g.n(1, 2) as usize) % 3])
                }
            };
            if let Some((fee, sp)) = g.pick(&tiers) {
                g.mkpool(a, b, fee, sp);
            }
        }
        for u in users {
            for t in &toks {
                if g.p(0.8) {
                    let a = U256::exp10(g.size as usize) * g.r.gen_range(1..10u32) + g.num(g.size);
                    g.fund(u, t, a);
                }
            }
        }
        if prof != "config" && prof != "async" {
            for p in g.pools() {
                // some liquidity around the current price
                let sp = Key::parse(&p).t.sp as i32;
                let m = MAXT / sp * sp;
                let t = g.ptick(&p);
                let w = if g.wide { g.n(1, 2 * (m / sp) as i64) } else { g.n(1, 200) } as i32 * sp;
                let u = g.user();
                g.open_at(&p, &u, (t - w).max(-m), (t + w).min(m));
            }
            for _ in 0..g.n(1, 5) {
                g.open();
            }
        }
    }
    // (open, close, claim, transfer, swap, route, config, money, reply, time, query)
    let wts: [u32; 11] = match prof {
        "amm" => [14, 7, 6, 2, 40, 3, 4, 2, 0, 6, 0],
        "async" => [2, 1, 1, 0, 4, 0, 1, 40, 40, 12, 0],
        "config" => [4, 1, 0, 0, 4, 1, 60, 2, 0, 4, 6],
        "query" => [14, 5, 2, 4, 8, 1, 4, 1, 0, 2, 60],
        "huge" => [20, 8, 8, 2, 40, 4, 3, 4, 0, 4, 0],
        "wrap" => [12, 5, 10, 2, 50, 0, 2, 0, 0, 5, 0],
        "ends" => [14, 7, 6, 2, 44, 3, 4, 1, 0, 6, 2],
        "route" => [8, 3, 2, 1, 12, 50, 3, 2, 0, 3, 0],
        "pos" => [34, 22, 10, 22, 12, 0, 1, 1, 0, 3, 4],
        "quote" => [14, 6, 2, 1, 60, 14, 3, 1, 0, 3, 0],
        _ => [14, 7, 5, 3, 24, 6, 8, 10, 6, 6, 8],
    };
    let sum: u32 = wts.iter().sum();
    let n0 = g.w.steps.len();
    while g.w.steps.len() < n0 + steps {
        let mut x = g.r.gen_range(0..sum);
        let mut k = 0;
        while x >= wts[k] {
            x -= wts[k];
            k += 1;
        }
        let before = g.w.steps.len();
        match k {
            0 => g.open(),
            1 => g.close(),
            2 => g.claim(),
            3 => g.transfer(),
            4 => g.swap(),
            5 => g.route(),
            6 => g.config(),
            7 => g.money(),
            8 => g.reply(),
            9 => g.time(),
            _ => g.query(),
        }
        if g.w.steps.len() == before {
            if g.p(0.5) {
                g.time();
            } else {
                g.open();
            }
        }
        // the same request again after a failure fails again
        let n = g.w.steps.len();
        if g.w.steps[n - 1]["out"] == "fail" && g.p(0.06) {
            let mut o = g.w.steps[n - 1].clone();
            let m = o.as_object_mut().unwrap();
            for k in ["id", "blk", "ts", "out", "err", "res", "rv", "ev", "msgs", "fin", "nb", "d"] {
                m.remove(k);
            }
            if o["op"] != "reply" {
                g.go(o);
            }
        }
    }
    if prof != "huge" && g.r.gen_bool(if prof == "async" { 0.3 } else { 0.5 }) {
        g.exit();
    }
    g.w.trace(&format!("{}-{}", prof, seed))
}
