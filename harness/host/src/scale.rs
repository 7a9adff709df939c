//! Hand-written SCALE encoding of the contract's public message format (independent of the code under test).
use primitive_types::U256;
use serde_json::{json, Value};

pub type Id = [u8; 32];

#[derive(Default, Clone)]
pub struct Enc(pub Vec<u8>);
impl Enc {
    pub fn new() -> Enc {
        Enc(vec![])
    }
    pub fn raw(mut self, b: &[u8]) -> Enc {
        self.0.extend_from_slice(b);
        self
    }
    pub fn compact(self, n: u64) -> Enc {
        if n < 64 {
            self.raw(&[(n as u8) << 2])
        } else if n < 1 << 14 {
            self.raw(&(((n as u16) << 2) | 1).to_le_bytes())
        } else {
            self.raw(&(((n as u32) << 2) | 2).to_le_bytes())
        }
    }
    pub fn str(self, s: &str) -> Enc {
        self.compact(s.len() as u64).raw(s.as_bytes())
    }
    pub fn id(self, i: &Id) -> Enc {
        self.raw(i)
    }
    pub fn u8(self, v: u8) -> Enc {
        self.raw(&[v])
    }
    pub fn bool(self, v: bool) -> Enc {
        self.raw(&[v as u8])
    }
    pub fn u16(self, v: u16) -> Enc {
        self.raw(&v.to_le_bytes())
    }
    pub fn u32(self, v: u32) -> Enc {
        self.raw(&v.to_le_bytes())
    }
    pub fn i32(self, v: i32) -> Enc {
        self.raw(&v.to_le_bytes())
    }
    pub fn u128(self, v: u128) -> Enc {
        self.raw(&v.to_le_bytes())
    }
    pub fn u256(self, v: U256) -> Enc {
        let mut b = [0u8; 32];
        v.to_little_endian(&mut b);
        self.raw(&b)
    }
}

pub struct Dec<'a>(pub &'a [u8]);
pub type D<T> = Result<T, String>;
impl<'a> Dec<'a> {
    pub fn take(&mut self, n: usize) -> D<&'a [u8]> {
        if self.0.len() < n {
            return Err("short".into());
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    pub fn u8(&mut self) -> D<u8> {
        Ok(self.take(1)?[0])
    }
    pub fn bool(&mut self) -> D<bool> {
        Ok(self.u8()? != 0)
    }
    pub fn u16(&mut self) -> D<u16> {
        Ok(u16::from_le_bytes(self.take(2)?.try_into().unwrap()))
    }
    pub fn u32(&mut self) -> D<u32> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn i32(&mut self) -> D<i32> {
        Ok(self.u32()? as i32)
    }
    pub fn u64(&mut self) -> D<u64> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn u128(&mut self) -> D<u128> {
        Ok(u128::from_le_bytes(self.take(16)?.try_into().unwrap()))
    }
    pub fn u256(&mut self) -> D<U256> {
        Ok(U256::from_little_endian(self.take(32)?))
    }
    pub fn id(&mut self) -> D<Id> {
        Ok(self.take(32)?.try_into().unwrap())
    }
    pub fn compact(&mut self) -> D<u64> {
        let b = self.u8()?;
        Ok(match b & 3 {
            0 => (b >> 2) as u64,
            1 => ((b as u64) >> 2) | ((self.u8()? as u64) << 6),
            2 => {
                let r = self.take(3)?;
                u32::from_le_bytes([b, r[0], r[1], r[2]]) as u64 >> 2
            }
            _ => return Err("compact".into()),
        })
    }
    pub fn str(&mut self) -> D<String> {
        let n = self.compact()? as usize;
        String::from_utf8(self.take(n)?.to_vec()).map_err(|e| e.to_string())
    }
    pub fn vec<T>(&mut self, mut f: impl FnMut(&mut Self) -> D<T>) -> D<Vec<T>> {
        let n = self.compact()? as usize;
        (0..n).map(|_| f(self)).collect()
    }
    pub fn done(&self) -> D<()> {
        if self.0.is_empty() {
            Ok(())
        } else {
            Err("trailing bytes".into())
        }
    }
}

pub fn name(i: &Id) -> String {
    // actors and tokens have ids [tag; ..] set by the driver; unknown ids are shown in hex
    match i[0] {
        0 if i.iter().all(|b| *b == 0) => "vara".into(),
        _ => {
            let tag = i[0] as char;
            if i[2..].iter().all(|b| *b == i[0]) && (tag == 'u' || tag == 't') {
                format!("{}{}", tag, i[1])
            } else if i.iter().all(|b| *b == 0xee) {
                "self".into()
            } else {
                "x".to_string() + &i.iter().map(|b| format!("{:02x}", b)).collect::<String>()
            }
        }
    }
}
pub fn mkid(s: &str) -> Id {
    match s {
        "vara" => [0; 32],
        "self" => [0xee; 32],
        _ => {
            let b = s.as_bytes();
            if b[0] == b'x' {
                let mut o = [0u8; 32];
                for i in 0..32 {
                    o[i] = u8::from_str_radix(&s[1 + 2 * i..3 + 2 * i], 16).unwrap();
                }
                return o;
            }
            let n: u8 = s[1..].parse().unwrap();
            let mut i = [b[0]; 32];
            i[1] = n;
            i
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Tier {
    pub fee: u128,
    pub sp: u16,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Key {
    pub x: Id,
    pub y: Id,
    pub t: Tier,
}
impl Key {
    pub fn new(a: Id, b: Id, t: Tier) -> Key {
        if a < b {
            Key { x: a, y: b, t }
        } else {
            Key { x: b, y: a, t }
        }
    }
    pub fn name(&self) -> String {
        format!("{}/{}/{}/{}", name(&self.x), name(&self.y), self.t.fee, self.t.sp)
    }
    pub fn parse(s: &str) -> Key {
        let p: Vec<&str> = s.split('/').collect();
        Key { x: mkid(p[0]), y: mkid(p[1]), t: Tier { fee: p[2].parse().unwrap(), sp: p[3].parse().unwrap() } }
    }
    pub fn json(&self) -> Value {
        json!({"x": name(&self.x), "y": name(&self.y), "fee": self.t.fee.to_string(), "sp": self.t.sp})
    }
}
impl Enc {
    pub fn tier(self, t: &Tier) -> Enc {
        self.u128(t.fee).u16(t.sp)
    }
    pub fn key(self, k: &Key) -> Enc {
        self.id(&k.x).id(&k.y).tier(&k.t)
    }
}
impl<'a> Dec<'a> {
    pub fn tier(&mut self) -> D<Tier> {
        Ok(Tier { fee: self.u128()?, sp: self.u16()? })
    }
    pub fn key(&mut self) -> D<Key> {
        Ok(Key { x: self.id()?, y: self.id()?, t: self.tier()? })
    }
    pub fn pool(&mut self) -> D<Value> {
        Ok(json!({
            "liq": self.u256()?.to_string(), "sp": self.u128()?.to_string(), "tick": self.i32()?,
            "fgx": self.u128()?.to_string(), "fgy": self.u128()?.to_string(),
            "fpx": self.u256()?.to_string(), "fpy": self.u256()?.to_string(),
            "st": self.u64()?.to_string(), "lt": self.u64()?.to_string(), "rcv": name(&self.id()?)
        }))
    }
    pub fn tick(&mut self) -> D<Value> {
        let i = self.i32()?;
        let sign = self.bool()?;
        let ch = self.u256()?.to_string();
        let gr = self.u256()?.to_string();
        Ok(json!({"i": i, "sign": sign, "ch": ch, "gr": gr, "sp": self.u128()?.to_string(),
            "fox": self.u128()?.to_string(), "foy": self.u128()?.to_string(), "so": self.u64()?.to_string()}))
    }
    pub fn position(&mut self) -> D<Value> {
        let k = self.key()?;
        Ok(json!({"pool": k.name(), "liq": self.u256()?.to_string(), "lo": self.i32()?, "up": self.i32()?,
            "fix": self.u128()?.to_string(), "fiy": self.u128()?.to_string(), "blk": self.u64()?.to_string(),
            "ox": self.u256()?.to_string(), "oy": self.u256()?.to_string()}))
    }
    pub fn event(&mut self) -> D<Value> {
        let svc = self.str()?;
        let ev = self.str()?;
        if svc != "Service" {
            return Err("service".into());
        }
        let ts = self.u64()?.to_string();
        let who = name(&self.id()?);
        let pool = self.key()?.name();
        let v = match ev.as_str() {
            "PositionCreatedEvent" | "PositionRemovedEvent" => {
                json!({"e": if ev == "PositionCreatedEvent" {"created"} else {"removed"}, "ts": ts, "who": who, "pool": pool,
                "liq": self.u256()?.to_string(), "lo": self.i32()?, "up": self.i32()?, "sp": self.u128()?.to_string()})
            }
            "CrossTickEvent" => {
                json!({"e": "cross", "ts": ts, "who": who, "pool": pool, "idx": self.vec(|d| d.i32())?})
            }
            "SwapEvent" => {
                json!({"e": "swap", "ts": ts, "who": who, "pool": pool, "in": self.u256()?.to_string(),
                "out": self.u256()?.to_string(), "fee": self.u256()?.to_string(), "s0": self.u128()?.to_string(),
                "s1": self.u128()?.to_string(), "xy": self.bool()?})
            }
            _ => return Err("event kind".into()),
        };
        self.done()?;
        Ok(v)
    }
}
