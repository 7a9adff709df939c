//! A small stand-in for serde_json (which cannot be linked into the program: serde comes with std here).
use alloc::string::{String, ToString};
use alloc::vec::Vec;
use core::fmt;
use core::ops::Index;

#[derive(Clone)]
pub enum Value {
    Null,
    Bool(bool),
    Int(i64),
    String(String),
    Arr(Vec<Value>),
    Obj(Vec<(String, Value)>),
}
pub static NULL: Value = Value::Null;

impl Value {
    pub fn as_i64(&self) -> Option<i64> {
        if let Value::Int(x) = self { Some(*x) } else { None }
    }
    pub fn as_bool(&self) -> Option<bool> {
        if let Value::Bool(x) = self { Some(*x) } else { None }
    }
    pub fn as_array(&self) -> Option<&Vec<Value>> {
        if let Value::Arr(x) = self { Some(x) } else { None }
    }
}
impl Index<&str> for Value {
    type Output = Value;
    fn index(&self, k: &str) -> &Value {
        match self {
            Value::Obj(o) => o.iter().find(|e| e.0 == k).map(|e| &e.1).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
}
impl Index<usize> for Value {
    type Output = Value;
    fn index(&self, k: usize) -> &Value {
        self.as_array().and_then(|v| v.get(k)).unwrap_or(&NULL)
    }
}
macro_rules! from { ($v:ident: $($t:ty => $e:expr),*) => { $(impl From<$t> for Value { fn from($v: $t) -> Value { $e } })* } }
from!(x: i32 => Value::Int(x as i64), u8 => Value::Int(x as i64), u16 => Value::Int(x as i64), u32 => Value::Int(x as i64), i64 => Value::Int(x), u64 => Value::Int(x as i64), usize => Value::Int(x as i64),
    bool => Value::Bool(x), &str => Value::String(x.into()), String => Value::String(x), Vec<Value> => Value::Arr(x));

impl fmt::Display for Value {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Value::Null => write!(f, "null"),
            Value::Bool(x) => write!(f, "{}", x),
            Value::Int(x) => write!(f, "{}", x),
            Value::String(x) => {
                let x: String = x.chars().map(|c| if c == '"' || c == '\\' || c < ' ' { ' ' } else { c }).collect();
                write!(f, "\"{}\"", x)
            }
            Value::Arr(v) => {
                write!(f, "[")?;
                for (k, x) in v.iter().enumerate() {
                    write!(f, "{}{}", if k > 0 { "," } else { "" }, x)?;
                }
                write!(f, "]")
            }
            Value::Obj(v) => {
                write!(f, "{{")?;
                for (k, x) in v.iter().enumerate() {
                    write!(f, "{}\"{}\":{}", if k > 0 { "," } else { "" }, x.0, x.1)?;
                }
                write!(f, "}}")
            }
        }
    }
}

/// Strings without escapes, integers, true/false/null, arrays, objects.
pub fn parse(b: &[u8]) -> Value {
    let mut at = 0;
    value(b, &mut at)
}
fn ws(b: &[u8], at: &mut usize) -> u8 {
    while b[*at] == b' ' {
        *at += 1;
    }
    b[*at]
}
fn string(b: &[u8], at: &mut usize) -> String {
    *at += 1;
    let from = *at;
    while b[*at] != b'"' {
        *at += 1;
    }
    *at += 1;
    core::str::from_utf8(&b[from..*at - 1]).unwrap().to_string()
}
fn value(b: &[u8], at: &mut usize) -> Value {
    match ws(b, at) {
        b'"' => Value::String(string(b, at)),
        b'[' => {
            let mut v = Vec::new();
            *at += 1;
            while ws(b, at) != b']' {
                v.push(value(b, at));
                if ws(b, at) == b',' {
                    *at += 1;
                }
            }
            *at += 1;
            Value::Arr(v)
        }
        b'{' => {
            let mut v = Vec::new();
            *at += 1;
            while ws(b, at) != b'}' {
                let k = string(b, at);
                ws(b, at);
                *at += 1;
                v.push((k, value(b, at)));
                if ws(b, at) == b',' {
                    *at += 1;
                    ws(b, at);
                }
            }
            *at += 1;
            Value::Obj(v)
        }
        b't' => {
            *at += 4;
            Value::Bool(true)
        }
        b'f' => {
            *at += 5;
            Value::Bool(false)
        }
        b'n' => {
            *at += 4;
            Value::Null
        }
        _ => {
            let from = *at;
            while *at < b.len() && (b[*at] == b'-' || b[*at].is_ascii_digit()) {
                *at += 1;
            }
            Value::Int(core::str::from_utf8(&b[from..*at]).unwrap().parse().unwrap())
        }
    }
}

#[macro_export]
macro_rules! json {
    ([ $($e:expr),* $(,)? ]) => { Value::Arr(alloc::vec![$(Value::from($e)),*]) };
    ({ $($k:literal : $e:expr),* $(,)? }) => { Value::Obj(alloc::vec![$(($k.to_string(), Value::from($e))),*]) };
    ($e:expr) => { Value::from($e) };
}
