//! Minimal stand-in for the Gear executor: runs the compiled contract program message by message.
//! State of the program = its linear memory; a failed message is rolled back to the image it started from.
use std::sync::Arc;
use wasmer::wasmparser::{BlockType, Operator};
use wasmer::*;
use wasmer_types::{GlobalIndex, GlobalInit, LocalFunctionIndex, MiddlewareError, ModuleInfo};

/// Bounds the loop iterations of one entry point (the counterpart of running out of gas): a program
/// that would never return fails instead.
const FUEL: i64 = 300_000_000;
const FUEL_NAME: &str = "__fuel";

#[derive(Debug, Default)]
struct Fuel(std::sync::Mutex<Option<GlobalIndex>>);
#[derive(Debug)]
struct FuelFn(GlobalIndex);

impl ModuleMiddleware for Fuel {
    fn generate_function_middleware(&self, _: LocalFunctionIndex) -> Box<dyn FunctionMiddleware> {
        Box::new(FuelFn(self.0.lock().unwrap().unwrap()))
    }
    fn transform_module_info(&self, m: &mut ModuleInfo) -> Result<(), MiddlewareError> {
        let g = m.globals.push(GlobalType::new(Type::I64, Mutability::Var));
        m.global_initializers.push(GlobalInit::I64Const(FUEL));
        m.exports.insert(FUEL_NAME.to_string(), wasmer_types::ExportIndex::Global(g));
        *self.0.lock().unwrap() = Some(g);
        Ok(())
    }
}

impl FunctionMiddleware for FuelFn {
    fn feed<'a>(&mut self, op: Operator<'a>, st: &mut MiddlewareReaderState<'a>) -> Result<(), MiddlewareError> {
        let is_loop = matches!(op, Operator::Loop { .. });
        st.push_operator(op);
        if is_loop {
            let g = self.0.as_u32();
            st.extend(&[
                Operator::GlobalGet { global_index: g },
                Operator::I64Const { value: 1 },
                Operator::I64Sub,
                Operator::GlobalSet { global_index: g },
                Operator::GlobalGet { global_index: g },
                Operator::I64Eqz,
                Operator::If { blockty: BlockType::Empty },
                Operator::Unreachable,
                Operator::End,
            ]);
        }
        Ok(())
    }
}

#[derive(Debug, Clone)]
pub struct Outgoing {
    pub id: [u8; 32],
    pub dest: [u8; 32],
    pub payload: Vec<u8>,
    pub value: u128,
    pub gas: Option<u64>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum End {
    Done,
    Leave,
    Wait(u32),
    Fail(String),
}

#[derive(Default, Clone)]
pub struct Ctx {
    // input
    pub msg_id: [u8; 32],
    pub source: [u8; 32],
    pub payload: Vec<u8>,
    pub value: u128,
    pub reply_to: [u8; 32],
    pub reply_code: [u8; 4],
    pub signal_from: [u8; 32],
    pub gas: u64,
    pub balance: u128,
    pub block: u32,
    pub ts: u64,
    // output
    pub sent: Vec<Outgoing>,
    pub reply: Option<(Vec<u8>, u128)>,
    pub woken: Vec<[u8; 32]>,
    pub panic: Option<String>,
    pub reserved: bool,
    pub next_id: u64,
}

struct Env {
    mem: Option<Memory>,
    ctx: Ctx,
    pages: Vec<bool>, // heap page occupancy, index from static pages
    stat: u32,
}

#[derive(Debug)]
enum Stop {
    Leave,
    Wait(u32),
    Panic(String),
}
impl std::fmt::Display for Stop {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for Stop {}

pub const PROGRAM: [u8; 32] = [0xee; 32];

#[derive(Clone)]
pub struct Image {
    pub mem: Arc<Vec<u8>>,
    pub pages: Vec<bool>,
}

pub struct Code {
    pub engine: Engine,
    pub module: Module,
}

impl Code {
    pub fn load(path: &str) -> Code {
        let bytes = std::fs::read(path).expect("contract wasm");
        let mut compiler = wasmer::Cranelift::default();
        compiler.push_middleware(Arc::new(Fuel::default()));
        let engine: Engine = wasmer::sys::EngineBuilder::new(compiler).engine().into();
        let module = Module::new(&engine, bytes).expect("compile contract");
        Code { engine, module }
    }
}

pub struct Vm {
    store: Store,
    env: FunctionEnv<Env>,
    mem: Memory,
    inst: Instance,
    sp: Global,
    fuel: Global,
    sp0: Value,
    /// bytes below this are only the stack, which is empty between messages
    low: usize,
}

type M<'a> = FunctionEnvMut<'a, Env>;
type R<T> = Result<T, RuntimeError>;

fn wr(m: &mut M, ptr: u32, b: &[u8]) -> R<()> {

    let mem = m.data().mem.clone().unwrap();
    mem.view(&m).write(ptr as u64, b).map_err(|e| RuntimeError::new(e.to_string()))
}
fn rd(m: &mut M, ptr: u32, n: u32) -> R<Vec<u8>> {
    let mem = m.data().mem.clone().unwrap();
    let mut b = vec![0u8; n as usize];
    mem.view(&m).read(ptr as u64, &mut b).map_err(|e| RuntimeError::new(e.to_string()))?;
    Ok(b)
}
fn a32(b: &[u8]) -> [u8; 32] {
    b[..32].try_into().unwrap()
}
fn new_id(m: &mut M) -> [u8; 32] {
    let c = &mut m.data_mut().ctx;
    c.next_id += 1;
    let mut id = [0u8; 32];
    id[..8].copy_from_slice(&c.next_id.to_be_bytes());
    id[31] = 0xaa;
    id
}
fn stop<T>(s: Stop) -> R<T> {
    Err(RuntimeError::user(Box::new(s)))
}

fn do_send(m: &mut M, pv: u32, payload: u32, len: u32, gas: Option<u64>, out: u32) -> R<()> {
    let b = rd(m, pv, 48)?;
    let value = u128::from_le_bytes(b[32..48].try_into().unwrap());
    let p = rd(m, payload, len)?;
    let ok = value <= m.data().ctx.balance;
    let id = new_id(m);
    if ok {
        let c = &mut m.data_mut().ctx;
        c.balance -= value;
        c.sent.push(Outgoing { id, dest: a32(&b), payload: p, value, gas });
    }
    let mut o = vec![0u8; 36];
    if !ok {
        o[0] = 1;
    }
    o[4..].copy_from_slice(&id);
    wr(m, out, &o)
}

impl Vm {
    pub fn new(code: &Code) -> Vm {
        let mut store = Store::new(code.engine.clone());
        let mt = code
            .module
            .imports()
            .find_map(|i| match i.ty() {
                ExternType::Memory(m) => Some(*m),
                _ => None,
            })
            .expect("imported memory");
        let mem = Memory::new(&mut store, MemoryType::new(mt.minimum, Some(Pages(32768)), false)).unwrap();
        let env = FunctionEnv::new(
            &mut store,
            Env { mem: Some(mem.clone()), ctx: Ctx::default(), pages: vec![], stat: mt.minimum.0 },
        );
        let mut ex = Exports::new();
        ex.insert("memory", mem.clone());
        macro_rules! f {
            ($n:expr, $c:expr) => {
                ex.insert($n, Function::new_typed_with_env(&mut store, &env, $c));
            };
        }
        f!("alloc", |mut m: M, n: u32| -> R<u32> {
            let (stat, mut pages) = {
                let d = m.data();
                (d.stat, d.pages.clone())
            };

            let n = n as usize;
            let mut start = 0;
            let mut run = 0;
            let mut found = None;
            for i in 0..pages.len() {
                if pages[i] {
                    run = 0;
                } else {
                    if run == 0 {
                        start = i;
                    }
                    run += 1;
                    if run == n {
                        found = Some(start);
                        break;
                    }
                }
            }
            let start = found.unwrap_or_else(|| pages.len() - if run > 0 { run } else { 0 });
            if pages.len() < start + n {
                pages.resize(start + n, false);
            }
            for p in &mut pages[start..start + n] {
                *p = true;
            }
            let need = stat + pages.len() as u32;
            let mem = m.data().mem.clone().unwrap();
            let cur = mem.view(&m).size().0;
            if cur < need {
                if mem.grow(&mut m, Pages(need - cur)).is_err() {
                    return Ok(u32::MAX);
                }
            }
            m.data_mut().pages = pages;
            Ok(stat + start as u32)
        });
        f!("free_range", |mut m: M, a: u32, b: u32| -> R<i32> {
            let stat = m.data().stat;
            let d = m.data_mut();
            for p in a..=b {
                if p < stat || (p - stat) as usize >= d.pages.len() {
                    return Ok(1);
                }
                d.pages[(p - stat) as usize] = false;
            }
            Ok(0)
        });
        f!("free", |mut m: M, a: u32| -> R<i32> {
            let stat = m.data().stat;
            let d = m.data_mut();
            if a < stat || (a - stat) as usize >= d.pages.len() {
                return Ok(1);
            }
            d.pages[(a - stat) as usize] = false;
            Ok(0)
        });
        f!("gr_block_height", |mut m: M, p: u32| -> R<()> {
            let v = m.data().ctx.block;
            wr(&mut m, p, &v.to_le_bytes())
        });
        f!("gr_block_timestamp", |mut m: M, p: u32| -> R<()> {
            let v = m.data().ctx.ts;
            wr(&mut m, p, &v.to_le_bytes())
        });
        f!("gr_message_id", |mut m: M, p: u32| -> R<()> {
            let v = m.data().ctx.msg_id;
            wr(&mut m, p, &v)
        });
        f!("gr_program_id", |mut m: M, p: u32| -> R<()> { wr(&mut m, p, &PROGRAM) });
        f!("gr_source", |mut m: M, p: u32| -> R<()> {
            let v = m.data().ctx.source;
            wr(&mut m, p, &v)
        });
        f!("gr_value", |mut m: M, p: u32| -> R<()> {
            let v = m.data().ctx.value;
            wr(&mut m, p, &v.to_le_bytes())
        });
        f!("gr_value_available", |mut m: M, p: u32| -> R<()> {
            let v = m.data().ctx.balance;
            wr(&mut m, p, &v.to_le_bytes())
        });
        f!("gr_size", |mut m: M, p: u32| -> R<()> {
            let v = m.data().ctx.payload.len() as u32;
            wr(&mut m, p, &v.to_le_bytes())
        });
        f!("gr_read", |mut m: M, at: u32, len: u32, buf: u32, err: u32| -> R<()> {
            let (at, len) = (at as usize, len as usize);
            let pl = &m.data().ctx.payload;
            if at + len > pl.len() {
                return wr(&mut m, err, &1u32.to_le_bytes());
            }
            let b = pl[at..at + len].to_vec();
            wr(&mut m, buf, &b)?;
            wr(&mut m, err, &0u32.to_le_bytes())
        });
        f!("gr_reply_code", |mut m: M, p: u32| -> R<()> {
            let mut o = [0u8; 8];
            o[4..].copy_from_slice(&m.data().ctx.reply_code);
            wr(&mut m, p, &o)
        });
        f!("gr_reply_to", |mut m: M, p: u32| -> R<()> {
            let mut o = [0u8; 36];
            o[4..].copy_from_slice(&m.data().ctx.reply_to);
            wr(&mut m, p, &o)
        });
        f!("gr_signal_from", |mut m: M, p: u32| -> R<()> {
            let mut o = [0u8; 36];
            o[4..].copy_from_slice(&m.data().ctx.signal_from);
            wr(&mut m, p, &o)
        });
        f!("gr_signal_code", |mut m: M, p: u32| -> R<()> { wr(&mut m, p, &[0u8; 8]) });
        f!("gr_gas_available", |mut m: M, p: u32| -> R<()> {
            let v = m.data().ctx.gas;
            wr(&mut m, p, &v.to_le_bytes())
        });
        f!("gr_reply", |mut m: M, pl: u32, len: u32, val: u32, out: u32| -> R<()> {
            let p = rd(&mut m, pl, len)?;
            let v = if val == u32::MAX { vec![0; 16] } else { rd(&mut m, val, 16)? };
            let value = u128::from_le_bytes(v.try_into().unwrap());
            let id = new_id(&mut m);
            let c = &mut m.data_mut().ctx;
            let ok = value <= c.balance && c.reply.is_none();
            if ok {
                c.balance -= value;
                c.reply = Some((p, value));
            }
            let mut o = vec![0u8; 36];
            if !ok {
                o[0] = 1;
            }
            o[4..].copy_from_slice(&id);
            wr(&mut m, out, &o)
        });
        f!("gr_send", |mut m: M, pv: u32, pl: u32, len: u32, _delay: u32, out: u32| -> R<()> {
            do_send(&mut m, pv, pl, len, None, out)
        });
        f!("gr_send_wgas", |mut m: M, pv: u32, pl: u32, len: u32, gas: u64, _delay: u32, out: u32| -> R<()> {
            do_send(&mut m, pv, pl, len, Some(gas), out)
        });
        f!("gr_reply_deposit", |mut m: M, _mid: u32, _gas: u64, err: u32| -> R<()> {
            wr(&mut m, err, &0u32.to_le_bytes())
        });
        f!("gr_system_reserve_gas", |mut m: M, _gas: u64, err: u32| -> R<()> {
            m.data_mut().ctx.reserved = true;
            wr(&mut m, err, &0u32.to_le_bytes())
        });
        f!("gr_wake", |mut m: M, mid: u32, _delay: u32, err: u32| -> R<()> {
            let b = rd(&mut m, mid, 32)?;
            m.data_mut().ctx.woken.push(a32(&b));
            wr(&mut m, err, &0u32.to_le_bytes())
        });
        f!("gr_debug", |mut m: M, p: u32, n: u32| -> R<()> {
            if std::env::var("VH_DEBUG").is_ok() {
                let b = rd(&mut m, p, n)?;
                eprintln!("DEBUG {}", String::from_utf8_lossy(&b));
            }
            Ok(())
        });
        f!("gr_panic", |mut m: M, p: u32, n: u32| -> R<()> {
            let b = rd(&mut m, p, n)?;
            stop(Stop::Panic(String::from_utf8_lossy(&b).to_string()))
        });
        f!("gr_oom_panic", |_m: M| -> R<()> { stop(Stop::Panic("oom".into())) });
        f!("gr_exit", |_m: M, _p: u32| -> R<()> { stop(Stop::Panic("exit".into())) });
        f!("gr_leave", |_m: M| -> R<()> { stop(Stop::Leave) });
        f!("gr_wait", |_m: M| -> R<()> { stop(Stop::Wait(u32::MAX)) });
        f!("gr_wait_for", |_m: M, n: u32| -> R<()> { stop(Stop::Wait(n)) });
        f!("gr_wait_up_to", |_m: M, n: u32| -> R<()> { stop(Stop::Wait(n)) });
        // anything else the program might import traps
        let mut imports = Imports::new();
        for i in code.module.imports() {
            if let ExternType::Function(ft) = i.ty() {
                if !ex.contains(i.name()) {
                    let name = i.name().to_string();
                    let f = Function::new(&mut store, ft.clone(), move |_| {
                        Err(RuntimeError::new(format!("unsupported syscall {}", name)))
                    });
                    ex.insert(i.name(), f);
                }
            }
        }
        imports.register_namespace("env", ex);
        let inst = Instance::new(&mut store, &code.module, &imports).expect("instantiate");
        let sp = inst.exports.get_global("__stack_pointer").expect("stack pointer").clone();
        let sp0 = sp.get(&mut store);
        let fuel = inst.exports.get_global(FUEL_NAME).expect("fuel").clone();
        // (the linker puts the stack first, as the compiler asks it to)
        let low = match sp0 {
            Value::I32(n) if n == 1 << 20 && mem.view(&store).data_size() > 1 << 20 => 1 << 20,
            _ => 0,
        };
        Vm { store, env, mem, inst, sp, fuel, sp0, low }
    }

    pub fn image(&mut self) -> Image {
        let v = self.mem.view(&self.store);
        let n = v.data_size() as usize;
        let bytes = v.copy_range_to_vec(self.low as u64..n as u64).unwrap();
        Image { mem: Arc::new(bytes), pages: self.env.as_ref(&self.store).pages.clone() }
    }

    pub fn restore(&mut self, im: &Image) {
        let v = self.mem.view(&self.store);
        let n = v.data_size() as usize - self.low;
        v.write(self.low as u64, &im.mem).unwrap();
        if n > im.mem.len() {
            let z = vec![0u8; n - im.mem.len()];
            v.write((self.low + im.mem.len()) as u64, &z).unwrap();
        }
        self.env.as_mut(&mut self.store).pages = im.pages.clone();
    }

    /// Run one entry point. The caller decides about rollback.
    pub fn run(&mut self, entry: &str, ctx: Ctx) -> (End, Ctx) {
        self.env.as_mut(&mut self.store).ctx = ctx;
        self.fuel.set(&mut self.store, Value::I64(FUEL)).unwrap();
        let f: TypedFunction<(), ()> =
            self.inst.exports.get_typed_function(&self.store, entry).expect("entry point");
        let r = f.call(&mut self.store);
        let end = match r {
            Ok(()) => End::Done,
            Err(e) => {
                self.sp.set(&mut self.store, self.sp0.clone()).unwrap();
                let msg = e.message();
                match e.downcast::<Stop>() {
                    Ok(Stop::Leave) => End::Leave,
                    Ok(Stop::Wait(n)) => End::Wait(n),
                    Ok(Stop::Panic(s)) => End::Fail(s),
                    Err(_) => End::Fail(format!("trap: {}", msg)),
                }
            }
        };
        let ctx = std::mem::take(&mut self.env.as_mut(&mut self.store).ctx);
        (end, ctx)
    }
}
