mod gen;
mod scale;
mod vm;
mod world;
use rayon::prelude::*;
use serde_json::Value;
use std::io::Write;
use world::*;

/// vh gen WASM OUT SEED STEPS PROFILE:COUNT...   random scenarios
/// vh calc WASM IN OUT                           library functions (one JSON object per line: {f, a})
/// vh play WASM OPS OUT                          op lists (one JSON object per line: {tag, users, pf, ts, ops})
/// vh tree WASM TREE OUT SIZE                    a tree of operations: first line {tag, users, pf, ts}, then {n, p, o}: operation o leads
///                                               from state p to state n (0: the initial state); cut into parts of about SIZE operations
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("VH_DEBUG").is_ok() {
            eprintln!("{}", i)
        }
    }));
    let code = load(&a[2]);
    match a[1].as_str() {
        "gen" => {
            let seed: u64 = a[4].parse().unwrap();
            let steps: usize = a[5].parse().unwrap();
            let mut jobs = vec![];
            for p in &a[6..] {
                let (prof, n) = p.split_once(':').unwrap();
                for k in 0..n.parse::<u64>().unwrap() {
                    jobs.push((prof.to_string(), seed * 1_000_003 + k));
                }
            }
            let out: Vec<String> = jobs
                .par_iter()
                .map(|(p, sd)| gen::scenario(&code, p, *sd, steps).to_string())
                .collect();
            let mut f = std::io::BufWriter::new(std::fs::File::create(&a[3]).unwrap());
            for l in out {
                writeln!(f, "{}", l).unwrap();
            }
        }
        "play" => {
            let text = std::fs::read_to_string(&a[3]).unwrap();
            let jobs: Vec<Value> = text.lines().filter(|l| !l.trim().is_empty()).map(|l| serde_json::from_str(l).unwrap()).collect();
            let out: Vec<String> = jobs
                .par_iter()
                .map(|j| {
                    let users: Vec<&str> = j["users"].as_array().unwrap().iter().map(|u| u.as_str().unwrap()).collect();
                    let mut w = World::new(&code, &users, u128v(j, "pf"), s(j, "ts").parse().unwrap());
                    for o in j["ops"].as_array().unwrap() {
                        w.step(o.clone());
                    }
                    w.trace(s(j, "tag")).to_string()
                })
                .collect();
            let mut f = std::io::BufWriter::new(std::fs::File::create(&a[4]).unwrap());
            for l in out {
                writeln!(f, "{}", l).unwrap();
            }
        }
        "tree" => tree(&code, &a[3], &a[4], a[5].parse().unwrap()),
        "calc" => calc(&code, &a[3], &a[4]),
        x => panic!("{}", x),
    }
}

struct Tree {
    ops: Vec<Value>,
    kids: Vec<Vec<usize>>,
    up: Vec<usize>,
}

/// a part of a tree: the way from the root to a node, and some of the branches there
struct Part {
    at: usize,
    branches: Vec<usize>,
}

fn tree(code: &std::sync::Arc<vm::Code>, input: &str, output: &str, size: usize) {
    let text = std::fs::read_to_string(input).unwrap();
    let mut lines = text.lines();
    let head: Value = serde_json::from_str(lines.next().unwrap()).unwrap();
    let mut t = Tree { ops: vec![Value::Null], kids: vec![vec![]], up: vec![0] };
    let mut es: Vec<(usize, usize, Value)> = lines
        .map(|l| {
            let mut v: Value = serde_json::from_str(l).unwrap();
            (int(&v, "n") as usize, int(&v, "p") as usize, v["o"].take())
        })
        .collect();
    es.sort_by_key(|e| e.0);
    for (n, p, o) in es {
        assert_eq!(n, t.ops.len());
        t.ops.push(o);
        t.kids.push(vec![]);
        t.up.push(p);
        t.kids[p].push(n);
    }
    let mut weight = vec![1usize; t.ops.len()];
    for n in (1..t.ops.len()).rev() {
        weight[t.up[n]] += weight[n];
    }
    let mut parts = vec![];
    let mut todo = vec![0];
    while let Some(n) = todo.pop() {
        let mut group = vec![];
        let mut w = 0;
        for &k in &t.kids[n] {
            if weight[k] > size {
                group.push(k); // the operation itself; what follows it is another part
                w += 1;
                todo.push(k);
            } else {
                group.push(k);
                w += weight[k];
            }
            if w > size {
                parts.push(Part { at: n, branches: std::mem::take(&mut group) });
                w = 0;
            }
        }
        if !group.is_empty() {
            parts.push(Part { at: n, branches: group });
        }
    }
    let out: Vec<String> = parts
        .par_iter()
        .enumerate()
        .map(|(k, p)| {
            let users: Vec<&str> = head["users"].as_array().unwrap().iter().map(|u| u.as_str().unwrap()).collect();
            let mut w = World::new(code, &users, u128v(&head, "pf"), s(&head, "ts").parse().unwrap());
            let mut steps = vec![w.steps[0].clone()];
            let mut follow: Vec<Vec<usize>> = vec![vec![]];
            let mut way = vec![];
            let mut n = p.at;
            while n != 0 {
                way.push(n);
                n = t.up[n];
            }
            let mut last = 0;
            for n in way.iter().rev() {
                last = perform(&mut w, &t.ops[*n], last, &mut steps, &mut follow);
            }
            grow(&mut w, &t, &weight, size, &p.branches, last, &mut steps, &mut follow);
            for (st, f) in steps.iter_mut().zip(&follow) {
                st["kids"] = f.iter().map(|x| x + 1).collect::<Vec<_>>().into();
            }
            w.steps = steps;
            w.trace(&format!("{}-{}", s(&head, "tag"), k)).to_string()
        })
        .collect();
    let mut f = std::io::BufWriter::new(std::fs::File::create(output).unwrap());
    for l in out {
        writeln!(f, "{}", l).unwrap();
    }
}

fn perform(w: &mut World, o: &Value, last: usize, steps: &mut Vec<Value>, follow: &mut Vec<Vec<usize>>) -> usize {
    w.step(o.clone());
    let n = steps.len();
    steps.push(w.steps.last().unwrap().clone());
    follow.push(vec![]);
    follow[last].push(n);
    n
}

fn grow(w: &mut World, t: &Tree, weight: &[usize], size: usize, branches: &[usize], at: usize, steps: &mut Vec<Value>, follow: &mut Vec<Vec<usize>>) {
    let sn = w.snap();
    for &k in branches {
        let n = perform(w, &t.ops[k], at, steps, follow);
        if weight[k] <= size && !t.kids[k].is_empty() {
            grow(w, t, weight, size, &t.kids[k], n, steps, follow);
        }
        w.back(&sn);
    }
}

/// The lines of the input (without those for the other library) with the contract library's answer added.
fn calc(code: &vm::Code, input: &str, output: &str) {
    let text = std::fs::read_to_string(input).unwrap();
    let lines: Vec<&str> = text.lines().filter(|l| !l.trim().is_empty()).collect();
    let out: Vec<String> = lines
        .par_chunks((lines.len() / 64).max(50))
        .map(|ls| {
            let mut m = vm::Vm::new(code);
            let im = m.image();
            let mut o = String::new();
            for l in ls {
                let mut v: Value = serde_json::from_str(l).unwrap();
                if v["only"].as_str().unwrap_or("c") != "c" {
                    continue;
                }
                let (end, ctx) = m.run("calc", vm::Ctx { payload: l.as_bytes().to_vec(), ..Default::default() });
                let mut no = None;
                match end {
                    vm::End::Done => {
                        let r: Value = serde_json::from_slice(&ctx.reply.expect("reply").0).unwrap();
                        match r.get("ok") {
                            Some(x) => v["ok"] = x.clone(),
                            None => no = Some(s(&r, "no").to_string()),
                        }
                    }
                    vm::End::Fail(e) => {
                        m.restore(&im);
                        no = Some(e);
                    }
                    e => panic!("{:?}", e),
                }
                if let Some(e) = no {
                    if e.contains("VH ") {
                        eprintln!("{}: {}", l, e);
                        std::process::exit(3);
                    }
                    v["no"] = e.chars().filter(|c| c.is_ascii_alphanumeric() || *c == ' ').take(60).collect::<String>().into();
                }
                v["lib"] = "c".into();
                o.push_str(&v.to_string());
                o.push('\n');
            }
            o
        })
        .collect();
    std::fs::write(output, out.concat()).unwrap();
}
