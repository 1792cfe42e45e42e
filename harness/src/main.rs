//! Interprets scenarios (ndjson, one per line) on the real toppo crates through their public
//! API only, and records one event per call: arguments, outcome, result and observed state.
use serde_json::{json, Map, Value};
use std::fs::File;
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

mod arith;
mod cubes;
mod funcs;
mod graphs;
mod js;
mod mats;
mod nums;
mod perms;
mod planar;
mod pools;
mod smith;
mod ranks;
mod simp;
mod sparse;
mod sums;
mod texts;

pub trait Machine {
    /// Performs the call and returns its result.
    fn step(&mut self, op: &Value) -> Value;
    /// Projects the observable state after the call.
    fn obs(&mut self, _op: &Value) -> Value {
        json!(0)
    }
}

fn make(kind: &str) -> Box<dyn Machine> {
    match kind {
        "pool" => Box::new(pools::Pools::default()),
        "lset" => Box::new(pools::LSets::default()),
        "tuple" => Box::new(pools::Tuples::default()),
        "int" => Box::new(arith::Ints),
        "rat" => Box::new(arith::Rats::default()),
        "perm" => Box::new(perms::Perms::default()),
        "cperm" => Box::new(perms::CAny::default()),
        "vperm" => Box::new(perms::VPerms::default()),
        "nu" => Box::new(nums::Nums),
        "mi" => Box::new(mats::Mats::<i64>::default()),
        "mq" => Box::new(mats::Mats::<alg::commutative::Rational>::default()),
        "cm" => Box::new(mats::CMats::<2, 3, 3>::default()),
        "cn" => Box::new(mats::CMats::<7, 4, 6>::default()),
        "snf" => Box::new(smith::Smith),
        "rank" => Box::new(ranks::Ranks),
        "rg" => Box::new(graphs::Raws::default()),
        "mg" => Box::new(graphs::Multi),
        "cc" => Box::new(cubes::Cubes),
        "dt" => Box::new(planar::Planar),
        "sf" => Box::new(funcs::Funcs::default()),
        "tx" => Box::new(texts::Texts),
        "cf" => Box::new(cubes::Factors),
        "ep" => Box::new(cubes::Paths::default()),
        "cxs" => Box::new(simp::Simp::<String>::default()),
        "cxn" => Box::new(simp::Simp::<usize>::default()),
        "si" => Box::new(sparse::Sparse::<i64>::default()),
        "sq" => Box::new(sparse::Sparse::<alg::commutative::Rational>::default()),
        "vs" => Box::new(sums::Sums::<i64, String>::default()),
        "vo" => Box::new(sums::Sums::<i64, sums::Obj>::default()),
        "vq" => Box::new(sums::Sums::<alg::commutative::Rational, usize>::default()),
        _ => panic!("unknown kind {}", kind),
    }
}

static STARTED: AtomicU64 = AtomicU64::new(u64::MAX);

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let limit: u64 = args[3].parse().unwrap();
    let t0 = Instant::now();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(100));
        let s = STARTED.load(Ordering::SeqCst);
        if s != u64::MAX && t0.elapsed().as_millis() as u64 > s + limit * 1000 {
            std::process::exit(3);
        }
    });
    if std::env::var_os("VT_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let mut out = File::create(&args[2]).unwrap();
            for line in BufReader::new(File::open(&args[1]).unwrap()).lines() {
                let sc: Value = serde_json::from_str(&line.unwrap()).unwrap();
                let mut m = make(sc["kind"].as_str().unwrap());
                let mut i = 0;
                for op in sc["ops"].as_array().unwrap() {
                    STARTED.store(t0.elapsed().as_millis() as u64, Ordering::SeqCst);
                    let mut e: Map<String, Value> = op.as_object().unwrap().clone();
                    let r = catch_unwind(AssertUnwindSafe(|| m.step(op)));
                    let (mut o, ret) = match r {
                        Ok(v) => ("ok", v),
                        Err(_) => ("panic", json!(0)),
                    };
                    let obs = catch_unwind(AssertUnwindSafe(|| m.obs(op))).unwrap_or_else(|_| {
                        o = "obspanic";
                        json!(0)
                    });
                    STARTED.store(u64::MAX, Ordering::SeqCst);
                    e.insert("sc".into(), sc["id"].clone());
                    e.insert("i".into(), json!(i));
                    e.insert("out".into(), json!(o));
                    e.insert("ret".into(), ret);
                    e.insert("obs".into(), obs);
                    let mut s = Value::Object(e).to_string();
                    s.push('\n');
                    out.write_all(s.as_bytes()).unwrap();
                    i += 1;
                }
                out.write_all(format!("{}\n", json!({"op":"end","sc":sc["id"]})).as_bytes()).unwrap();
            }
        })
        .unwrap();
    match h.join() {
        Ok(()) => std::process::exit(0),
        Err(_) => std::process::exit(9), // the harness itself failed
    }
}
