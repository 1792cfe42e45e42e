use crate::sums::Co;
use crate::{js::*, Machine};
use alg::commutative::{Rational, PID};
use alg::lin_alg::{Matrix, Module, SubMatrix};
use serde_json::{json, Value};
use std::fmt::{Debug, Display};
use util::BinaryPool;

/// Printed forms.
#[derive(Default)]
pub struct Texts;
fn matrix<T: PID>(op: &Value, mk: impl Fn(&Value) -> T) -> Matrix<T> {
    let rows = arr(&op["rows"]);
    let pad = us(&op["pad"]);
    // the entries sit in the middle of a larger matrix when pad > 0
    let mut m = Matrix::zero(rows.len() + 2 * pad, arr(&rows[0]).len() + 2 * pad);
    for (i, r) in rows.iter().enumerate() {
        for (j, x) in arr(r).iter().enumerate() {
            m[(i + pad, j + pad)] = mk(x);
        }
    }
    m
}
fn print<T: PID + Display + Debug>(m: &Matrix<T>, op: &Value) -> String {
    let (n, k, pad) = (m.size().0, m.size().1, us(&op["pad"]));
    let p = i64_(&op["p"]);
    if pad > 0 {
        let s: &SubMatrix<T> = &m[(pad..n - pad, pad..k - pad)];
        match (op["dbg"].as_bool().unwrap(), p < 0) {
            (true, _) => format!("{:?}", s),
            (_, true) => format!("{}", s),
            _ => format!("{:.*}", p as usize, s),
        }
    } else {
        match (op["dbg"].as_bool().unwrap(), p < 0) {
            (true, _) => format!("{:?}", m),
            (_, true) => format!("{}", m),
            _ => format!("{:.*}", p as usize, m),
        }
    }
}
fn module<C: Co>(v: &Value) -> Module<C> {
    Module::new(us(&v["free"]), arr(&v["divs"]).iter().map(|d| (C::mk(&d[0]), us(&d[1]))).collect())
}
fn describe<C: Co>(m: Module<C>) -> Value {
    json!({"text": m.to_string(), "zero": m.is_zero()})
}
impl Machine for Texts {
    fn step(&mut self, op: &Value) -> Value {
        let t = op.get("t").map_or("", st);
        match (st(&op["op"]), t) {
            ("mat", "i") => json!(print(&matrix(op, i64::mk), op)),
            ("mat", "q") => json!(print(&matrix(op, Rational::mk), op)),
            ("mat", _) => {
                let s = print(&matrix(op, |x| i64_(&x[0]) as f64 / (1i64 << us(&x[1])) as f64), op);
                if op["dbg"].as_bool().unwrap() {
                    return json!(s);
                }
                let cells: Vec<Vec<&str>> = s.lines().skip(1).map(|r| r.trim_start_matches("| ").trim_end_matches(" |").split('\t').collect()).collect();
                json!({"text": s, "cells": cells})
            }
            ("pool", _) => {
                let mut p = BinaryPool::new(us(&op["len"]));
                uss(&op["on"]).into_iter().for_each(|i| p.add(i));
                json!(format!("{:?}", p))
            }
            ("module", "i") => describe(module::<i64>(&op["m"])),
            ("module", _) => describe(module::<Rational>(&op["m"])),
            ("iso", "i") => json!(module::<i64>(&op["m"]).is_isomorphic_to(module::<i64>(&op["k"]))),
            ("iso", _) => json!(module::<Rational>(&op["m"]).is_isomorphic_to(module::<Rational>(&op["k"]))),
            ("trivial", "i") => describe(Module::<i64>::trivial()),
            ("trivial", _) => describe(Module::<Rational>::trivial()),
            (x, _) => panic!("op {}", x),
        }
    }
}
