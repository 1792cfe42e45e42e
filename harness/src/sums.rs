use crate::{js::*, Machine};
use alg::commutative::{Field, Rational, PID};
use alg::formal_sum_impl;
use alg::lin_alg::Vector;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fmt::Display;

pub trait Base: Clone + Ord + Display {
    fn mk(i: usize) -> Self;
    fn id(&self) -> usize;
}
impl Base for String {
    fn mk(i: usize) -> Self { format!("b{:03}", i) }
    fn id(&self) -> usize { self[1..].parse().unwrap() }
}
impl Base for usize {
    fn mk(i: usize) -> Self { i }
    fn id(&self) -> usize { *self }
}
#[derive(Clone, PartialEq, Debug, Eq, PartialOrd, Ord)]
pub struct Obj { data: String }
impl Display for Obj {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.data) }
}
impl Base for Obj {
    fn mk(i: usize) -> Self { Obj { data: String::mk(i) } }
    fn id(&self) -> usize { self.data.id() }
}
formal_sum_impl! { Obj }

pub trait Co: PID + Display {
    fn mk(v: &Value) -> Self;
    fn out(&self) -> (i64, i64);
}
impl Co for i64 {
    fn mk(v: &Value) -> Self { i64_(&v[0]) }
    fn out(&self) -> (i64, i64) { (*self, 1) }
}
impl Co for Rational {
    fn mk(v: &Value) -> Self { Rational::new(i64_(&v[0]), i64_(&v[1])) }
    fn out(&self) -> (i64, i64) {
        let s = if *self < Rational::from(0i64) { -1 } else { 1 };
        (s * self.get_numerator() as i64, self.get_denominator() as i64)
    }
}

pub struct Sums<C: Co, B: Base> { r: BTreeMap<String, Vector<C, B>> }
impl<C: Co, B: Base> Default for Sums<C, B> { fn default() -> Self { Sums { r: BTreeMap::new() } } }
impl<C: Co, B: Base> Sums<C, B> {
    fn get(&self, k: &Value) -> Vector<C, B> { self.r.get(st(k)).cloned().unwrap_or_else(Vector::zero) }
    fn common(&mut self, op: &Value) -> Value {
        let bs = || -> Vec<B> { uss(&op["bs"]).into_iter().map(B::mk).collect() };
        let a = || self.get(&op["a"]);
        let b = || self.get(&op["b"]);
        let x = || B::mk(us(&op["x"]));
        let v = match st(&op["op"]) {
            "zero" => Vector::zero(),
            "list" => Vector::from(bs()),
            "iter" => bs().into_iter().collect(),
            "array" => {
                let mut i = bs().into_iter();
                let mut n = || i.next().unwrap();
                match uss(&op["bs"]).len() {
                    1 => Vector::from([n()]),
                    2 => Vector::from([n(), n()]),
                    3 => Vector::from([n(), n(), n()]),
                    _ => Vector::from([n(), n(), n(), n()]),
                }
            }
            "single" => Vector::from(x()),
            "add" => a() + b(),
            "sub" => a() - b(),
            "neg" => -a(),
            "mul" => a() * C::mk(&op["k"]),
            "addb" => a() + x(),
            "subb" => a() - x(),
            "sum" => arr(&op["as"]).iter().map(|k| self.get(k)).sum(),
            "remove" => {
                let mut s = self.get(&op["r"]);
                let (c, b) = s.remove(us(&op["j"]));
                self.r.insert(st(&op["r"]).into(), s);
                let (n, d) = c.out();
                return json!([n, d, b.id()]);
            }
            "coef" => {
                let (n, d) = a()[&x()].out();
                return json!([n, d]);
            }
            "eq" => return json!(a() == b()),
            y => panic!("op {}", y),
        };
        self.r.insert(st(&op["r"]).into(), v);
        json!(0)
    }
    fn view(&self, named: bool) -> Value {
        Value::Object(self.r.iter().map(|(k, v)| {
            let l: Vec<Value> = v.iter().map(|(c, b)| { let (n, d) = c.out(); json!([n, d, b.id()]) }).collect();
            let l2: Vec<Value> = v.clone().into_iter().map(|(c, b)| { let (n, d) = c.out(); json!([n, d, b.id()]) }).collect();
            assert!(l == l2);
            (k.clone(), json!({"sum": l, "len": v.len(), "str": if named { format!("{}", v) } else { String::new() }}))
        }).collect())
    }
}
impl Machine for Sums<i64, String> {
    fn step(&mut self, op: &Value) -> Value { self.common(op) }
    fn obs(&mut self, _: &Value) -> Value { self.view(true) }
}
fn div<C: Co + Field, B: Base>(m: &mut Sums<C, B>, op: &Value) -> Value {
    let v = m.get(&op["a"]) / C::mk(&op["k"]);
    m.r.insert(st(&op["r"]).into(), v);
    json!(0)
}
impl Machine for Sums<Rational, usize> {
    fn step(&mut self, op: &Value) -> Value {
        if st(&op["op"]) == "div" { div(self, op) } else { self.common(op) }
    }
    fn obs(&mut self, _: &Value) -> Value { self.view(false) }
}
impl Machine for Sums<i64, Obj> {
    fn step(&mut self, op: &Value) -> Value {
        let o = |k: &str| Obj::mk(us(&op[k]));
        let v = match st(&op["op"]) {
            "badd" => o("x") + self.get(&op["a"]),
            "bsub" => o("x") - self.get(&op["a"]),
            "bb" => if st(&op["f"]) == "add" { o("x") + o("y") } else { o("x") - o("y") },
            "bmul" => i64_(&op["k"][0]) * o("x"),
            "bneg" => -o("x"),
            _ => return self.common(op),
        };
        self.r.insert(st(&op["r"]).into(), v);
        json!(0)
    }
    fn obs(&mut self, _: &Value) -> Value { self.view(true) }
}
