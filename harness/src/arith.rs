use crate::{js::*, Machine};
use alg::commutative::{bezout_identity, One, Rational, Symbol, Zero, PID};
use serde_json::{json, Value};
use std::collections::BTreeMap;

/// Sign and little-endian limbs base 10^4: how integers beyond 32 bits reach the specification.
pub fn big(x: i128) -> Value {
    let mut v = vec![x.signum() as i64];
    let mut m = x.unsigned_abs();
    while m > 0 {
        v.push((m % 10000) as i64);
        m /= 10000;
    }
    json!(v)
}
pub fn unbig(v: &Value) -> i128 {
    let a = arr(v);
    let mut m: i128 = 0;
    for x in a[1..].iter().rev() {
        m = m * 10000 + i64_(x) as i128;
    }
    m * i64_(&a[0]) as i128
}

pub struct Ints;
macro_rules! small {
    ($t:ty, $op:expr) => {{
        let a = i64_(&$op["a"]) as $t;
        let b = i64_(&$op["b"]) as $t;
        match st(&$op["op"]) {
            "euclid" => {
                let (q, r) = PID::euclid_div(a, b);
                json!({"q": q as i64, "r": r as i64})
            }
            "bezout" => {
                let (g, x, y) = bezout_identity(a, b);
                json!({"g": g as i64, "x": x as i64, "y": y as i64})
            }
            "divides" => json!(PID::divides(a, b)),
            "unary" => {
                let (u, s) = PID::simplify(a);
                json!({"unit": u as i64, "simple": s as i64, "prime": PID::is_prime(a), "nfac": PID::n_prime_factors(a),
                       "zero": <$t as Zero>::zero() as i64, "one": <$t as One>::one() as i64, "symbol": <$t as Symbol>::symbol()})
            }
            x => panic!("op {}", x),
        }
    }};
}
impl Machine for Ints {
    fn step(&mut self, op: &Value) -> Value {
        match st(&op["op"]) {
            "bigeuclid" => {
                let (q, r) = PID::euclid_div(unbig(&op["a"]) as i64, unbig(&op["b"]) as i64);
                json!({"q": big(q as i128), "r": big(r as i128)})
            }
            "bigbezout" => {
                let (a, b) = (unbig(&op["a"]), unbig(&op["b"]));
                let (g, x, y) = bezout_identity(a as i64, b as i64);
                // the cofactors are witnesses for divisibility; the specification multiplies them back
                let (ca, cb) = if g != 0 { (a / g as i128, b / g as i128) } else { (0, 0) };
                json!({"g": big(g as i128), "x": big(x as i128), "y": big(y as i128), "ca": big(ca), "cb": big(cb)})
            }
            "bigdivides" => json!(PID::divides(unbig(&op["a"]) as i64, unbig(&op["b"]) as i64)),
            _ => match st(&op["ty"]) {
                "i8" => small!(i8, op),
                "i16" => small!(i16, op),
                "i32" => small!(i32, op),
                "i64" => small!(i64, op),
                "i128" => small!(i128, op),
                "isize" => small!(isize, op),
                x => panic!("type {}", x),
            },
        }
    }
}

fn egcd(a: i128, b: i128) -> (i128, i128, i128) {
    if a == 0 { (b, 0, 1) } else { let (g, x, y) = egcd(b % a, a); (g, y - (b / a) * x, x) }
}
/// One operation on rationals with operands beyond 32 bits; x and y witness that the result is in lowest terms.
fn bigq(op: &Value) -> Value {
    let q = |n: &str, d: &str| Rational::new(unbig(&op[n]) as i64, unbig(&op[d]) as i64);
    let (a, b) = (q("an", "ad"), q("bn", "bd"));
    let v = match st(&op["f"]) {
        "add" => a + b,
        "sub" => a - b,
        "mul" => a * b,
        "div" => a / b,
        x => panic!("op {}", x),
    };
    let (n, d) = (v.get_numerator() as i128, v.get_denominator() as i128);
    let (_, x, y) = egcd(n, d);
    let s = if format!("{}", v).starts_with('-') { -1 } else { 1 };
    let c = match a.cmp(&b) { std::cmp::Ordering::Less => -1, std::cmp::Ordering::Equal => 0, _ => 1 };
    json!({"n": big(s * n), "d": big(d), "x": big(s * x), "y": big(y), "cmp": c, "eq": a == b,
        "fl": big({ let f: f64 = v.into(); (f * d as f64).round() as i128 })})
}

#[derive(Default)]
pub struct Rats {
    r: BTreeMap<String, Rational>,
}
fn dy(x: Rational) -> Value {
    let f: f64 = x.into();
    let d = x.get_denominator() as f64;
    json!((f * d).round() as i64)
}
impl Machine for Rats {
    fn step(&mut self, op: &Value) -> Value {
        if st(&op["op"]) == "bigq" {
            return bigq(op);
        }
        let g = |k: &str| self.r[st(&op[k])];
        let d = st(&op["r"]).to_string();
        let v = match st(&op["op"]) {
            "new" => Rational::new(unbig(&op["n"]) as i64, unbig(&op["d"]) as i64),
            "int" => Rational::from(unbig(&op["n"]) as i64),
            "zero" => Rational::zero(),
            "one" => Rational::one(),
            "add" => g("a") + g("b"),
            "sub" => g("a") - g("b"),
            "mul" => g("a") * g("b"),
            "div" => g("a") / g("b"),
            "addas" => { let mut x = g("a"); x += g("b"); x }
            "subas" => { let mut x = g("a"); x -= g("b"); x }
            "mulas" => { let mut x = g("a"); x *= g("b"); x }
            "divas" => { let mut x = g("a"); x /= g("b"); x }
            "neg" => -g("a"),
            "abs" => g("a").abs(),
            "sum" => arr(&op["xs"]).iter().map(|k| self.r[st(k)]).sum(),
            "prod" => arr(&op["xs"]).iter().map(|k| self.r[st(k)]).product(),
            "cmp" => {
                let (a, b) = (g("a"), g("b"));
                let c = match a.cmp(&b) { std::cmp::Ordering::Less => -1, std::cmp::Ordering::Equal => 0, _ => 1 };
                let p = match a.partial_cmp(&b) { Some(std::cmp::Ordering::Less) => -1, Some(std::cmp::Ordering::Equal) => 0, Some(_) => 1, None => 9 };
                return json!({"cmp": c, "pcmp": p, "eq": a == b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b});
            }
            "max" => g("a").max(g("b")),
            "min" => g("a").min(g("b")),
            "field" => {
                let (a, b) = (g("a"), g("b"));
                let (q, r) = a.euclid_div(b);
                self.r.insert("q".into(), q);
                self.r.insert("m".into(), r);
                return json!(b.divides(a));
            }
            "tofloat" => return dy(g("a")),
            x => panic!("op {}", x),
        };
        self.r.insert(d, v);
        json!(0)
    }
    fn obs(&mut self, _op: &Value) -> Value {
        Value::Object(
            self.r
                .iter()
                .map(|(k, v)| {
                    (k.clone(), json!({"n": big(v.get_numerator() as i128), "d": big(v.get_denominator() as i128),
                                       "str": format!("{}", v), "dbg": format!("{:?}", v)}))
                })
                .collect(),
        )
    }
}
