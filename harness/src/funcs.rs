use crate::{js::*, Machine};
use alg::{commutative::{One, Zero}, lin_alg::{Matrix, SparseMatrix}};
use analysis::{AtomicSmoothFn as F, AtomicSmoothFnBuilder, Coordinate, Function, MultiVarFn};
use serde_json::{json, Value};

/// A value in thousandths, if it is a number of moderate size.
fn milli(v: f64) -> Value {
    if !v.is_finite() || v.abs() > 1e6 {
        json!([])
    } else {
        json!([(v * 1000.0).round() as i64])
    }
}
fn frac(v: &Value) -> f64 {
    i64_(&v[0]) as f64 / i64_(&v[1]) as f64
}
enum Arg {
    X(Coordinate),
    F(F),
}
impl Arg {
    fn f(self) -> F {
        match self {
            Arg::F(f) => f,
            // there is no direct conversion
            Arg::X(x) => x.powi(1),
        }
    }
}
macro_rules! bin {
    ($a:expr, $b:expr, $o:tt) => {
        match ($a, $b) {
            (Arg::X(a), Arg::X(b)) => a $o b,
            (Arg::X(a), Arg::F(b)) => a $o b,
            (Arg::F(a), Arg::X(b)) => a $o b,
            (Arg::F(a), Arg::F(b)) => a $o b,
        }
    };
}

/// Functions of several variables, each built from the previous ones.
#[derive(Default)]
pub struct Funcs {
    dim: usize,
    pts: Vec<Matrix<f64>>,
    fs: Vec<F>,
}
fn coordinates(n: usize) -> Vec<Coordinate> {
    let out = std::cell::RefCell::new(Vec::new());
    AtomicSmoothFnBuilder::new(n).set(|_, x| *out.borrow_mut() = x);
    out.into_inner()
}
impl Funcs {
    fn arg(&self, v: &Value) -> Arg {
        let k = i64_(v);
        if k < 0 {
            Arg::X(coordinates(self.dim)[(-k - 1) as usize])
        } else {
            Arg::F(self.fs[k as usize].clone())
        }
    }
    fn values(&self, f: &F) -> Value {
        json!(self.pts.iter().map(|p| milli(f.eval(p))).collect::<Vec<_>>())
    }
    fn dense(m: &Matrix<f64>) -> Value {
        json!((0..m.size().0).map(|i| (0..m.size().1).map(|j| milli(m[(i, j)])).collect::<Vec<_>>()).collect::<Vec<_>>())
    }
    fn sparse(m: SparseMatrix<f64>) -> Value {
        let mut out = vec![vec![json!([0]); m.size().1]; m.size().0];
        for i in 0..m.size().0 {
            for (j, x) in m.row_iter(i) {
                out[i][j] = milli(*x);
            }
        }
        json!(out)
    }
}
impl Machine for Funcs {
    fn step(&mut self, op: &Value) -> Value {
        let f = match st(&op["op"]) {
            "points" => {
                self.dim = us(&op["dim"]);
                self.pts = arr(&op["pts"]).iter().map(|p| {
                    let mut m = Matrix::zero(self.dim, 1);
                    (0..self.dim).for_each(|i| m[(i, 0)] = frac(&p[i]));
                    m
                }).collect();
                return json!(0);
            }
            // do equal functions and reordered sums and products compare as they should?
            "eq" => return json!(self.arg(&op["a"]).f() == self.arg(&op["b"]).f()),
            "reorder" => {
                let fs: Vec<F> = arr(&op["fs"]).iter().map(|k| self.arg(k).f()).collect();
                let gs: Vec<F> = arr(&op["to"]).iter().map(|k| self.arg(k).f()).collect();
                return json!({
                    "sum": fs.iter().cloned().sum::<F>() == gs.iter().cloned().sum::<F>(),
                    "product": fs.into_iter().product::<F>() == gs.into_iter().product::<F>(),
                });
            }
            "jacobian" => {
                let j = self.arg(&op["a"]).f().jacobian(self.dim);
                return json!(self.pts.iter().map(|p| Self::dense(&j.eval(p))).collect::<Vec<_>>());
            }
            "multi" => {
                let fs: Vec<F> = arr(&op["fs"]).iter().map(|k| self.arg(k).f()).collect();
                let m = MultiVarFn::new((fs.len(), self.dim)).set(|i, f, _| *f = fs[i].clone());
                let j = m.clone().jacobian();
                return json!({
                    "fs": self.pts.iter().map(|p| Self::dense(&m.eval(p))).collect::<Vec<_>>(),
                    "at": (0..fs.len()).map(|i| self.values(&m[i])).collect::<Vec<_>>(),
                    "jac": self.pts.iter().map(|p| Self::sparse(j.eval(p))).collect::<Vec<_>>(),
                });
            }
            "text" => return parse(&self.arg(&op["a"]).f().to_string()),
            "mtext" => {
                let fs: Vec<F> = arr(&op["fs"]).iter().map(|k| self.arg(k).f()).collect();
                let m = MultiVarFn::new((fs.len(), self.dim)).set(|i, f, _| *f = fs[i].clone());
                return json!(m.to_string().lines().enumerate().map(|(i, s)| {
                    parse(s.strip_prefix(&format!("f[{}] = ", i)).unwrap().strip_suffix(",").unwrap())
                }).collect::<Vec<_>>());
            }
            "zero" => F::zero(),
            "one" => F::one(),
            "x" => {
                let i = us(&op["c"]);
                if i % 2 == 0 {
                    AtomicSmoothFnBuilder::new(self.dim).set(|f, x| *f = x[i].powi(1))
                } else {
                    AtomicSmoothFnBuilder::new(self.dim).set(|f, x| *f = x[i] * 1.0)
                }
            }
            "add" => bin!(self.arg(&op["a"]), self.arg(&op["b"]), +),
            "sub" => bin!(self.arg(&op["a"]), self.arg(&op["b"]), -),
            "mul" => bin!(self.arg(&op["a"]), self.arg(&op["b"]), *),
            "div" => bin!(self.arg(&op["a"]), self.arg(&op["b"]), /),
            "addto" | "subto" | "multo" | "divto" => {
                let (mut a, b) = (self.arg(&op["a"]).f(), self.arg(&op["b"]).f());
                match st(&op["op"]) {
                    "addto" => a += b,
                    "subto" => a -= b,
                    "multo" => a *= b,
                    _ => a /= b,
                }
                a
            }
            "neg" => -self.arg(&op["a"]).f(),
            "scale" => {
                let q = frac(&op["q"]);
                match self.arg(&op["a"]) {
                    Arg::X(x) => x * q,
                    Arg::F(f) => f * q,
                }
            }
            "unscale" => {
                let q = frac(&op["q"]);
                match self.arg(&op["a"]) {
                    Arg::X(x) => x / q,
                    Arg::F(f) => f / q,
                }
            }
            "powi" => {
                let e = i64_(&op["e"]) as i32;
                match self.arg(&op["a"]) {
                    Arg::X(x) => x.powi(e),
                    Arg::F(f) => f.powi(e),
                }
            }
            "powf" => {
                let e = i64_(&op["e"]) as f64 / 8.0;
                match self.arg(&op["a"]) {
                    Arg::X(x) => x.powf(e),
                    Arg::F(f) => f.powf(e),
                }
            }
            "sin" => match self.arg(&op["a"]) {
                Arg::X(x) => x.sin(),
                Arg::F(f) => f.sin(),
            },
            "cos" => match self.arg(&op["a"]) {
                Arg::X(x) => x.cos(),
                Arg::F(f) => f.cos(),
            },
            "sum" => arr(&op["fs"]).iter().map(|k| self.arg(k).f()).sum(),
            "product" => arr(&op["fs"]).iter().map(|k| self.arg(k).f()).product(),
            "d" => self.arg(&op["a"]).f().partial_derivative(us(&op["n"])),
            x => panic!("op {}", x),
        };
        let v = self.values(&f);
        self.fs.push(f);
        v
    }
    fn obs(&mut self, _op: &Value) -> Value {
        json!(0)
    }
}

/// Reads a printed function back as an expression.
fn parse(s: &str) -> Value {
    let mut p = Text(s);
    let v = p.function();
    assert!(p.0.is_empty(), "{} is left of {}", p.0, s);
    v
}
struct Text<'a>(&'a str);
impl<'a> Text<'a> {
    fn eat(&mut self, s: &str) -> bool {
        match self.0.strip_prefix(s) {
            Some(t) => { self.0 = t; true }
            None => false,
        }
    }
    fn must(&mut self, s: &str) {
        assert!(self.eat(s), "{} expected in {}", s, self.0);
    }
    fn number(&mut self) -> &'a str {
        let n = self.0.char_indices().find(|&(i, c)| !(c.is_ascii_digit() || c == '.' || (i == 0 && c == '-'))).map_or(self.0.len(), |x| x.0);
        let (a, b) = self.0.split_at(n);
        assert!(a.chars().any(|c| c.is_ascii_digit()), "number expected in {}", self.0);
        self.0 = b;
        a
    }
    /// The number as a fraction, or with an error of a thousandth.
    fn constant(s: &str) -> Value {
        let x: f64 = s.parse().unwrap();
        let d = s.find('.').map_or(0, |i| s.len() - i - 1);
        json!({"k": "number", "v": if x.abs() > 1e5 { json!([0, 0, 0]) }
            else if x == (x * 64.0).round() / 64.0 { let mut q = 1; while x != (x * q as f64).round() / q as f64 { q *= 2 }; json!([(x * q as f64) as i64, q, 0]) }
            else if d < 4 { json!([(x * 1000.0).round() as i64, 1000, 1]) }
            else { json!([(x * 1000.0).round() as i64, 1000, 2]) }})
    }
    fn power(a: Value, e: &str) -> Value {
        let e = e.parse::<f64>().unwrap() * 8.0;
        assert!(e == e.round());
        json!({"k": "power", "a": a, "e": e as i64})
    }
    fn function(&mut self) -> Value {
        if !self.0.starts_with(' ') {
            return self.atom();
        }
        let mut s = vec![];
        while self.0.starts_with(' ') && !self.0.starts_with(" +") {
            self.must(" ");
            s.push(self.atom());
        }
        json!({"k": "product", "s": s})
    }
    /// A function that is not a product, with any exponents that follow.
    fn atom(&mut self) -> Value {
        let mut v = if self.eat("x[") {
            let c: usize = self.number().parse().unwrap();
            self.must("]");
            json!({"k": "x", "c": c})
        } else if self.eat("sin(") {
            let a = self.function();
            self.must(")");
            json!({"k": "sin", "a": a})
        } else if self.eat("cos(") {
            let a = self.function();
            self.must(")");
            json!({"k": "cos", "a": a})
        } else if self.eat("(") {
            let a = self.terms();
            self.must(")");
            a
        } else {
            Self::constant(self.number())
        };
        while self.eat("^") {
            v = Self::power(v, self.number());
        }
        v
    }
    fn times(c: Value, f: Value) -> Value {
        json!({"k": "product", "s": [c, f]})
    }
    fn terms(&mut self) -> Value {
        let mut s = vec![];
        let back = self.0;
        let neg = self.eat("-");
        let plain = if self.0.starts_with(|c: char| c.is_ascii_digit()) {
            let x = self.number();
            if self.eat("·") {
                let c = Self::constant(&format!("{}{}", if neg { "-" } else { "" }, x));
                s.push(Self::times(c, self.function()));
                false
            } else {
                self.0 = if neg { &back[1..] } else { back };
                true
            }
        } else {
            true
        };
        if plain {
            let f = self.function();
            s.push(if neg { Self::times(Self::constant("-1"), f) } else { f });
        }
        while self.eat(" + (") {
            let c = Self::constant(self.number());
            self.must(")·");
            s.push(Self::times(c, self.function()));
        }
        if s.len() == 1 { s.remove(0) } else { json!({"k": "sum", "s": s}) }
    }
}
