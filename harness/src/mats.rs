use crate::{js::*, sums::Co, Machine};
use alg::commutative::Rational;
use alg::formal_sum_impl;
use alg::lin_alg::{ConstMatrix, ConstVector, Matrix, SubMatrix, Vector};
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub trait Scal: Co + Copy + std::fmt::Debug + 'static {
    fn left(self, m: &SubMatrix<Self>) -> Matrix<Self>;
    fn div_ref(m: &SubMatrix<Self>, k: Self) -> Matrix<Self>;
    fn div_own(m: Matrix<Self>, k: Self) -> Matrix<Self>;
    fn div_as(m: &mut SubMatrix<Self>, k: Self);
}
impl Scal for i64 {
    fn left(self, m: &SubMatrix<i64>) -> Matrix<i64> { self * m }
    fn div_ref(_: &SubMatrix<i64>, _: i64) -> Matrix<i64> { unreachable!() }
    fn div_own(_: Matrix<i64>, _: i64) -> Matrix<i64> { unreachable!() }
    fn div_as(_: &mut SubMatrix<i64>, _: i64) { unreachable!() }
}
impl Scal for Rational {
    fn left(self, m: &SubMatrix<Rational>) -> Matrix<Rational> { self * m }
    fn div_ref(m: &SubMatrix<Rational>, k: Rational) -> Matrix<Rational> { m / k }
    fn div_own(m: Matrix<Rational>, k: Rational) -> Matrix<Rational> { m / k }
    fn div_as(m: &mut SubMatrix<Rational>, k: Rational) { *m /= k }
}

/// Calls $go with the index expression denoted by the JSON range $v.
macro_rules! with_range {
    ($v:expr, $r:ident, $body:expr) => {{
        let (a, b) = (us(&$v["a"]), us(&$v["b"]));
        match st(&$v["f"]) {
            "r" => { let $r = a..b; $body }
            "rf" => { let $r = a..; $body }
            "ri" => { let $r = a..=b; $body }
            "rt" => { let $r = ..b; $body }
            "rti" => { let $r = ..=b; $body }
            "full" => { let $r = ..; $body }
            x => panic!("range {}", x),
        }
    }};
}
fn is_idx(v: &Value) -> bool { st(&v["f"]) == "i" }
fn narrow<'a, T: Scal>(m: &'a SubMatrix<T>, s: &Value) -> &'a SubMatrix<T> {
    if st(&s["k"]) == "t" {
        return m.transpose();
    }
    let (r, c) = (&s["r"], &s["c"]);
    match (is_idx(r), is_idx(c)) {
        (true, true) => { let (i, j) = (us(&r["a"]), us(&c["a"])); &m[(i, j..j + 1)] }
        (true, false) => { let i = us(&r["a"]); with_range!(c, y, &m[(i, y)]) }
        (false, true) => { let j = us(&c["a"]); with_range!(r, x, &m[(x, j)]) }
        _ => with_range!(r, x, with_range!(c, y, &m[(x.clone(), y)])),
    }
}
fn narrow_mut<'a, T: Scal>(m: &'a mut SubMatrix<T>, s: &Value) -> &'a mut SubMatrix<T> {
    let (r, c) = (&s["r"], &s["c"]);
    match (is_idx(r), is_idx(c)) {
        (true, true) => { let (i, j) = (us(&r["a"]), us(&c["a"])); &mut m[(i, j..j + 1)] }
        (true, false) => { let i = us(&r["a"]); with_range!(c, y, &mut m[(i, y)]) }
        (false, true) => { let j = us(&c["a"]); with_range!(r, x, &mut m[(x, j)]) }
        _ => with_range!(r, x, with_range!(c, y, &mut m[(x.clone(), y)])),
    }
}
fn view<'a, T: Scal>(m: &'a SubMatrix<T>, s: &Value) -> &'a SubMatrix<T> {
    arr(s).iter().fold(m, |v, x| narrow(v, x))
}
fn view_mut<'a, T: Scal>(m: &'a mut SubMatrix<T>, s: &Value) -> &'a mut SubMatrix<T> {
    let mut v = m;
    for x in arr(s) {
        v = narrow_mut(v, x);
    }
    v
}
fn el<T: Co>(x: &T) -> Value { let (n, d) = x.out(); json!([n, d]) }
pub fn show<T: Scal>(m: &SubMatrix<T>) -> Value {
    let (n, k) = m.size();
    let e: Vec<Vec<Value>> = (0..n).map(|i| (0..k).map(|j| el(&m[(i, j)])).collect()).collect();
    json!({"n": n, "m": k, "e": e})
}

pub struct Mats<T: Scal> { r: BTreeMap<String, Matrix<T>> }
impl<T: Scal> Default for Mats<T> { fn default() -> Self { Mats { r: BTreeMap::new() } } }

#[derive(Clone, PartialEq, Debug, Eq, PartialOrd, Ord)]
pub struct B(usize);
formal_sum_impl! { B }

impl<T: Scal> Mats<T> {
    fn m(&self, k: &Value) -> &Matrix<T> { &self.r[st(k)] }
    fn bin(&self, op: &Value) -> Matrix<T> {
        let (f, own) = (st(&op["op"]), st(&op["own"]));
        // the operands as views or as matrices of their own
        let a = view(self.m(&op["a"]), &op["s"]);
        let b = view(self.m(&op["b"]), &op["s2"]);
        match (f, own) {
            ("add", "rr") => a + b,
            ("add", "or") => a.as_matrix() + b,
            ("add", "ro") => a + b.as_matrix(),
            ("add", "oo") => a.as_matrix() + b.as_matrix(),
            ("add", "ar") => { let mut x = a.as_matrix(); x += b; x }
            ("add", "ao") => { let mut x = a.as_matrix(); x += b.as_matrix(); x }
            ("sub", "rr") => a - b,
            ("sub", "or") => a.as_matrix() - b,
            ("sub", "ro") => a - b.as_matrix(),
            ("sub", "oo") => a.as_matrix() - b.as_matrix(),
            ("sub", "ar") => { let mut x = a.as_matrix(); x -= b; x }
            ("sub", "ao") => { let mut x = a.as_matrix(); x -= b.as_matrix(); x }
            ("mul", "rr") => a * b,
            ("mul", "or") => a.as_matrix() * b,
            ("mul", "ro") => a * b.as_matrix(),
            ("mul", _) => a.as_matrix() * b.as_matrix(),
            x => panic!("{:?}", x),
        }
    }
    fn common(&mut self, op: &Value) -> Value {
        let r = st(op.get("r").unwrap_or(&json!(""))).to_string();
        let k = || T::mk(&op["x"]);
        let v = match st(&op["op"]) {
            "rows" => Matrix::from_array(arr(&op["rows"]).iter().map(|x| arr(x).iter().map(T::mk).collect()).collect()),
            "zeros" => Matrix::zero(us(&op["n"]), us(&op["m"])),
            "huge" => {
                let m = Matrix::<T>::zero(us(&op["n"]), us(&op["m"]));
                let (n, k) = (**&m).size();
                let (x, y) = m[(.., ..)].size();
                return json!([n, k, x, y]);
            }
            "ident" => Matrix::identity(us(&op["n"])),
            "read" => {
                let m = view(self.m(&op["a"]), &op["s"]);
                let by_index = show(m);
                if m.size().0 > 0 && m.size().1 > 0 {
                    assert!(show(&m.as_matrix()) == by_index && m.size_as_range() == (0..m.size().0, 0..m.size().1));
                }
                return by_index;
            }
            "show" => return json!(format!("{}", view(self.m(&op["a"]), &op["s"]))),
            "get" => return el(&view(self.m(&op["a"]), &op["s"])[(us(&op["p"]), us(&op["q"]))]),
            "dot" => return el(&view(self.m(&op["a"]), &op["s"]).dot(view(self.m(&op["b"]), &op["s2"]))),
            "eq" => {
                let (a, b) = (self.m(&op["a"]), self.m(&op["b"]));
                let (x, y) = (view(a, &op["s"]), view(b, &op["s2"]));
                return json!(match st(&op["own"]) {
                    "rr" => x == y,
                    "ro" => *x == y.as_matrix(),
                    _ => x.as_matrix() == y.as_matrix(),
                });
            }
            "put" | "swaprows" | "swapcols" | "rowop" | "colop" | "scaleas" | "divas" => {
                let m = self.r.get_mut(&r).unwrap();
                let top = arr(&op["s"]).is_empty();
                let (p, q) = (us(op.get("p").unwrap_or(&json!(0))), us(op.get("q").unwrap_or(&json!(0))));
                match st(&op["op"]) {
                    "put" => view_mut(m, &op["s"])[(p, q)] = k(),
                    "swaprows" => if top { m.swap_rows(p, q) } else { view_mut(m, &op["s"]).swap_rows(p, q) },
                    "swapcols" => if top { m.swap_cols(p, q) } else { view_mut(m, &op["s"]).swap_cols(p, q) },
                    "rowop" => if top { m.row_operation(p, q, k()) } else { view_mut(m, &op["s"]).row_operation(p, q, k()) },
                    "colop" => if top { m.col_operation(p, q, k()) } else { view_mut(m, &op["s"]).col_operation(p, q, k()) },
                    "scaleas" => if top { *m *= k() } else { *view_mut(m, &op["s"]) *= k() },
                    _ => T::div_as(view_mut(m, &op["s"]), k()),
                }
                return json!(0);
            }
            "write" => {
                let own = st(&op["own"]);
                let src = self.m(&op["a"]).clone();
                let src = view(&src, &op["s2"]);
                let m = view_mut(self.r.get_mut(&r).unwrap(), &op["s"]);
                if own == "move" { m.write_and_move(src.as_matrix()) } else { m.write(src) }
                return json!(0);
            }
            "add" | "sub" | "mul" => self.bin(op),
            "scale" => {
                let m = view(self.m(&op["a"]), &op["s"]);
                match st(&op["own"]) {
                    "r" => m * k(),
                    "o" => m.as_matrix() * k(),
                    "a" => { let mut x = m.as_matrix(); x *= k(); x }
                    "l" => k().left(m),
                    "dr" => T::div_ref(m, k()),
                    _ => T::div_own(m.as_matrix(), k()),
                }
            }
            "transp" => self.m(&op["a"]).clone().transpose(),
            "transpself" => self.r.remove(&r).unwrap().transpose(),
            "copy" => {
                let m = self.m(&op["a"]);
                if arr(&op["s"]).is_empty() { m.clone() } else { view(m, &op["s"]).as_matrix() }
            }
            x => panic!("op {}", x),
        };
        self.r.insert(r, v);
        json!(0)
    }
    fn look(&self, op: &Value) -> Value {
        match op.get("r").and_then(|r| self.r.get(r.as_str().unwrap()).map(|m| (r.as_str().unwrap(), m))) {
            Some((r, m)) => json!({r: show(m)}),
            None => json!({"none": 0}),
        }
    }
}
impl Machine for Mats<Rational> {
    fn step(&mut self, op: &Value) -> Value { self.common(op) }
    fn obs(&mut self, op: &Value) -> Value { self.look(op) }
}
impl Machine for Mats<i64> {
    fn step(&mut self, op: &Value) -> Value {
        if st(&op["op"]) == "basis" {
            let bs: Vec<B> = uss(&op["bs"]).into_iter().map(B).collect();
            let out: Vec<Vector<i64, B>> = self.m(&op["a"]).clone() * bs;
            return json!(out.into_iter().map(|v| v.into_iter().map(|(c, b)| json!([c, 1, b.0])).collect::<Vec<_>>()).collect::<Vec<_>>());
        }
        self.common(op)
    }
    fn obs(&mut self, op: &Value) -> Value { self.look(op) }
}

/// Matrices and vectors of fixed size: N by M, K by K and K entries.
pub struct CMats<const N: usize, const M: usize, const K: usize> { a: BTreeMap<String, CM<N, M, K>> }
impl<const N: usize, const M: usize, const K: usize> Default for CMats<N, M, K> { fn default() -> Self { Self { a: BTreeMap::new() } } }
#[derive(Clone)]
enum CM<const N: usize, const M: usize, const K: usize> { W(ConstMatrix<Rational, N, M>), S(ConstMatrix<Rational, K, K>), V(ConstVector<Rational, K>) }
type Q = Rational;
fn rows<const N: usize, const M: usize>(v: &Value) -> [[Q; M]; N] {
    let mut x = [[Q::from(0i64); M]; N];
    for i in 0..N { for j in 0..M { x[i][j] = Q::mk(&v[i][j]); } }
    x
}
impl<const N: usize, const M: usize, const K: usize> Machine for CMats<N, M, K> {
    fn step(&mut self, op: &Value) -> Value {
        let r = st(op.get("r").unwrap_or(&json!(""))).to_string();
        let g = |k: &str| self.a[st(&op[k])].clone();
        let k = || Q::mk(&op["x"]);
        let v = match st(&op["op"]) {
            "rows" => match (arr(&op["rows"]).len(), arr(&op["rows"][0]).len()) {
                (n, m) if (n, m) == (N, M) => CM::W(ConstMatrix::from(rows::<N, M>(&op["rows"]))),
                (n, m) if (n, m) == (K, K) => CM::S(ConstMatrix::from(rows::<K, K>(&op["rows"]))),
                _ => { let x = rows::<K, 1>(&op["rows"]); CM::V(ConstVector::from(x.map(|y| y[0]))) }
            },
            "fromcols" => {
                let c: Vec<ConstVector<Q, K>> = arr(&op["as"]).iter().map(|k| match &self.a[st(k)] { CM::V(v) => *v, _ => unreachable!() }).collect();
                CM::S(ConstMatrix::from(<[ConstVector<Q, K>; K]>::try_from(c).ok().unwrap()))
            }
            "zeros" => match (us(&op["n"]), us(&op["m"])) {
                (n, m) if (n, m) == (N, M) => CM::W(ConstMatrix::zero()),
                (n, m) if (n, m) == (K, K) => CM::S(ConstMatrix::zero()),
                _ => CM::V(ConstVector::zero()),
            },
            "ident" => CM::S(ConstMatrix::identity()),
            "add" => match (g("a"), g("b")) {
                (CM::W(mut x), CM::W(y)) => { x += y; CM::W(x) }
                (CM::S(mut x), CM::S(y)) => { x += y; CM::S(x) }
                (CM::V(x), CM::V(y)) => CM::V(x + y),
                _ => unreachable!(),
            },
            "sub" => match (g("a"), g("b")) {
                (CM::W(mut x), CM::W(y)) => { x -= y; CM::W(x) }
                (CM::S(mut x), CM::S(y)) => { x -= y; CM::S(x) }
                (CM::V(x), CM::V(y)) => CM::V(x - y),
                _ => unreachable!(),
            },
            "scale" => {
                let d = st(&op["own"]) == "d";
                match g("a") {
                    CM::W(x) => CM::W(if d { x / k() } else { x * k() }),
                    CM::S(x) => CM::S(if d { x / k() } else { x * k() }),
                    CM::V(x) => CM::V(if d { x / k() } else { x * k() }),
                }
            }
            "neg" => match g("a") { CM::W(x) => CM::W(-x), CM::S(x) => CM::S(-x), CM::V(x) => CM::V(-x) },
            "put" => {
                let mut c = g("r");
                let (i, j) = (us(&op["p"]), us(&op["q"]));
                match &mut c { CM::W(x) => x[i][j] = k(), CM::S(x) => x[i][j] = k(), CM::V(x) => x[i] = k() }
                c
            }
            "eq" => return json!(match (g("a"), g("b")) {
                (CM::W(x), CM::W(y)) => x == y,
                (CM::S(x), CM::S(y)) => x == y,
                (CM::V(x), CM::V(y)) => x == y,
                _ => unreachable!(),
            }),
            "vdot" => return match (g("a"), g("b")) { (CM::V(x), CM::V(y)) => el(&x.dot(y)), _ => unreachable!() },
            x => panic!("op {}", x),
        };
        self.a.insert(r, v);
        json!(0)
    }
    fn obs(&mut self, op: &Value) -> Value {
        let e = |n: usize, m: usize, f: &dyn Fn(usize, usize) -> Q| {
            let v: Vec<Vec<Value>> = (0..n).map(|i| (0..m).map(|j| el(&f(i, j))).collect()).collect();
            json!({"n": n, "m": m, "e": v})
        };
        match op.get("r").and_then(|r| self.a.get(r.as_str().unwrap())) {
            Some(CM::W(x)) => json!({st(&op["r"]): e(N, M, &|i, j| x[i][j])}),
            Some(CM::S(x)) => json!({st(&op["r"]): e(K, K, &|i, j| x[i][j])}),
            Some(CM::V(x)) => json!({st(&op["r"]): e(K, 1, &|i, _| x[i])}),
            None => json!({"none": 0}),
        }
    }
}
