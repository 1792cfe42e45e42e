use crate::mats::{show, Scal};
use crate::{js::*, Machine};
use alg::lin_alg::{Matrix, SparseMatrix};
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub struct Sparse<T: Scal> { s: BTreeMap<String, SparseMatrix<T>>, d: BTreeMap<String, Matrix<T>> }
impl<T: Scal> Default for Sparse<T> { fn default() -> Self { Sparse { s: BTreeMap::new(), d: BTreeMap::new() } } }
fn el<T: Scal>(x: &T) -> Value { let (n, d) = x.out(); json!([n, d]) }
impl<T: Scal> Machine for Sparse<T> {
    fn step(&mut self, op: &Value) -> Value {
        let r = st(op.get("r").unwrap_or(&json!(""))).to_string();
        let s = |k: &str| self.s[st(&op[k])].clone();
        let d = |k: &str| self.d[st(&op[k])].clone();
        let v = match st(&op["op"]) {
            "sbuild" => {
                let es: BTreeMap<(usize, usize), T> = arr(&op["es"]).iter().map(|e| ((us(&e[0]), us(&e[1])), T::mk(&e[2]))).collect();
                let m = SparseMatrix::from(((us(&op["n"]), us(&op["m"])), |p: (usize, usize)| es.get(&p).copied()));
                self.s.insert(r, m);
                return json!(0);
            }
            "stransp" => { let t = s("a").transpose(); self.s.insert(r, t); return json!(0) }
            "srow" => return Value::Array(self.s[st(&op["a"])].row_iter(us(&op["p"])).map(|(j, x)| json!([j, el(x)])).collect()),
            "scol" => return Value::Array(self.s[st(&op["a"])].col_iter(us(&op["p"])).map(|(j, x)| json!([j, el(x)])).collect()),
            "sshow" => return json!(format!("{}", self.s[st(&op["a"])])),
            "rows" => Matrix::from_array(arr(&op["rows"]).iter().map(|x| arr(x).iter().map(T::mk).collect()).collect()),
            "eqd" => return json!(self.s[st(&op["a"])] == self.d[st(&op["b"])]),
            "ss" => s("a") * s("b"),
            "sd" => s("a") * d("b"),
            "ds" => d("a") * s("b"),
            x => panic!("op {}", x),
        };
        self.d.insert(r, v);
        json!(0)
    }
    fn obs(&mut self, op: &Value) -> Value {
        let r = match op.get("r") { Some(r) => st(r), None => return json!(0) };
        if let Some(m) = self.d.get(r) { return show(m); }
        match self.s.get(r) {
            None => json!({"n": 0, "m": 0, "e": []}),
            Some(m) => {
                let (n, k) = m.size();
                let rows: Vec<Vec<Value>> = (0..n).map(|i| m.row_iter(i).map(|(j, x)| json!([j, el(x)])).collect()).collect();
                let cols: Vec<Vec<Value>> = (0..k).map(|j| m.col_iter(j).map(|(i, x)| json!([i, el(x)])).collect()).collect();
                json!({"n": n, "m": k, "rows": rows, "cols": cols})
            }
        }
    }
}
