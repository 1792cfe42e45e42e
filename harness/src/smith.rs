use crate::{arith::big, js::*, Machine};
use alg::lin_alg::Matrix;
use serde_json::{json, Value};

pub struct Smith;
macro_rules! snf {
    ($t:ty, $op:expr) => {{
        let rows: Vec<Vec<$t>> = i64ss(&$op["rows"]).into_iter().map(|r| r.into_iter().map(|x| x as $t).collect()).collect();
        let (ri, r, d, c, ci) = Matrix::<$t>::from_array(rows).smith_normal_form();
        let ms: Vec<Vec<Vec<i128>>> = [ri, r, d, c, ci].iter().map(|m| {
            let (n, k) = m.size();
            (0..n).map(|i| (0..k).map(|j| m[(i, j)] as i128).collect()).collect()
        }).collect();
        pack(ms)
    }};
}
fn pack(ms: Vec<Vec<Vec<i128>>>) -> Value {
    let small = ms.iter().flatten().flatten().all(|x| x.abs() < 9000);
    let d = &ms[2];
    let side = d.len().min(d.first().map_or(0, |r| r.len()));
    // witnesses of divisibility; the specification multiplies them back
    let q: Vec<i128> = (1..side).map(|k| if d[k - 1][k - 1] == 0 { 0 } else { d[k][k] / d[k - 1][k - 1] }).collect();
    let m = |i: usize| -> Value {
        let rows: Vec<Vec<Value>> = ms[i].iter().map(|r| r.iter().map(|x| if small { json!(*x as i64) } else { big(*x) }).collect()).collect();
        json!(rows)
    };
    let mut out = json!({"f": if small { "s" } else { "b" }, "ri": m(0), "r": m(1), "d": m(2), "c": m(3), "ci": m(4)});
    if !small {
        out["q"] = json!(q.iter().map(|x| big(*x)).collect::<Vec<_>>());
    }
    out
}
impl Machine for Smith {
    fn step(&mut self, op: &Value) -> Value {
        match st(&op["ty"]) {
            "i32" => snf!(i32, op),
            "i64" => snf!(i64, op),
            "i128" => snf!(i128, op),
            "isize" => snf!(isize, op),
            x => panic!("{}", x),
        }
    }
    fn obs(&mut self, _: &Value) -> Value { json!(0) }
}
