use crate::{js::*, Machine};
use alg::lin_alg::{Matrix, SubMatrix};
use serde_json::{json, Value};

/// A double to eight decimals: its floor and 10^8 times the rest. What cannot be written so is [0, -1].
fn num(x: f64) -> Value {
    let hi = x.floor();
    if !x.is_finite() || hi.abs() > 2e9 {
        return json!([0, -1]);
    }
    json!([hi as i64, (((x - hi) * 1e8).floor() as i64).min(99_999_999)])
}
fn mat(v: &Value, den: f64) -> Matrix<f64> {
    let r = i64ss(v);
    let mut m = Matrix::zero(r.len(), r[0].len());
    for i in 0..r.len() {
        for j in 0..r[0].len() {
            m[(i, j)] = r[i][j] as f64 / den;
        }
    }
    m
}
fn nums(m: &SubMatrix<f64>) -> Value {
    let (r, c) = m.size();
    json!((0..r).map(|i| (0..c).map(|j| num(m[(i, j)])).collect::<Vec<_>>()).collect::<Vec<_>>())
}
/// The three diagonals of a tridiagonalization (the rest of its storage keeps the reflections).
fn band(m: &Matrix<f64>) -> Value {
    let n = m.size().0;
    json!((0..n).map(|i| (0..n).map(|j| if i.max(j) - i.min(j) <= 1 { num(m[(i, j)]) } else { num(0.0) }).collect::<Vec<_>>()).collect::<Vec<_>>())
}
/// Runs a routine that works in place on a window of a larger matrix; tells whether the rest stayed as it was.
fn within<T>(op: &Value, m: &Matrix<f64>, f: impl Fn(&mut SubMatrix<f64>) -> T) -> (Value, bool, T) {
    let pad = usss(&json!([op["pad"]]))[0].clone();
    let n = m.size().0;
    let fill = |i: usize, j: usize| (3 * i + 5 * j + 1) as f64 / 4.0;
    let mut big: Matrix<f64> = Matrix::zero(pad[0] + n + pad[1], pad[2] + n + pad[3]);
    let inside = |i: usize, j: usize| i >= pad[0] && i < pad[0] + n && j >= pad[2] && j < pad[2] + n;
    let (r, c) = big.size();
    for i in 0..r {
        for j in 0..c {
            big[(i, j)] = if inside(i, j) { m[(i - pad[0], j - pad[2])] } else { fill(i, j) };
        }
    }
    let x = f(&mut big[(pad[0]..pad[0] + n, pad[2]..pad[2] + n)]);
    let frame = (0..r).all(|i| (0..c).all(|j| inside(i, j) || big[(i, j)] == fill(i, j)));
    (nums(&big[(pad[0]..pad[0] + n, pad[2]..pad[2] + n)]), frame, x)
}
/// Integers u with a*u = b as far as doubles tell (a witness: the specification verifies it).
fn witness(a: &[Vec<i64>], b: &Matrix<f64>) -> Vec<Vec<i64>> {
    let m = a[0].len();
    let dot = |x: &dyn Fn(usize) -> f64, y: &dyn Fn(usize) -> f64| (0..a.len()).map(|k| x(k) * y(k)).sum::<f64>();
    let mut g: Vec<Vec<f64>> = (0..m)
        .map(|i| {
            let col = |k: usize| a[k][i] as f64;
            (0..2 * m).map(|j| if j < m { dot(&col, &|k| a[k][j] as f64) } else { dot(&col, &|k| b[(k, j - m)].round()) }).collect()
        })
        .collect();
    for i in 0..m {
        let p = (i..m).max_by(|&x, &y| g[x][i].abs().partial_cmp(&g[y][i].abs()).unwrap()).unwrap();
        g.swap(i, p);
        for k in 0..m {
            if k != i {
                let f = g[k][i] / g[i][i];
                for j in i..2 * m {
                    g[k][j] -= f * g[i][j];
                }
            }
        }
    }
    (0..m).map(|i| (0..m).map(|j| (g[i][m + j] / g[i][i]).round().clamp(-1e9, 1e9) as i64).collect()).collect()
}

pub struct Nums;
impl Machine for Nums {
    fn step(&mut self, op: &Value) -> Value {
        let name = st(&op["op"]);
        let draw = |m: Matrix<f64>| nums(&m);
        match name {
            "givens" => {
                let (x, y) = Matrix::<f64>::givens_rotation(i64_(&op["a"]) as f64 / i64_(&op["den"]) as f64, i64_(&op["b"]) as f64 / i64_(&op["den"]) as f64);
                return json!([num(x), num(y)]);
            }
            "orthogonal" => return draw(Matrix::random_orthogonal(us(&op["n"]))),
            "unit" => return draw(Matrix::random_unit_vec(us(&op["n"]))),
            "symmetric" => {
                let n = us(&op["n"]);
                return draw(if op["sparse"] == json!(true) { Matrix::random_sparse_symmetric(n, n) } else { Matrix::random_symmetric(n, n) });
            }
            _ => {}
        }
        let den = i64_(&op["den"]) as f64;
        let m = mat(&op["m"], den);
        let view = op["view"] == json!(true);
        match name {
            "det" => num(if view { m[(.., ..)].det() } else { m.det() }),
            "solve" => nums(&m.solve(mat(&op["b"], 1.0))),
            "lu" => {
                let (r, frame, _) = within(op, &m, |v| v.lu());
                json!({"m": r, "frame": frame})
            }
            "gs" => nums(&m.gram_schmidt()),
            "gsw" => nums(&m.gram_schmidt_without_normalize()),
            "householder" => {
                let x: Vec<f64> = (0..m.size().0).map(|i| m[(i, 0)]).collect();
                let (v, b) = if view { m[(.., ..)].householder_vec() } else { m.householder_vec() };
                // what the reflection leaves below the first entry
                let vx: f64 = x.iter().enumerate().map(|(i, a)| v[(i, 0)] * a).sum();
                let t: Vec<_> = (1..x.len()).map(|i| num(x[i] - b * vx * v[(i, 0)])).collect();
                // the same direction as a unit vector: long vectors have a tiny b
                let w: Vec<_> = (0..v.size().0).map(|i| json!([num((b / 2.0).sqrt() * v[(i, 0)])])).collect();
                json!({"v": nums(&v), "b": num(b), "w": w, "t": t})
            }
            "norms" => {
                let v = &m[(.., ..)];
                let two: Vec<Value> = if m.size().1 == 1 { vec![num(if view { v.two_norm() } else { m.two_norm() })] } else { vec![] };
                if view {
                    json!({"one": num(v.one_norm()), "inf": num(v.inf_norm()), "fro": num(v.frobenius_norm()), "two": two})
                } else {
                    json!({"one": num(m.one_norm()), "inf": num(m.inf_norm()), "fro": num(m.frobenius_norm()), "two": two})
                }
            }
            "spectrum" => nums(&m.spectrum()),
            "spectrum_sym" => nums(&m.spectrum_symmetric()),
            "inv" => {
                let (l, v) = m.spectrum_with_invariant_space();
                json!({"l": nums(&l), "v": nums(&v)})
            }
            "invs" => {
                let (l, v) = m.spectrum_with_invariant_space_symmetric();
                json!({"l": nums(&l), "v": nums(&v)})
            }
            "small" => {
                let (l, v) = m.spectrum_with_n_smallest_eigenvecs_symmetric(us(&op["k"]));
                json!({"l": nums(&l), "v": nums(&v)})
            }
            "nth" => {
                let all = m.clone().spectrum_symmetric();
                let (l, v) = m.spectrum_with_n_th_eigenvec_symmetric(us(&op["k"]));
                json!({"l": num(l), "v": nums(&v), "all": nums(&all)})
            }
            "hess" => {
                let (r, frame, _) = within(op, &m, |v| v.hessenberg_form());
                json!({"m": r, "frame": frame})
            }
            "tridiag" => {
                let n = m.size().0;
                let (mut t, mut t0) = (m.clone(), m);
                t0.householder_tridiagonalization(false);
                t.householder_tridiagonalization(true);
                let mut q = Matrix::identity(n);
                if n > 2 {
                    q[(1.., 1..)].write(&t[(2.., ..n - 2)].extract_householder_vecs());
                }
                json!({"t": band(&t), "t0": band(&t0), "q": nums(&q)})
            }
            "symqr" => {
                let (mut t, mut t0) = (m.clone(), m);
                t0.symmetric_qr(false);
                let q = t.symmetric_qr(true);
                json!({"t": nums(&t), "t0": nums(&t0), "q": nums(&q)})
            }
            "qr" | "francis" => {
                let qr = name == "qr";
                let (t, f1, q) = within(op, &m, |v| if qr { v.qr_with_op() } else { v.francis_step_with_op() });
                let (t0, f2, _) = within(op, &m, |v| if qr { v.qr() } else { v.francis_step() });
                // the routines of the matrix itself do the same as those of a view of all of it
                let (mut a, mut b, mut c) = (m.clone(), m.clone(), m.clone());
                let (qa, qb) = if qr { (a.qr_with_op(), b[(.., ..)].qr_with_op()) } else { (a.francis_step_with_op(), b[(.., ..)].francis_step_with_op()) };
                if qr { c.qr() } else { c.francis_step() };
                let same = nums(&a) == nums(&b) && nums(&qa) == nums(&qb) && nums(&c) == t0;
                json!({"t": t, "t0": t0, "q": nums(&q), "frame": f1 && f2 && same})
            }
            "wilkinson" => {
                let (t, f1, rot) = within(op, &m, |v| v.implicit_symmetric_qr_with_wilkinson_shift(true));
                let (t0, f2, _) = within(op, &m, |v| { v.implicit_symmetric_qr_with_wilkinson_shift(false); });
                json!({"t": t, "t0": t0, "rot": nums(&rot), "frame": f1 && f2})
            }
            "lll" => {
                let a = i64ss(&op["m"]);
                let r = m.lll_lattice_reduce(i64_(&op["delta"]) as f64 / 100.0);
                let u = witness(&a, &r);
                json!({"m": nums(&r), "u": u})
            }
            x => panic!("op {}", x),
        }
    }
}
