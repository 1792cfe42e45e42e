use crate::{js::*, Machine};
use alg::lin_alg::ConstVector;
use geom::{delaunay_triangulation, Triangle};
use serde_json::{json, Value};

/// Points with integral coordinates, scaled by a power of two and shifted, so that they are exact.
fn point(op: &Value, v: &Value) -> ConstVector<f64, 2> {
    let s = 2f64.powi(i64_(&op["s"]) as i32);
    ConstVector::from([i64_(&v[0]) as f64 * s + i64_(&op["dx"]) as f64, i64_(&v[1]) as f64 * s + i64_(&op["dy"]) as f64])
}
fn triangle(ps: &[ConstVector<f64, 2>], t: &[usize]) -> Triangle {
    Triangle::new([ps[t[0]], ps[t[1]], ps[t[2]]])
}

#[derive(Default)]
pub struct Planar;
impl Machine for Planar {
    fn step(&mut self, op: &Value) -> Value {
        let ps: Vec<_> = arr(&op["pts"]).iter().map(|v| point(op, v)).collect();
        match st(&op["op"]) {
            "delaunay" => {
                let (ts, ix) = delaunay_triangulation(&ps);
                // the triangles are those of the index triples, in some order of the vertices
                let same = ts.len() == ix.len()
                    && ts.iter().zip(&ix).all(|(t, i)| {
                        [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]].iter().any(|q| *t == triangle(&ps, &[i[q[0]], i[q[1]], i[q[2]]]))
                    });
                json!({"ts": ix, "same": same})
            }
            "circle" => {
                let t = triangle(&ps, &[0, 1, 2]);
                json!(ps[3..].iter().map(|p| t.circum_circle_contains(*p)).collect::<Vec<_>>())
            }
            x => panic!("op {}", x),
        }
    }
}
