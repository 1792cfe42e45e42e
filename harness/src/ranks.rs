use crate::{js::*, sums::Co, Machine};
use alg::commutative::Rational;
use alg::lin_alg::Matrix;
use serde_json::{json, Value};
use topo_spaces::HomologyWithFieldCoefficients;

pub struct Ranks;
struct Chain(Vec<Matrix<Rational>>);
impl HomologyWithFieldCoefficients<Rational> for Chain {
    fn get_boundary_map(&self) -> Vec<Matrix<Rational>> { self.0.clone() }
}
fn mk(x: &Value) -> Matrix<Rational> {
    Matrix::from_array(arr(&x["e"]).iter().map(|r| arr(r).iter().map(Rational::mk).collect()).collect())
}
impl Machine for Ranks {
    fn step(&mut self, op: &Value) -> Value {
        match st(&op["op"]) {
            "rank" => {
                let m = mk(&op["x"]);
                let before = m.clone();
                let k = m.rank_as_linear_map();
                assert!(m == before, "the matrix was changed");
                json!(k)
            }
            "betti" => json!(Chain(arr(&op["maps"]).iter().map(mk).collect()).homology()),
            x => panic!("{}", x),
        }
    }
    fn obs(&mut self, _: &Value) -> Value { json!(0) }
}
