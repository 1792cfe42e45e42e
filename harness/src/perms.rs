use crate::{js::*, Machine};
use alg::non_commutative::permutation::{ConstPermutation, Cycle, Permutation, VecPermutation};
use alg::non_commutative::{Group, Gset};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use topo_spaces::graph::RawSimpleGraph;

#[derive(Default)]
pub struct Perms {
    m: usize,
    r: BTreeMap<String, Permutation>,
}

pub fn edges_of(g: &RawSimpleGraph) -> Vec<[usize; 2]> {
    let n = g.n_vertices();
    let mut v = vec![];
    for i in 0..n {
        for j in i + 1..n {
            if g.contains(i, j) {
                v.push([i, j]);
            }
        }
    }
    v
}

impl Machine for Perms {
    fn step(&mut self, op: &Value) -> Value {
        let g = |k: &str| self.r[st(&op[k])].clone();
        let rg = |k: &str| { let v = uss(&op[k]); v[0]..v[1] };
        let v = match st(&op["op"]) {
            "points" => { self.m = us(&op["m"]); return json!(0) }
            "cycles" => Permutation::from_disjoint_cycles(usss(&op["cs"]).into_iter().map(Cycle::from).collect()),
            "cycle" => Permutation::from_cycle(Cycle::from(uss(&op["cs"][0]))),
            "cyclic" => Permutation::cyclic_from(rg("x")),
            "swap" => Permutation::swap(rg("x"), rg("y")),
            "id" => Permutation::identity(),
            "mul" => g("a") * g("b"),
            "inv" => g("a").inverse(),
            "pow" => g("a") ^ i64_(&op["k"]),
            "prod" => arr(&op["xs"]).iter().map(|k| self.r[st(k)].clone()).product(),
            "gens" => {
                // each generator as the pair of points it exchanges
                let gs = g("a").in_terms_of_gens();
                return json!(gs.iter().map(|t| t.unfixed_indeces_iter().collect::<Vec<_>>()).collect::<Vec<_>>());
            }
            "eq" => return json!(g("a") == g("b")),
            "isid" => return json!(g("a") == Permutation::identity()),
            "act" => return json!(i64s(&op["xs"]) << g("a")),
            "actas" => { let mut x = i64s(&op["xs"]); x <<= g("a"); return json!(x) }
            "actby" => { let mut x = i64s(&op["xs"]); x.action_by(g("a")); return json!(x) }
            "gact" => {
                let mut gr = RawSimpleGraph::new(us(&op["n"]));
                for e in usss(&op["es"]) { gr.add_edge(e[0], e[1]) }
                if op["as"].as_bool().unwrap() { gr <<= g("a") } else { gr = gr << g("a") }
                return json!({"es": edges_of(&gr), "n": gr.n_edges()});
            }
            x => panic!("op {}", x),
        };
        self.r.insert(st(&op["r"]).to_string(), v);
        json!(0)
    }
    fn obs(&mut self, _op: &Value) -> Value {
        Value::Object(self.r.iter().map(|(k, p)| (k.clone(), json!({
            "map": (0..self.m).map(|i| p.map(i)).collect::<Vec<_>>(),
            "unfixed": p.unfixed_indeces_iter().collect::<Vec<_>>(),
            "str": format!("{}", p)}))).collect())
    }
}

pub struct CPerms<const N: usize> {
    r: BTreeMap<String, ConstPermutation<N>>,
}
impl<const N: usize> CPerms<N> {
    fn new() -> Self { Self { r: BTreeMap::new() } }
}
impl<const N: usize> Machine for CPerms<N> {
    fn step(&mut self, op: &Value) -> Value {
        let g = |k: &str| self.r[st(&op[k])];
        let v: ConstPermutation<N> = match st(&op["op"]) {
            "list" => {
                let a: [usize; N] = uss(&op["xs"]).try_into().unwrap();
                ConstPermutation::from(a)
            }
            "id" => ConstPermutation::identity(),
            "mul" => g("a") * g("b"),
            "mulas" => { let mut x = g("a"); x *= g("b"); x }
            "inv" => g("a").inverse(),
            "invgen" => g("a").inverse_of_gen(),
            "prod" => arr(&op["xs"]).iter().map(|k| self.r[st(k)]).product(),
            "order" => return json!(g("a").order()),
            "eq" => return json!(g("a") == g("b")),
            "isid" => return json!(g("a") == ConstPermutation::identity()),
            x => panic!("op {}", x),
        };
        self.r.insert(st(&op["r"]).to_string(), v);
        json!(0)
    }
    fn obs(&mut self, _op: &Value) -> Value {
        Value::Object(self.r.iter().map(|(k, p)| {
            let q = VecPermutation::from(*p);
            (k.clone(), json!({"map": (0..N).map(|i| q.eval(i)).collect::<Vec<_>>()}))
        }).collect())
    }
}

/// Dispatches on the first op's size.
#[derive(Default)]
pub struct CAny {
    m: Option<Box<dyn Machine>>,
}
impl Machine for CAny {
    fn step(&mut self, op: &Value) -> Value {
        if st(&op["op"]) == "points" {
            self.m = Some(match us(&op["m"]) {
                1 => Box::new(CPerms::<1>::new()),
                2 => Box::new(CPerms::<2>::new()),
                3 => Box::new(CPerms::<3>::new()),
                4 => Box::new(CPerms::<4>::new()),
                5 => Box::new(CPerms::<5>::new()),
                6 => Box::new(CPerms::<6>::new()),
                7 => Box::new(CPerms::<7>::new()),
                8 => Box::new(CPerms::<8>::new()),
                12 => Box::new(CPerms::<12>::new()),
                17 => Box::new(CPerms::<17>::new()),
                33 => Box::new(CPerms::<33>::new()),
                70 => Box::new(CPerms::<70>::new()),
                131 => Box::new(CPerms::<131>::new()),
                x => panic!("size {}", x),
            });
            return json!(0);
        }
        self.m.as_mut().unwrap().step(op)
    }
    fn obs(&mut self, op: &Value) -> Value {
        self.m.as_mut().unwrap().obs(op)
    }
}

#[derive(Default)]
pub struct VPerms {
    m: usize,
    r: BTreeMap<String, VecPermutation>,
}
fn vfrom(x: &[usize]) -> VecPermutation {
    macro_rules! t { ($($n:literal)*) => { match x.len() { $( $n => VecPermutation::from(<[usize; $n]>::try_from(x).unwrap()), )* k => panic!("size {}", k) } } }
    t!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127 128 129 130 131)
}
impl Machine for VPerms {
    fn step(&mut self, op: &Value) -> Value {
        let g = |k: &str| self.r[st(&op[k])].clone();
        let v = match st(&op["op"]) {
            "points" => { self.m = us(&op["m"]); return json!(0) }
            "list" => vfrom(&uss(&op["xs"])),
            "id" => VecPermutation::identity(),
            "mul" => g("a") * g("b"),
            "mulas" => { let mut x = g("a"); x *= g("b"); x }
            "inv" => g("a").inverse(),
            "invgen" => g("a").inverse_of_gen(),
            "prod" => arr(&op["xs"]).iter().map(|k| self.r[st(k)].clone()).product(),
            "order" => return json!(g("a").order()),
            "eq" => return json!(g("a") == g("b")),
            "isid" => return json!(g("a") == VecPermutation::identity()),
            x => panic!("op {}", x),
        };
        self.r.insert(st(&op["r"]).to_string(), v);
        json!(0)
    }
    fn obs(&mut self, _op: &Value) -> Value {
        Value::Object(self.r.iter().map(|(k, p)| (k.clone(), json!({"map": (0..self.m).map(|i| p.eval(i)).collect::<Vec<_>>()}))).collect())
    }
}
