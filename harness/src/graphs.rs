use crate::{js::*, Machine};
use alg::commutative::Rational;
use alg::lin_alg::ConstVector;
use alg::non_commutative::permutation::{Cycle, Permutation};
use alg::non_commutative::Gset;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use topo_spaces::graph::{CubeFactor, Graph, RawSimpleGraph, SimpleGraph, SimpleVertex, WeightedSimpleGraph};

/// The permutation x -> map[x].
pub fn perm(map: &[usize]) -> Permutation {
    let mut seen = vec![false; map.len()];
    let mut cs = vec![];
    for i in 0..map.len() {
        let (mut c, mut x) = (vec![], i);
        while !seen[x] {
            seen[x] = true;
            c.push(x);
            x = map[x];
        }
        if c.len() > 1 {
            cs.push(Cycle::from(c));
        }
    }
    Permutation::from_disjoint_cycles(cs)
}

pub fn edge_list(g: &RawSimpleGraph) -> Vec<[usize; 2]> {
    g.edge_iter().map(|f| f.edge()).collect()
}

#[derive(Default)]
pub struct Raws {
    r: BTreeMap<String, RawSimpleGraph>,
}

impl Machine for Raws {
    fn step(&mut self, op: &Value) -> Value {
        let k = st(&op["r"]).to_string();
        match st(&op["op"]) {
            "new" => { self.r.insert(k, RawSimpleGraph::new(us(&op["n"]))); }
            "clone" => { let x = self.r[st(&op["q"])].clone(); self.r.insert(k, x); }
            "same" => return json!(self.r[&k] == self.r[st(&op["q"])]),
            "has" => return json!(self.r[&k].contains(us(&op["u"]), us(&op["v"]))),
            "degree" => return json!(self.r[&k].degree_of(us(&op["u"]))),
            "show" => return json!(self.r[&k].to_string()),
            "debug" => return json!(format!("{:?}", self.r[&k])),
            "act" => {
                let p = perm(&uss(&op["map"]));
                match us(&op["how"]) {
                    0 => { let x = self.r[&k].clone() << p; self.r.insert(k, x); }
                    1 => *self.r.get_mut(&k).unwrap() <<= p,
                    _ => self.r.get_mut(&k).unwrap().action_by(p),
                }
            }
            o => {
                let (u, v) = (us(&op["u"]), us(&op["v"]));
                let g = self.r.get_mut(&k).unwrap();
                match o {
                    "add" => g.add_edge(u, v),
                    "remove" => g.remove_edge(u, v),
                    "swap" => g.swap(u, v),
                    x => panic!("op {}", x),
                }
            }
        }
        json!(0)
    }
    fn obs(&mut self, op: &Value) -> Value {
        let g = &self.r[st(&op["r"])];
        let n = g.n_vertices();
        json!({"nv": n, "ne": g.n_edges(), "edges": edge_list(g),
            "adj": (0..n).map(|v| g.adjacent_vertices_iter(v).collect::<Vec<_>>()).collect::<Vec<_>>(),
            "got": (0..n).map(|v| g.get_adjacent_vertices(v)).collect::<Vec<_>>(),
            "deg": (0..n).map(|v| g.degree_of(v)).collect::<Vec<_>>(),
            "conn": n < 2 || g.is_connected(),
            "verts": g.vertex_iter().map(|f| f.vertex()).collect::<Vec<_>>(),
            "nfac": g.iter().filter(|f| match f { CubeFactor::Vertex(x) => *x < n, CubeFactor::Edge([x, y]) => g.contains(*x, *y) }).count()})
    }
}

/// Input vertices are named by the position of the name in `names`.
pub fn multigraph(op: &Value) -> Graph<i64> {
    Graph::from(arr(&op["pairs"]).iter().map(|p| (st(&p[0]).to_string(), st(&p[1]).to_string())).collect())
}

pub fn vertex(v: &SimpleVertex) -> Value {
    match v {
        SimpleVertex::Essential(s) => json!({"ess": true, "a": s, "b": "", "k": 0, "pos": ""}),
        SimpleVertex::Redundant(x) => json!({"ess": false, "a": x.start, "b": x.end, "k": x.direction, "pos": x.pos.to_string()}),
    }
}

pub fn subdivision(g: &SimpleGraph) -> Value {
    let n = g.n_vertices();
    let es = edge_list(g);
    json!({"nv": n, "rawnv": (**g).n_vertices(), "ness": g.n_essential_vertices(), "ne": g.n_edges(),
        "verts": g.vertices_list().iter().map(vertex).collect::<Vec<_>>(),
        "shown": (0..n).map(|i| g[i].to_string()).collect::<Vec<_>>(),
        "tree": es.iter().map(|e| g.maximal_tree_contains(*e)).collect::<Vec<_>>(),
        "tdeg": (0..n).map(|i| g.degree_in_maximal_tree(i)).collect::<Vec<_>>(),
        "up": (1..n).map(|i| CubeFactor::Vertex(i).flow(g).edge()).collect::<Vec<_>>(),
        "chosen": g.is_maximal_tree_chosen, "edges": es, "text": g.to_string()})
}

#[derive(Default)]
pub struct Multi;
impl Machine for Multi {
    fn step(&mut self, op: &Value) -> Value {
        match st(&op["op"]) {
            "graph" => {
                let g = multigraph(op);
                json!({"nv": g.n_vertices(), "nl": g.n_loops(), "ne": g.n_non_loop_edges(), "nu": g.n_non_loop_edges_up_to_multiplicity()})
            }
            "sub" => {
                let g = multigraph(op);
                let n = us(&op["n"]);
                subdivision(&if op["plain"].as_bool().unwrap() { SimpleGraph::from(&g) } else { SimpleGraph::subdivided_graph_from(&g, n) })
            }
            "place" => {
                // positions (integers) of the given vertices, in thousandths afterwards
                let g = SimpleGraph::subdivided_graph_from(&multigraph(op), us(&op["n"]));
                let emb: HashMap<String, ConstVector<f64, 2>> = arr(&op["at"]).iter()
                    .map(|x| (st(&x[0]).to_string(), ConstVector::from([i64_(&x[1]) as f64, i64_(&x[2]) as f64]))).collect();
                let out = g.modify_embedding(emb);
                json!({"n": out.len(), "at": g.vertices_list().iter().map(|v| {
                    let p = out[v];
                    json!([vertex(v), (p[0] * 1000.0).round() as i64, (p[1] * 1000.0).round() as i64])
                }).collect::<Vec<_>>()})
            }
            "weights" => {
                let w: Vec<(String, String, i64)> = arr(&op["es"]).iter().map(|x| (st(&x[0]).to_string(), st(&x[1]).to_string(), i64_(&x[2]))).collect();
                let show = |f: &dyn Fn(usize, usize) -> Value, n: usize| (0..n).map(|i| (0..n).map(|j| f(i, j)).collect::<Vec<_>>()).collect::<Vec<_>>();
                if op["rat"].as_bool().unwrap() {
                    let q = |x: Rational| json!(x.to_string());
                    let g = WeightedSimpleGraph::<Rational>::from(w.into_iter().map(|(a, b, x)| (a, b, Rational::new(x, 7))).collect());
                    let (n, d, names) = (g.n_vertices(), g.data().clone(), g.vertices().clone());
                    let l = g.laplacian();
                    json!({"nv": n, "names": names, "size": [d.size().0, d.size().1, l.size().0, l.size().1],
                        "w": show(&|i, j| q(d[(i, j)]), n), "l": show(&|i, j| q(l[(i, j)]), n)})
                } else {
                    let g = WeightedSimpleGraph::<i64>::from(w);
                    let (n, d, names) = (g.n_vertices(), g.data().clone(), g.vertices().clone());
                    let l = g.laplacian();
                    json!({"nv": n, "names": names, "size": [d.size().0, d.size().1, l.size().0, l.size().1],
                        "w": show(&|i, j| json!(d[(i, j)]), n), "l": show(&|i, j| json!(l[(i, j)]), n)})
                }
            }
            x => panic!("op {}", x),
        }
    }
}
