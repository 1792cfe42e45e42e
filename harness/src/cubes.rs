use crate::{graphs::*, js::*, simp, Machine};
use alg::lin_alg::Vector;
use serde_json::{json, Value};
use topo_spaces::cubical::{Cube, CubicalCplx, EdgePath, UdnMorseCplx};
use topo_spaces::graph::{CubeFactor, RawSimpleGraph, SimpleGraph};
use topo_spaces::{Complex, IntegralHomology, H};

/// A factor is [v] or [i, j].
pub fn factor(v: &Value) -> CubeFactor {
    let x = uss(v);
    if x.len() == 1 { CubeFactor::Vertex(x[0]) } else { CubeFactor::Edge([x[0], x[1]]) }
}
pub fn cube(v: &Value) -> Cube {
    Cube::from(arr(v).iter().map(factor).collect::<Vec<_>>())
}
pub fn show(c: &Cube) -> Value {
    json!(c.iter().map(|f| match f {
        CubeFactor::Vertex(v) => json!([v]),
        CubeFactor::Edge(e) => json!(e),
    }).collect::<Vec<_>>())
}
pub fn chain(v: &Vector<i64, Cube>) -> Value {
    json!(v.iter().map(|(k, c)| json!([k, show(c)])).collect::<Vec<_>>())
}
pub fn raw(op: &Value) -> RawSimpleGraph {
    let mut g = RawSimpleGraph::new(us(&op["nv"]));
    for e in usss(&op["edges"]) { g.add_edge(e[0], e[1]); }
    g.is_maximal_tree_chosen = true;
    g
}
fn complex<C: Complex<Cell = Cube>>(c: &C) -> Value {
    json!(c.boundary_map().iter().map(|(m, b)| json!({"rows": m.size().0, "cols": m.size().1, "nz": simp::sparse_entries(m),
        "basis": b.iter().map(show).collect::<Vec<_>>()})).collect::<Vec<_>>())
}
/// The cells listed by Display, one list per dimension.
fn listed(s: &str) -> Value {
    let mut out: Vec<Vec<Value>> = vec![];
    for line in s.lines() {
        if let Some(x) = line.trim().strip_prefix('{') {
            let x = &x[..x.rfind('}').unwrap()];
            out.last_mut().unwrap().push(json!(x.split(", ").filter(|f| !f.trim().is_empty()).map(|f| {
                f.trim_matches(|c| c == '[' || c == ']').split(' ').map(|n| n.parse::<usize>().unwrap()).collect::<Vec<_>>()
            }).collect::<Vec<_>>()));
        } else {
            assert!(line.starts_with(&format!("{}-cells:", out.len())), "{}", line);
            out.push(vec![]);
        }
    }
    json!(out)
}
pub fn graph_of(g: &SimpleGraph) -> Value {
    let n = (**g).n_vertices();
    json!({"n": n, "edges": edge_list(g), "verts": (0..n).map(|i| vertex(&g[i])).collect::<Vec<_>>()})
}

#[derive(Default)]
pub struct Cubes;
impl Machine for Cubes {
    fn step(&mut self, op: &Value) -> Value {
        match st(&op["op"]) {
            "udc" => {
                let g = multigraph(op);
                let n = us(&op["n"]);
                let c = CubicalCplx::udc(&g, n);
                let hom = if op["hom"].as_bool().unwrap() { simp::modules(&H!(c).to_string()) } else { json!([]) };
                json!({"g": graph_of(&SimpleGraph::subdivided_graph_from(&g, n)), "cells": c.n_cells(), "listed": listed(&c.to_string()),
                    "chains": complex(&c), "hom": hom})
            }
            "morse" => {
                let g = multigraph(op);
                let n = us(&op["n"]);
                let up = i64_(&op["up"]);
                let c = UdnMorseCplx::new(&g, n, if up < 0 { None } else { Some(up as usize) });
                let hom = if op["hom"].as_bool().unwrap() { simp::modules(&H!(c).to_string()) } else { json!([]) };
                json!({"g": graph_of(&c.factor_pool), "listed": listed(&c.to_string()),
                    "cells": (0..=n + 1).map(|d| c.get_cells_of_dim(d).iter().map(show).collect::<Vec<_>>()).collect::<Vec<_>>(),
                    "chains": complex(&c), "hom": hom})
            }
            "flow" => chain(&cube(&op["c"]).flow(&raw(op))),
            "faces" => chain(&cube(&op["c"]).get_boundary()),
            "ends" => json!(cube(&op["c"]).get_ends().iter().map(show).collect::<Vec<_>>()),
            "text" => json!(cube(&op["c"]).to_string()),
            x => panic!("op {}", x),
        }
    }
}

/// Edge paths: registers.
#[derive(Default)]
pub struct Paths {
    r: std::collections::BTreeMap<String, EdgePath>,
}
fn perm_of(p: &EdgePath, n: usize) -> Value {
    macro_rules! ev { ($($k:literal)*) => { match n { $($k => { let q = alg::non_commutative::permutation::VecPermutation::from(p.evaluate_permutation::<$k>()); json!((0..n).map(|i| q.eval(i)).collect::<Vec<_>>()) })* _ => panic!() } } }
    ev!(1 2 3 4 5 6)
}
impl Machine for Paths {
    fn step(&mut self, op: &Value) -> Value {
        let k = st(&op["r"]).to_string();
        let p = match st(&op["op"]) {
            "loop" => raw(op).get_edge_path(cube(&op["c"])),
            "tobase" => raw(op).get_edge_path_to_from_base_pt(cube(&op["c"]), op["to"].as_bool().unwrap()),
            "moves" => EdgePath::from(usss2(&op["steps"])),
            "trivial" => EdgePath::trivial_path(),
            "reduce" => self.r[st(&op["q"])].clone().reduce_to_geodesic(),
            "inverse" => self.r[st(&op["q"])].clone().inverse(),
            "compose" => self.r[st(&op["q"])].clone().composed_with(self.r[st(&op["p"])].clone()),
            "perm" => return perm_of(&self.r[&k], us(&op["n"])),
            x => panic!("op {}", x),
        };
        let out = json!(p.iter().cloned().collect::<Vec<_>>());
        self.r.insert(k, p);
        out
    }
}
fn usss2(v: &Value) -> Vec<Vec<[usize; 2]>> {
    arr(v).iter().map(|s| usss(s).into_iter().map(|e| [e[0], e[1]]).collect()).collect()
}

/// Factors of cubes.
#[derive(Default)]
pub struct Factors;
fn one(f: CubeFactor) -> Value {
    match f {
        CubeFactor::Vertex(v) => json!([v]),
        CubeFactor::Edge(e) => json!(e),
    }
}
impl Machine for Factors {
    fn step(&mut self, op: &Value) -> Value {
        if st(&op["op"]) == "fixed" {
            let g = match st(&op["q"]) {
                "complete" => topo_spaces::graph::graphs_for_tests::k_5_5_with_4_marked_points(),
                _ => topo_spaces::graph::graphs_for_tests::skeleton_of_cube_with_4_marked_points(),
            };
            return json!({"n": g.n_vertices(), "edges": edge_list(&g), "chosen": g.is_maximal_tree_chosen});
        }
        let mut g = raw(op);
        g.is_maximal_tree_chosen = op["chosen"].as_bool().unwrap();
        let f = || factor(&op["f"]);
        let h = || factor(&op["g"]);
        let fs = || arr(&op["fs"]).iter().map(factor).collect::<Vec<_>>();
        match st(&op["q"]) {
            "disjoint" => json!(f().is_disjoint_from(h())),
            "compare" => json!(f().partial_cmp(&h()).map_or(2, |o| o as i32)),
            "kind" => json!([f().is_edge(), f().is_vertex()]),
            "edge" => json!(f().edge()),
            "vertex" => json!(f().vertex()),
            "terminal" => one(f().terminal()),
            "initial" => one(f().initial()),
            "order" => json!(f().get_order()),
            "consecutive" => json!(f().is_order_respecting()),
            "tree" => json!(fs().into_iter().map(|e| g.maximal_tree_contains(e.edge())).collect::<Vec<_>>()),
            "intree" => json!(f().is_in_maximal_tree(&g)),
            "flow" => one(f().flow(&g)),
            "held" => json!(f().is_blocked(&fs(), &g)),
            "overtaken" => json!(f().is_disrespected_by(h(), &g)),
            "sorted" => {
                let mut c = Cube::from(fs());
                c.sort();
                show(&c)
            }
            "lists" => json!({"v": g.vertex_iter().map(one).collect::<Vec<_>>(), "e": g.edge_iter().map(one).collect::<Vec<_>>(),
                "all": g.iter().map(one).collect::<Vec<_>>()}),
            x => panic!("op {}", x),
        }
    }
}
