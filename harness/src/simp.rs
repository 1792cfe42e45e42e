use crate::{js::*, Machine};
use alg::formal_sum_impl;
use alg::lin_alg::{Matrix, Vector};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use topo_spaces::simplicial::{Simplex, SimplicialCplx, VertexLabel};
use topo_spaces::{Complex, IntegralHomology, H};

/// Vertex numbers of the specification as labels of the code and back.
pub trait Lab: VertexLabel + std::fmt::Debug {
    fn mk(v: usize) -> Self;
    fn num(&self) -> usize;
}
impl Lab for String {
    fn mk(v: usize) -> String { format!("v{}", v) }
    fn num(&self) -> usize { self[1..].parse().unwrap() }
}
impl Lab for usize {
    fn mk(v: usize) -> usize { v * 7 + 3 }
    fn num(&self) -> usize { (self - 3) / 7 }
}
pub struct Simp<T: Lab> { r: BTreeMap<String, SimplicialCplx<T>> }
impl<T: Lab> Default for Simp<T> { fn default() -> Self { Simp { r: BTreeMap::new() } } }

/// A complex of named cells with the boundary maps of the real one, so that the descriptions can be printed.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Cell(pub usize, pub usize);
impl std::fmt::Display for Cell {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "e{}_{}", self.0, self.1) }
}
formal_sum_impl! { Cell }
pub struct Named(pub Vec<Matrix<i64>>);
impl Complex for Named {
    type Cell = Cell;
    fn boundary_map(&self) -> Vec<(Matrix<i64>, Vec<Cell>)> {
        self.0.iter().enumerate().map(|(k, m)| (m.clone(), (0..m.size().1).map(|j| Cell(k, j)).collect())).collect()
    }
}
/// "Z^2 + (Z_2)^3 + Z_8" as [2, [2,2,2,8]]
fn module(s: &str) -> Value {
    if s == "0" {
        return json!([0, []]);
    }
    let (mut free, mut tors) = (0i64, Vec::<i64>::new());
    for part in s.split(" + ") {
        if part == "Z" {
            free += 1;
        } else if let Some(k) = part.strip_prefix("Z^") {
            free += k.parse::<i64>().unwrap();
        } else if let Some(d) = part.strip_prefix("Z_") {
            tors.push(d.parse().unwrap());
        } else {
            let (d, m) = part.strip_prefix("(Z_").unwrap().split_once(")^").unwrap();
            for _ in 0..m.parse::<usize>().unwrap() {
                tors.push(d.parse().unwrap());
            }
        }
    }
    json!([free, tors])
}
pub fn modules(s: &str) -> Value {
    let mut out = Vec::new();
    for (k, line) in s.lines().enumerate() {
        let rest = line.strip_prefix(&format!("dim {}: ", k)).unwrap();
        out.push(module(rest.strip_suffix(",").unwrap()));
    }
    json!(out)
}
/// "1-cycles: \n\t2·e1_3 + (-1)·e1_4, \n" as [..., [[[3,2],[4,-1]]]]
pub fn combos(s: &str, what: &str) -> Value {
    let mut out: Vec<Vec<Value>> = Vec::new();
    for line in s.lines() {
        if let Some(v) = line.strip_prefix('\t') {
            let v = v.trim_end().strip_suffix(",").unwrap();
            let mut terms = Vec::new();
            if v != "0" {
                for t in v.split(" + ") {
                    let (c, x) = match t.split_once('·') {
                        Some((c, x)) => (c.trim_matches(|ch| ch == '(' || ch == ')').parse::<i64>().unwrap(), x),
                        None => match t.strip_prefix('-') {
                            Some(x) => (-1, x),
                            None => (1, t),
                        },
                    };
                    let (k, j) = x.strip_prefix('e').unwrap().split_once('_').unwrap();
                    assert_eq!(k.parse::<usize>().unwrap(), out.len() - 1);
                    terms.push(json!([j.parse::<usize>().unwrap(), c]));
                }
            }
            out.last_mut().unwrap().push(json!(terms));
        } else {
            assert_eq!(line.trim_end(), format!("{}-{}:", out.len(), what));
            out.push(Vec::new());
        }
    }
    json!(out)
}
pub fn sparse_entries(m: &Matrix<i64>) -> Vec<(usize, usize, i64)> {
    let (n, k) = m.size();
    (0..n).flat_map(|i| (0..k).map(move |j| (i, j))).filter(|&ij| m[ij] != 0).map(|(i, j)| (i, j, m[(i, j)])).collect()
}
fn chains<T: Lab>(c: &SimplicialCplx<T>) -> Value {
    json!(c.boundary_map().iter().map(|(m, b)| json!({
        "rows": m.size().0, "cols": m.size().1, "nz": sparse_entries(m),
        "dims": b.iter().map(|s| s.dim).collect::<Vec<_>>(),
        "basis": b.iter().map(|s| s.vertices_labels.iter().map(|v| v.num()).collect::<Vec<_>>()).collect::<Vec<_>>(),
    })).collect::<Vec<_>>())
}
fn sx<T: Lab>(v: &Value) -> Simplex<T> { Simplex::from(uss(v).into_iter().map(T::mk).collect()) }

pub trait Hom: Lab { fn hom(c: &SimplicialCplx<Self>, max: i64) -> String; }
impl Hom for String {
    fn hom(c: &SimplicialCplx<String>, max: i64) -> String {
        if max < 0 { H!(*c).to_string() } else { IntegralHomology::new(c, Some(max as usize)).to_string() }
    }
}
impl Hom for usize {
    fn hom(c: &SimplicialCplx<usize>, max: i64) -> String {
        let n = Named(c.boundary_map().into_iter().map(|x| x.0).collect());
        IntegralHomology::new(&n, if max < 0 { None } else { Some(max as usize) }).to_string()
    }
}
impl<T: Hom> Machine for Simp<T> {
    fn step(&mut self, op: &Value) -> Value {
        let r = st(&op["r"]).to_string();
        match st(&op["op"]) {
            "new" => { self.r.insert(r, SimplicialCplx::new()); json!(0) }
            "zero" => { self.r.insert(r, SimplicialCplx::new_from_zero_skeleton(uss(&op["s"]).into_iter().map(T::mk).collect())); json!(0) }
            "from" => {
                let mut it = arr(&op["ss"]).iter();
                let mut c = SimplicialCplx::new_from(sx(it.next().unwrap()));
                it.for_each(|s| c.attach(sx(s)));
                self.r.insert(r, c);
                json!(0)
            }
            "attach" => { self.r.get_mut(&r).unwrap().attach(sx(&op["s"])); json!(0) }
            "chains" => chains(&self.r[&r]),
            "hom" => modules(&T::hom(&self.r[&r], i64_(&op["max"]))),
            "gens" => {
                let c = &self.r[&r];
                let n = Named(c.boundary_map().into_iter().map(|x| x.0).collect());
                let h = H!(n);
                json!({"chains": chains(c), "hom": modules(&h.to_string()),
                       "cycles": combos(&h.get_description_of_cycles(), "cycles"),
                       "bounds": combos(&h.get_description_of_boundaries(), "boundaries")})
            }
            x => panic!("{}", x),
        }
    }
    fn obs(&mut self, op: &Value) -> Value {
        let w = match op.get("watch") { Some(w) => w.as_bool().unwrap(), None => return json!(0) };
        let c = &self.r[st(&op["r"])];
        let nv = c.n_vertices();
        let d = if nv == 0 { -1 } else { c.dim() as i64 };
        let counts: Vec<usize> = if w { (0..(d + 2) as usize).map(|k| c.n_cells_of_dim(k)).collect() } else { vec![] };
        json!({"nv": nv, "dim": d, "conn": c.is_connected(), "full": w, "counts": counts,
               "labels": c.get_labeled_zero_skeleton().iter().map(|v| v.num()).collect::<Vec<_>>()})
    }
}
