use crate::{js::*, Machine};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use util::{BinaryPool, LabeledSet, TupleIterable};

#[derive(Default)]
pub struct Pools {
    r: BTreeMap<String, BinaryPool>,
}

fn view(p: &BinaryPool) -> Value {
    let has: Vec<usize> = (0..p.len()).filter(|&i| p.contains(i)).collect();
    json!({"len": p.len(), "n": p.n_elements(), "mem": p.iter().collect::<Vec<_>>(), "has": has,
           "full": p.is_full()})
}

impl Machine for Pools {
    fn step(&mut self, op: &Value) -> Value {
        let d = op["r"].as_str().unwrap_or("").to_string();
        match st(&op["op"]) {
            "new" => {
                self.r.insert(d, BinaryPool::new(us(&op["n"])));
            }
            "from" => {
                let p = BinaryPool::from(us(&op["n"]), uss(&op["xs"]));
                self.r.insert(d, p);
            }
            "add" => self.r.get_mut(&d).unwrap().add(us(&op["x"])),
            "remove" => self.r.get_mut(&d).unwrap().remove(us(&op["x"])),
            "resize" => self.r.get_mut(&d).unwrap().resize(us(&op["n"])),
            "fill" => self.r.get_mut(&d).unwrap().fill(),
            "contains" => return json!(self.r[&d].contains(us(&op["x"]))),
            "union" => {
                let p = self.r[st(&op["a"])].clone().union(self.r[st(&op["b"])].clone());
                self.r.insert(d, p);
            }
            "inter" => {
                let p = self.r[st(&op["a"])].clone().intersection(self.r[st(&op["b"])].clone());
                self.r.insert(d, p);
            }
            "copy" => {
                let p = self.r[st(&op["a"])].clone();
                self.r.insert(d, p);
            }
            "subset" => return json!(self.r[st(&op["a"])].is_subset_of(&self.r[st(&op["b"])])),
            "eq" => return json!(self.r[st(&op["a"])] == self.r[st(&op["b"])]),
            x => panic!("op {}", x),
        }
        json!(0)
    }
    fn obs(&mut self, _op: &Value) -> Value {
        Value::Object(self.r.iter().map(|(k, p)| (k.clone(), view(p))).collect())
    }
}

#[derive(Default)]
pub struct LSets {
    r: BTreeMap<String, LabeledSet<String>>,
}

impl Machine for LSets {
    fn step(&mut self, op: &Value) -> Value {
        let d = op["r"].as_str().unwrap_or("").to_string();
        match st(&op["op"]) {
            "lnew" => {
                self.r.insert(d, LabeledSet::new(arr(&op["ls"]).iter().map(|x| st(x).to_string()).collect()));
            }
            "ladd" => self.r.get_mut(&d).unwrap().add(st(&op["x"]).to_string()),
            "lremove" => self.r.get_mut(&d).unwrap().remove(st(&op["x"]).to_string()),
            "lcopy" => {
                let p = self.r[st(&op["a"])].clone();
                self.r.insert(d, p);
            }
            "leq" => return json!(self.r[st(&op["a"])] == self.r[st(&op["b"])]),
            x => panic!("op {}", x),
        }
        json!(0)
    }
    fn obs(&mut self, _op: &Value) -> Value {
        Value::Object(
            self.r
                .iter()
                .map(|(k, p)| {
                    let it: Vec<String> = p.iter().cloned().collect();
                    (k.clone(), json!({"n": p.n_elements(), "mem": it, "str": format!("{}", p)}))
                })
                .collect(),
        )
    }
}

#[derive(Default)]
pub struct Tuples {
    it: Option<util::TupleIterator<'static, i64>>,
}
impl Machine for Tuples {
    fn step(&mut self, op: &Value) -> Value {
        match st(&op["op"]) {
            "tnew" => {
                let v: &'static mut Vec<i64> = Box::leak(Box::new(i64s(&op["xs"])));
                self.it = Some(v.tuple_iter(us(&op["k"])));
                json!(0)
            }
            "tnext" => match self.it.as_mut().unwrap().next() {
                Some(t) => json!({"some": true, "t": t.into_iter().cloned().collect::<Vec<i64>>()}),
                None => json!({"some": false, "t": []}),
            },
            // the rest of the enumeration, up to a cap
            "trest" => {
                let cap = us(&op["cap"]);
                let out: Vec<Vec<i64>> = self.it.as_mut().unwrap().take(cap)
                    .map(|t| t.into_iter().cloned().collect()).collect();
                json!(out)
            }
            x => panic!("op {}", x),
        }
    }
}
