//! Labelled transition systems printed by TLC: state lines (k = "S") and
//! transition lines (k = "E").
use crate::json::{unquote_tla, J};
use std::collections::HashMap;
use std::io::{BufRead, BufReader};

pub struct Edge {
    pub src: usize,
    pub dst: usize,
    pub op: J,
    pub r: String,
    pub born: Vec<usize>,
    pub order: Vec<usize>,
    pub torder: Vec<usize>,
    pub extra: J,
}

#[derive(Default)]
pub struct Lts {
    pub keys: Vec<String>,
    pub index: HashMap<String, usize>,
    pub obs: Vec<J>,
    pub edges: Vec<Edge>,
    pub out: Vec<Vec<usize>>,
    pub other: Vec<J>,
}

impl Lts {
    pub fn id(&mut self, key: &str) -> usize {
        if let Some(i) = self.index.get(key) {
            return *i;
        }
        let i = self.keys.len();
        self.keys.push(key.to_string());
        self.index.insert(key.to_string(), i);
        self.obs.push(J::Null);
        self.out.push(Vec::new());
        i
    }
    pub fn load(path: &str) -> Result<Lts, String> {
        let f = std::fs::File::open(path).map_err(|e| format!("{path}: {e}"))?;
        let mut l = Lts::default();
        for line in BufReader::new(f).lines() {
            let line = line.map_err(|e| e.to_string())?;
            if !line.starts_with("\"{") {
                continue;
            }
            let text = unquote_tla(&line).ok_or_else(|| format!("bad line {line}"))?;
            let v = J::parse(&text).map_err(|e| format!("{e}: {text}"))?;
            match v.get("k").s() {
                "S" => {
                    let i = l.id(v.get("key").s());
                    if l.obs[i].is_null() {
                        l.obs[i] = v.get("obs").clone();
                    }
                }
                "E" => {
                    let src = l.id(v.get("src").s());
                    let dst = l.id(v.get("dst").s());
                    let us = |k: &str| -> Vec<usize> {
                        if v.get(k).is_null() {
                            Vec::new()
                        } else {
                            v.get(k).us()
                        }
                    };
                    let e = Edge {
                        src,
                        dst,
                        op: v.get("op").clone(),
                        r: if let J::Str(s) = v.get("r") { s.clone() } else { v.get("r").to_string() },
                        born: us("born"),
                        order: us("order"),
                        torder: us("torder"),
                        extra: v.get("x").clone(),
                    };
                    l.out[src].push(l.edges.len());
                    l.edges.push(e);
                }
                _ => l.other.push(v),
            }
        }
        // Workers print in a nondeterministic order; make everything downstream deterministic.
        let mut perm: Vec<usize> = (0..l.keys.len()).collect();
        perm.sort_by(|a, b| l.keys[*a].cmp(&l.keys[*b]));
        let mut newid = vec![0; perm.len()];
        for (n, o) in perm.iter().enumerate() {
            newid[*o] = n;
        }
        let mut sorted = Lts::default();
        for o in &perm {
            sorted.index.insert(l.keys[*o].clone(), sorted.keys.len());
            sorted.keys.push(std::mem::take(&mut l.keys[*o]));
            sorted.obs.push(std::mem::replace(&mut l.obs[*o], J::Null));
            sorted.out.push(Vec::new());
        }
        let mut edges: Vec<(String, Edge)> = l
            .edges
            .into_iter()
            .map(|mut e| {
                e.src = newid[e.src];
                e.dst = newid[e.dst];
                (e.op.to_string(), e)
            })
            .collect();
        edges.sort_by(|a, b| (a.1.src, &a.0).cmp(&(b.1.src, &b.0)));
        for (_, e) in edges {
            sorted.out[e.src].push(sorted.edges.len());
            sorted.edges.push(e);
        }
        let mut other: Vec<(String, J)> = l.other.into_iter().map(|j| (j.to_string(), j)).collect();
        other.sort_by(|a, b| a.0.cmp(&b.0));
        sorted.other = other.into_iter().map(|x| x.1).collect();
        Ok(sorted)
    }
    /// Breadth-first tree of edges from a state: for each state, the edge that first reaches it.
    pub fn bfs(&self, start: usize) -> Vec<Option<usize>> {
        let mut via = vec![None; self.keys.len()];
        let mut seen = vec![false; self.keys.len()];
        seen[start] = true;
        let mut q = std::collections::VecDeque::from([start]);
        while let Some(s) = q.pop_front() {
            for &e in &self.out[s] {
                let d = self.edges[e].dst;
                if !seen[d] {
                    seen[d] = true;
                    via[d] = Some(e);
                    q.push_back(d);
                }
            }
        }
        via
    }
    /// The state without nodes and handles.
    pub fn init(&self) -> usize {
        (0..self.keys.len()).min_by_key(|i| (self.keys[*i].len(), self.keys[*i].clone())).expect("states")
    }
    pub fn path(&self, via: &[Option<usize>], mut s: usize) -> Vec<usize> {
        let mut p = Vec::new();
        while let Some(e) = via[s] {
            p.push(e);
            s = self.edges[e].src;
        }
        p.reverse();
        p
    }
}
