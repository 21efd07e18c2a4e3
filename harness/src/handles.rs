//! Replays the transitions of MCHandles (handles, tokens, locks and lifetimes).
use crate::json::J;
use crate::lts::{Edge, Lts};
use crate::util::*;
use crate::world::*;
use dendron::*;

fn pick<'a, T>(v: &'a [T], rng: &mut Rng) -> &'a T {
    &v[rng.below(v.len())]
}
fn take<T>(v: &mut Vec<T>, rng: &mut Rng) -> T {
    let i = rng.below(v.len());
    v.swap_remove(i)
}
fn any(w: &World, kind: &str, x: usize, rng: &mut Rng) -> Any {
    let r = w.rec(x);
    match kind {
        "p" => Any::P(pick(&r.p, rng).clone()),
        "h" => Any::H(pick(&r.h, rng).clone()),
        _ => Any::F(pick(&r.f, rng).clone()),
    }
}
fn ok(r: Result<(), String>) -> String {
    match r {
        Ok(()) => "ok".into(),
        Err(e) => format!("panic: {e}"),
    }
}

/// What an operation left in the caller's hands.
pub enum Made {
    Nothing,
    /// A handle of an existing node.
    Node(Any),
    /// A handle of the first of the new nodes.
    Born(Any),
    Tree(Tree<Payload>),
    Grant(G),
    Prohibition(P),
}
pub struct Done {
    pub got: String,
    /// A variant was used that reports refusals by panicking.
    pub panicking: bool,
    pub made: Made,
}

/// Executes an operation of the module Dendron with the handles there are. `val`: data of a new node.
pub fn exec(w: &mut World, op: &J, val: i64, rng: &mut Rng) -> Result<Done, String> {
    let kind = op.at(0).s();
    let a1 = op.at(1);
    let mut panicking = false;
    let mut made = Made::Nothing;
    macro_rules! out {
        ($r:expr, $c:expr) => {{
            match $r {
                Ok(h) => {
                    made = $c(h);
                    "ok".to_string()
                }
                Err(e) => format!("panic: {e}"),
            }
        }};
    }
    // Fallible requests: Ok(None) is a refusal.
    macro_rules! req {
        ($r:expr, $c:expr) => {{
            match $r {
                Ok(Some(h)) => {
                    made = $c(h);
                    "ok".to_string()
                }
                Ok(None) => "err".to_string(),
                Err(e) => format!("panic: {e}"),
            }
        }};
    }
    let got: String = match kind {
        "new" => {
            let hot = a1.s() == "h";
            let r = quiet(|| {
                let pl = Payload::new(val);
                if hot {
                    Any::H(HotNode::new_tree(pl))
                } else {
                    Any::P(Node::new_tree(pl))
                }
            });
            out!(r, Made::Born)
        }
        "edit" => {
            let sop = op.at(2);
            let x = sop.at(1).u();
            let anchor = if sop.at(0).s() == "move" { Some(pick(&w.rec(sop.at(2).u()).h, rng)) } else { None };
            let ((got, h), p) = if a1.at(0).s() == "hot" {
                let hot = pick(&w.rec(x).h, rng);
                edit(sop, Auth::Hot(hot), anchor, val, rng)
            } else {
                let t = a1.at(1).u();
                let g = if t == 0 { pick(&w.dead_g, rng) } else { pick(&w.trees[t].g, rng) };
                let n = pick(&w.rec(x).p, rng);
                edit(sop, Auth::Tok(n, g), anchor, val, rng)
            };
            panicking = p;
            made = h.map_or(Made::Nothing, Made::Born);
            got
        }
        "clone" | "cloneins" => {
            let x = op.at(2).u();
            let s = any(w, a1.s(), x, rng);
            let ((got, h), p) = if kind == "clone" {
                (clone_subtree(&s, rng.below(6)), false)
            } else {
                let hot = pick(&w.rec(op.at(3).u()).h, rng);
                clone_insert(&s, op.at(4).s(), hot, rng.below(4))
            };
            panicking = p;
            made = h.map_or(Made::Nothing, Made::Born);
            got
        }
        "dup" => out!(quiet(|| any(w, a1.s(), op.at(2).u(), rng)), Made::Node),
        "drop" => {
            let x = op.at(2).u();
            let k = a1.s().to_string();
            let r = w.rec_mut(x);
            let h = match k.as_str() {
                "p" => Any::P(take(&mut r.p, rng)),
                "h" => Any::H(take(&mut r.h, rng)),
                _ => Any::F(take(&mut r.f, rng)),
            };
            ok(quiet(move || drop(h)))
        }
        "nav" => {
            let x = op.at(2).u();
            let rel = op.at(3).s();
            let r = w.rec(x);
            macro_rules! nav {
                ($v:expr, $c:expr) => {{
                    let h = pick($v, rng);
                    match rel {
                        "parent" => h.parent(),
                        "fchild" => h.first_child(),
                        "lchild" => h.last_child(),
                        "next" => h.next_sibling(),
                        "prev" => h.prev_sibling(),
                        _ => Some(h.root()),
                    }
                    .map($c)
                }};
            }
            let k = a1.s();
            let h = quiet(|| match k {
                "p" => nav!(&r.p, Any::P),
                "h" => nav!(&r.h, Any::H),
                _ => nav!(&r.f, Any::F),
            });
            match h {
                Ok(Some(h)) => {
                    made = Made::Node(h);
                    "ok".into()
                }
                Ok(None) => "none".into(),
                Err(e) => format!("panic: {e}"),
            }
        }
        "upgrade" => {
            let x = a1.u();
            match quiet(|| w.rec(x).weak.upgrade()) {
                Ok(Some(n)) => {
                    made = Made::Node(Any::P(n));
                    "ok".into()
                }
                Ok(None) => return Err(format!("[life] weak reference of living node {x} does not upgrade")),
                Err(e) => format!("panic: {e}"),
            }
        }
        "plain" => {
            let h = any(w, a1.s(), op.at(2).u(), rng);
            out!(quiet(|| Any::P(h.to_plain())), Made::Node)
        }
        "unbundle" => {
            let x = op.at(2).u();
            let k = a1.s().to_string();
            let r = w.rec_mut(x);
            // Getting a plain handle and giving the other one up: in either order.
            let first = rng.below(3);
            let h = if k == "h" { Any::H(take(&mut r.h, rng)) } else { Any::F(take(&mut r.f, rng)) };
            let r = quiet(move || {
                if first == 2 {
                    return match h {
                        Any::H(h) => Any::P(h.into()),
                        Any::F(f) => Any::P(f.into()),
                        p => p,
                    };
                }
                let p = h.to_plain();
                if first == 1 {
                    drop(h);
                } else {
                    let q = p.clone();
                    drop(p);
                    drop(h);
                    return Any::P(q);
                }
                Any::P(p)
            });
            out!(r, Made::Node)
        }
        "bundle_new_g" | "bundle_new_p" => {
            let n = take(&mut w.rec_mut(a1.u()).p, rng);
            let g = kind == "bundle_new_g";
            let r = quiet(move || {
                if g {
                    n.bundle_new_hierarchy_edit_grant().map_err(|e| explain(&e)).ok().map(Any::H)
                } else {
                    n.bundle_new_hierarchy_edit_prohibition().map_err(|e| explain(&e)).ok().map(Any::F)
                }
            });
            req!(r, Made::Node)
        }
        "bundle_g" | "bundle_p" => {
            let t = op.at(2).u();
            let n = take(&mut w.rec_mut(a1.u()).p, rng);
            let r = if kind == "bundle_g" {
                let g = if t == 0 { pick(&w.dead_g, rng) } else { pick(&w.trees[t].g, rng) };
                quiet(move || Any::H(n.bundle_hierarchy_edit_grant(g)))
            } else {
                let g = if t == 0 { pick(&w.dead_p, rng) } else { pick(&w.trees[t].p, rng) };
                quiet(move || Any::F(n.bundle_hierarchy_edit_prohibition(g)))
            };
            out!(r, Made::Node)
        }
        "extract_g" => out!(quiet(|| pick(&w.rec(a1.u()).h, rng).extract_hierarchy_edit_grant()), Made::Grant),
        "extract_p" => out!(quiet(|| pick(&w.rec(a1.u()).f, rng).extract_hierarchy_edit_prohibition()), Made::Prohibition),
        "tree" => {
            let r = w.rec(op.at(2).u());
            let k = a1.s();
            let h = quiet(|| match k {
                "p" => pick(&r.p, rng).tree(),
                "h" => pick(&r.h, rng).tree(),
                _ => pick(&r.f, rng).tree(),
            });
            out!(h, Made::Tree)
        }
        "tree_dup" => out!(quiet(|| pick(&w.trees[a1.u()].th, rng).clone()), Made::Tree),
        "tree_drop" => {
            let h = take(&mut w.trees[a1.u()].th, rng);
            ok(quiet(move || drop(h)))
        }
        "tree_root" => out!(quiet(|| Any::P(pick(&w.trees[a1.u()].th, rng).root())), Made::Node),
        "tree_grant" => req!(quiet(|| pick(&w.trees[a1.u()].th, rng).grant_hierarchy_edit().map_err(|e| explain(&e)).ok()), Made::Grant),
        "tree_prohibit" => req!(quiet(|| pick(&w.trees[a1.u()].th, rng).prohibit_hierarchy_edit().map_err(|e| explain(&e)).ok()), Made::Prohibition),
        "tok_dup" => {
            let t = op.at(2).u();
            let style = rng.below(2);
            if a1.s() == "g" {
                let v = if t == 0 { &w.dead_g } else { &w.trees[t].g };
                let r = quiet(|| {
                    let g = pick(v, rng);
                    if style == 0 { Some(g.clone()) } else { g.try_clone().ok() }
                });
                req!(r, Made::Grant)
            } else {
                let v = if t == 0 { &w.dead_p } else { &w.trees[t].p };
                req!(quiet(|| pick(v, rng).try_clone().ok()), Made::Prohibition)
            }
        }
        "tok_drop" => {
            let t = op.at(2).u();
            if a1.s() == "g" {
                let g = take(if t == 0 { &mut w.dead_g } else { &mut w.trees[t].g }, rng);
                ok(quiet(move || drop(g)))
            } else {
                let g = take(if t == 0 { &mut w.dead_p } else { &mut w.trees[t].p }, rng);
                ok(quiet(move || drop(g)))
            }
        }
        "hollow_drop" => {
            let h = take(&mut w.hollow, rng);
            ok(quiet(move || drop(h)))
        }
        k => return Err(format!("harness: unknown operation {k}")),
    };
    Ok(Done { got, panicking, made })
}

pub fn step(w: &mut World, lts: &Lts, e: &Edge, rng: &mut Rng) -> Result<(), String> {
    let op = &e.op;
    let kind = op.at(0).s();
    let src = lts.obs[e.src].get("nodes");
    let val = w.fresh_val();
    let vals: Vec<i64> = match kind {
        "clone" | "cloneins" => src.at(op.at(2).u() - 1).get("pre").us().iter().map(|y| w.rec(*y).val).collect(),
        _ => vec![val],
    };
    let d = exec(w, op, val, rng)?;
    let tree_of = |x: usize| src.at(x - 1).get("tree").u();
    if !result_matches(&e.r, &d.got, d.panicking) {
        return Err(format!("[result] the outcome is \"{}\", specification says \"{}\"", d.got, e.r));
    }
    let mut born = false;
    match d.made {
        Made::Nothing => {}
        Made::Born(h) => {
            if e.born.is_empty() {
                return Err("harness: unexpected handle".into());
            }
            born = true;
            w.register(&e.born, &h, &vals).map_err(|e| cat("born", e))?;
            w.keep(e.born[0], h);
        }
        Made::Node(h) => {
            let y = match kind {
                "nav" => src.at(op.at(2).u() - 1).get(op.at(3).s()).u(),
                "upgrade" | "bundle_new_g" | "bundle_new_p" | "bundle_g" | "bundle_p" => op.at(1).u(),
                "tree_root" => {
                    let t = op.at(1).u();
                    (1..w.nodes.len()).find(|x| tree_of(*x) == t && src.at(x - 1).get("parent").u() == 0).expect("root")
                }
                _ => op.at(2).u(),
            };
            if y == 0 {
                return Err(format!("[nav] {op} yields a node, specification says there is none"));
            }
            let p = h.to_plain();
            let s = p.try_borrow_data().map(|d| d.serial);
            if s.unwrap_or(0) != w.rec(y).serial {
                return Err(format!("[nav] the handle returned does not denote node {y}"));
            }
            drop(p);
            w.keep(y, h);
        }
        Made::Tree(h) => {
            let t = if kind == "tree" { tree_of(op.at(2).u()) } else { op.at(1).u() };
            w.trees[t].th.push(h);
        }
        Made::Grant(g) => {
            let t = match kind {
                "extract_g" => tree_of(op.at(1).u()),
                "tok_dup" => op.at(2).u(),
                _ => op.at(1).u(),
            };
            if t == 0 { w.dead_g.push(g) } else { w.trees[t].g.push(g) }
        }
        Made::Prohibition(g) => {
            let t = match kind {
                "extract_p" => tree_of(op.at(1).u()),
                "tok_dup" => op.at(2).u(),
                _ => op.at(1).u(),
            };
            if t == 0 { w.dead_p.push(g) } else { w.trees[t].p.push(g) }
        }
    }
    if !born && !e.born.is_empty() {
        return Err("harness: no handle of the new node".into());
    }
    w.relabel(&e.order, &e.torder)
}

/// Executes a sequence of transitions from the initial state. `sparse`: observe rarely.
pub fn walk(lts: &Lts, edges: &[usize], mark: usize, rng: &mut Rng, log: &mut crate::Log) -> Result<usize, String> {
    reset_serials();
    let mut w = std::mem::ManuallyDrop::new(World::new());
    let every = [1, 2, 8][rng.below(3)];
    for (i, ei) in edges.iter().enumerate() {
        let e = &lts.edges[*ei];
        if i == mark {
            log.mark();
        }
        log.step(&e.op, &e.r);
        step(&mut w, lts, e, rng)?;
        if i + 1 == edges.len() || rng.chance(1, every) {
            let lists = i + 1 == edges.len() || rng.chance(1, 8);
            let views = rng.chance(1, 2);
            w.observe(&lts.obs[e.dst], lists, views)?;
        }
    }
    log.note("drop everything");
    std::mem::ManuallyDrop::into_inner(w).finish(rng)?;
    Ok(edges.len())
}

/// Plans walks from the initial state that together use every transition of this shard.
pub fn plan(lts: &Lts, shard: usize, nshards: usize, len: usize, rng: &mut Rng) -> Vec<Vec<usize>> {
    let init = lts.init();
    let via = lts.bfs(init);
    let mut todo: Vec<Vec<usize>> = vec![Vec::new(); lts.keys.len()];
    let mut left = 0usize;
    for (i, e) in lts.edges.iter().enumerate() {
        if crate::runner::share(i, nshards) == shard && (e.src == init || via[e.src].is_some()) {
            todo[e.src].push(i);
            left += 1;
        }
    }
    let mut plans = Vec::new();
    let mut scan = 0;
    while left > 0 {
        // Begin where something is left to do.
        while todo[scan].is_empty() {
            scan += 1;
        }
        let mut walk = lts.path(&via, scan);
        let mut s = scan;
        let mut idle = 0;
        while walk.len() < len && idle < 6 {
            let e = if let Some(i) = (!todo[s].is_empty()).then(|| rng.below(todo[s].len())) {
                idle = 0;
                left -= 1;
                todo[s].swap_remove(i)
            } else if lts.out[s].is_empty() {
                break;
            } else {
                idle += 1;
                lts.out[s][rng.below(lts.out[s].len())]
            };
            walk.push(e);
            s = lts.edges[e].dst;
        }
        plans.push(walk);
    }
    plans
}
