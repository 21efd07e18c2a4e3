//! Replays the transitions of MCStruct (every hierarchy operation on every small forest).
use crate::json::J;
use crate::lts::{Edge, Lts};
use crate::util::*;
use crate::world::*;
use dendron::serial::Event;
use dendron::*;

/// How handles are kept along a walk.
#[derive(Clone, Copy, Debug)]
pub struct Policy {
    /// Chance in 10 that a node's handle is kept.
    pub keep: usize,
    /// Hot handles may be kept (then locks are not observed).
    pub hot: bool,
    /// How the initial forest is built.
    pub mode: usize,
}

pub const MODES: usize = 6;

fn kids_of(obs: &J) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]];
    for o in obs.arr() {
        v.push(o.get("kids").us());
    }
    v
}

fn events(kids: &[Vec<usize>], x: usize, vals: &[i64], out: &mut Vec<Event<Payload>>) {
    out.push(Event::Open(Payload::new(vals[x])));
    for &k in &kids[x] {
        events(kids, k, vals, out);
    }
    out.push(Event::Close(1));
}

/// Adds the children of `x` (already built as `hs[x]`) in the way of `mode`.
fn build(kids: &[Vec<usize>], x: usize, vals: &[i64], hs: &mut Vec<Option<N>>, mode: usize, rng: &mut Rng) {
    let me = hs[x].clone().unwrap();
    let ks = &kids[x];
    match mode {
        1 => {
            let hot = me.bundle_new_hierarchy_edit_grant().expect("grant");
            for &k in ks.iter().rev() {
                hs[k] = Some(hot.create_as_first_child(Payload::new(vals[k])).plain());
            }
        }
        3 => {
            // Separate trees, complete, joined from the bottom up.
            for &k in ks {
                hs[k] = Some(Node::new_tree(Payload::new(vals[k])));
                build(kids, k, vals, hs, mode, rng);
            }
            let hot = me.bundle_new_hierarchy_edit_grant().expect("grant");
            for &k in ks {
                let c = hs[k].clone().unwrap();
                let c = c.bundle_new_hierarchy_edit_grant().expect("grant");
                c.detach_insert_subtree(InsertAs::LastChildOf(&hot));
            }
            return;
        }
        4 => {
            // A random child first, the others as its siblings.
            if !ks.is_empty() {
                let g = me.tree().grant_hierarchy_edit().expect("grant");
                let i = rng.below(ks.len());
                let first = me.create_as_first_child(&g, Payload::new(vals[ks[i]]));
                hs[ks[i]] = Some(first.clone());
                for &k in &ks[..i] {
                    hs[k] = Some(first.create_as_prev_sibling(&g, Payload::new(vals[k])));
                }
                for &k in ks[i + 1..].iter().rev() {
                    hs[k] = Some(first.create_as_next_sibling(&g, Payload::new(vals[k])));
                }
            }
        }
        5 => {
            // With the help of nodes that are dissolved or detached afterwards.
            let g = me.tree().grant_hierarchy_edit().expect("grant");
            let tmp = me.create_as_first_child(&g, Payload::new(-1));
            for &k in ks {
                hs[k] = Some(tmp.create_as_last_child(&g, Payload::new(vals[k])));
            }
            if rng.chance(1, 2) {
                let extra = me.create_as_last_child(&g, Payload::new(-2));
                extra.detach_subtree(&g);
            }
            tmp.replace_with_children(&g);
        }
        _ => {
            let g = me.tree().grant_hierarchy_edit().expect("grant");
            for &k in ks {
                hs[k] = Some(me.create_as_last_child(&g, Payload::new(vals[k])));
            }
        }
    }
    for &k in ks {
        build(kids, k, vals, hs, mode, rng);
    }
}

/// A world in the state described by `obs` (of the module Forest: an array of node observations).
pub fn materialize(obs: &J, mode: usize, rng: &mut Rng) -> Result<World, String> {
    let mut w = World::new();
    let kids = kids_of(obs);
    let n = kids.len() - 1;
    let mut vals = vec![0];
    for _ in 0..n {
        let v = w.fresh_val();
        vals.push(v);
    }
    let mut hs: Vec<Option<N>> = vec![None; n + 1];
    let r = quiet(|| {
        for x in 1..=n {
            if obs.at(x - 1).get("parent").u() != 0 {
                continue;
            }
            if mode == 2 {
                let mut ev = Vec::new();
                events(&kids, x, &vals, &mut ev);
                let root: Result<N, _> = ev.into_iter().collect();
                let root = root.map_err(|e| format!("building: {e}"))?;
                for h in preorder_handles(&root, n + 1) {
                    let v = h.borrow_data().val;
                    if let Some(i) = vals.iter().skip(1).position(|x| *x == v) {
                        hs[i + 1] = Some(h.clone());
                    }
                }
            } else {
                hs[x] = Some(Node::new_tree(Payload::new(vals[x])));
                build(&kids, x, &vals, &mut hs, mode, rng);
            }
        }
        Ok::<(), String>(())
    });
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return Err(format!("[init] {e}")),
        Err(e) => return Err(format!("[init] building the initial forest panicked: {e}")),
    }
    let mut ntrees = 0;
    for x in 1..=n {
        let Some(h) = hs[x].take() else { return Err("[init] the initial forest lacks a node".into()) };
        let serial = h.try_borrow_data().map_err(|_| "[init] data not readable")?.serial;
        w.nodes.push(Some(NodeRec { weak: h.downgrade(), serial, val: vals[x], p: vec![h], h: vec![], f: vec![] }));
        ntrees = ntrees.max(obs.at(x - 1).get("tree").u());
    }
    for _ in 0..ntrees {
        w.trees.push(TreeRec::default());
    }
    w.reindex();
    Ok(w)
}

fn tree_of(obs: &J, x: usize) -> usize {
    obs.at(x - 1).get("tree").u()
}

/// Makes sure that something will refer to each tree of the next state.
fn ensure_holders(w: &mut World, e: &Edge, dst: &J) -> Result<(), String> {
    for t in 1..=e.torder.len() {
        let old = e.torder[t - 1];
        let members: Vec<usize> = (1..=e.order.len()).filter(|i| tree_of(dst, *i) == t).map(|i| e.order[i - 1]).collect();
        let by_tree = old < w.trees.len() && !w.trees[old].th.is_empty();
        let by_node = members.iter().any(|m| e.born.first() == Some(m) || w.nodes.get(*m).and_then(Option::as_ref).is_some_and(|r| !r.p.is_empty() || !r.h.is_empty()));
        if !by_tree && !by_node {
            let m = members[members.len() - 1];
            let h = w.plain(m)?;
            w.keep(m, Any::P(h));
        }
    }
    Ok(())
}

/// Drops handles at random, but leaves one into each tree.
pub fn thin(w: &mut World, obs: &J, pol: Policy, rng: &mut Rng) -> Result<(), String> {
    let n = w.nodes.len() - 1;
    for t in 1..w.trees.len() {
        let members: Vec<usize> = (1..=n).filter(|x| tree_of(obs, *x) == t).collect();
        // The holder: a Tree handle, or a random member.
        let holder = if rng.chance(1, 3) {
            if w.trees[t].th.is_empty() {
                let tr = w.plain(members[rng.below(members.len())])?.tree();
                w.trees[t].th.push(tr);
            }
            0
        } else {
            let m = members[rng.below(members.len())];
            if w.rec(m).p.is_empty() {
                let h = w.plain(m)?;
                w.keep(m, Any::P(h));
            }
            if !rng.chance(pol.keep, 10) {
                let th = std::mem::take(&mut w.trees[t].th);
                quiet(|| drop(th)).map_err(|e| format!("[life] dropping a tree handle panicked: {e}"))?;
            }
            m
        };
        for x in members {
            if pol.hot && rng.chance(1, 6) {
                let h = w.plain(x)?;
                let h = quiet(|| h.bundle_new_hierarchy_edit_grant().ok()).ok().flatten().ok_or("[lock] cannot acquire an edit grant although nothing prohibits edits")?;
                w.keep(x, Any::H(h));
            }
            let r = w.rec_mut(x);
            let mut gone: Vec<Any> = Vec::new();
            if x != holder && !rng.chance(pol.keep, 10) {
                gone.extend(r.p.drain(..).map(Any::P));
            } else {
                while r.p.len() > 2 {
                    gone.push(Any::P(r.p.pop().unwrap()));
                }
            }
            if !pol.hot || rng.chance(1, 3) {
                gone.extend(r.h.drain(..).map(Any::H));
            }
            quiet(|| drop(gone)).map_err(|e| format!("[life] dropping a node handle panicked: {e}"))?;
        }
    }
    Ok(())
}

/// One transition of MCStruct on the real objects.
pub fn step(w: &mut World, lts: &Lts, e: &Edge, pol: Policy, rng: &mut Rng) -> Result<(), String> {
    step_with(w, &e.op, &lts.obs[e.src], &lts.obs[e.dst], e, pol, rng)
}

/// The same, of an edge of another model: `op` is the structural operation, `src` and `dst` the forests.
pub fn step_with(w: &mut World, op: &J, src: &J, dst: &J, e: &Edge, pol: Policy, rng: &mut Rng) -> Result<(), String> {
    let kind = op.at(0).s();
    if kind == "droptree" {
        let t = op.at(1).u();
        let mut gone: Vec<Any> = Vec::new();
        for x in 1..w.nodes.len() {
            if tree_of(src, x) == t {
                let r = w.rec_mut(x);
                gone.extend(r.p.drain(..).map(Any::P));
                gone.extend(r.h.drain(..).map(Any::H));
            }
        }
        let th = std::mem::take(&mut w.trees[t].th);
        let order = rng.chance(1, 2);
        quiet(move || {
            if order {
                drop(gone);
                drop(th);
            } else {
                drop(th);
                drop(gone);
            }
        })
        .map_err(|e| format!("[life] dropping the last handle of a tree panicked: {e}"))?;
        return w.relabel(&e.order, &e.torder);
    }
    ensure_holders(w, e, dst)?;
    let val = w.fresh_val();
    let mut vals = vec![val];
    let fail = |what: &str, e: String| format!("[lock] {what}: {e}");
    let hot_of = |w: &World, x: usize| -> Result<H, String> {
        if let Some(h) = w.rec(x).h.first() {
            return Ok(h.clone());
        }
        let p = w.plain(x)?;
        match quiet(|| p.bundle_new_hierarchy_edit_grant()) {
            Ok(Ok(h)) => Ok(h),
            Ok(Err(_)) => Err("[lock] edit grant refused although nothing prohibits edits".into()),
            Err(m) => Err(fail("bundling a grant panicked", m)),
        }
    };
    let any_of = |w: &World, x: usize, rng: &mut Rng| -> Result<Any, String> {
        Ok(match rng.below(3) {
            0 => Any::P(w.plain(x)?),
            1 if !pol.hot => {
                let p = w.plain(x)?;
                match quiet(|| p.bundle_new_hierarchy_edit_prohibition()) {
                    Ok(Ok(h)) => Any::F(h),
                    Ok(Err(_)) => return Err("[lock] edit prohibition refused although nothing grants edits".into()),
                    Err(m) => return Err(fail("bundling a prohibition panicked", m)),
                }
            }
            _ => Any::H(hot_of(w, x)?),
        })
    };
    let ((got, handle), panicking) = match kind {
        "new" => {
            let pl = Payload::new(val);
            let style = rng.below(2);
            let r = quiet(|| match style {
                0 => Ok(Some(Any::P(Node::new_tree(pl)))),
                _ => Ok(Some(Any::H(HotNode::new_tree(pl)))),
            });
            (caught(r), false)
        }
        "clone" | "cloneins" => {
            let x = op.at(1).u();
            vals = src.at(x - 1).get("pre").us().iter().map(|y| w.rec(*y).val).collect();
            if kind == "clone" {
                let s = any_of(w, x, rng)?;
                (clone_subtree(&s, rng.below(6)), false)
            } else {
                let a = op.at(2).u();
                let hot = hot_of(w, a)?;
                let same = tree_of(src, x) == tree_of(src, a);
                let s = match rng.below(3) {
                    0 => Any::P(w.plain(x)?),
                    1 => Any::H(hot_of(w, x)?),
                    _ if !same && !pol.hot => any_of(w, x, rng)?,
                    _ => Any::P(w.plain(x)?),
                };
                clone_insert(&s, op.at(3).s(), &hot, rng.below(4))
            }
        }
        _ => {
            let x = op.at(1).u();
            let anchor = if kind == "move" { Some(hot_of(w, op.at(2).u())?) } else { None };
            if rng.chance(1, 2) {
                let h = hot_of(w, x)?;
                edit(op, Auth::Hot(&h), anchor.as_ref(), val, rng)
            } else {
                let n = w.plain(x)?;
                let t = n.tree();
                let g = match quiet(|| t.grant_hierarchy_edit()) {
                    Ok(Ok(g)) => g,
                    Ok(Err(_)) => return Err("[lock] edit grant refused although nothing prohibits edits".into()),
                    Err(m) => return Err(fail("acquiring a grant panicked", m)),
                };
                if rng.chance(1, 2) {
                    drop(t);
                }
                edit(op, Auth::Tok(&n, &g), anchor.as_ref(), val, rng)
            }
        }
    };
    if !result_matches(&e.r, &got, panicking) {
        return Err(format!("[result] the outcome is \"{got}\", specification says \"{}\"", e.r));
    }
    if let Some(h) = handle {
        if e.born.is_empty() {
            return Err("harness: unexpected handle".into());
        }
        w.register(&e.born, &h, &vals).map_err(|e| cat("born", e))?;
        // Without hot handles about, all locks can be observed.
        let h = if pol.hot { h } else { Any::P(h.to_plain()) };
        w.keep(e.born[0], h);
    } else if !e.born.is_empty() {
        return Err("harness: no handle".into());
    }
    w.relabel(&e.order, &e.torder)
}

pub fn observe(w: &mut World, lts: &Lts, s: usize, pol: Policy, lists: bool, rng: &mut Rng) -> Result<(), String> {
    let views = !pol.hot && rng.chance(1, 2);
    if pol.hot {
        // Tokens and hot handles are about: observe without the locks.
        w.observe_nolock(&lts.obs[s], lists)
    } else {
        w.observe(&lts.obs[s], lists, views)
    }
}

/// A walk: materialize the source of the first edge, then replay. `choose` picks the next edge.
pub fn walk(
    lts: &Lts,
    start: usize,
    pol: Policy,
    rng: &mut Rng,
    log: &mut crate::Log,
    mut choose: impl FnMut(usize, usize, &mut Rng) -> Option<usize>,
) -> Result<usize, String> {
    reset_serials();
    log.note(&format!("start {} mode {} keep {}/10 hot {}", lts.keys[start], pol.mode, pol.keep, pol.hot));
    let mut w = std::mem::ManuallyDrop::new(materialize(&lts.obs[start], pol.mode, rng)?);
    observe(&mut w, lts, start, Policy { hot: false, ..pol }, true, rng).map_err(|e| format!("[init] {e}"))?;
    thin(&mut w, &lts.obs[start], pol, rng)?;
    let mut s = start;
    let mut steps = 0;
    while let Some(ei) = choose(s, steps, rng) {
        let e = &lts.edges[ei];
        log.step(&e.op, &e.r);
        steps += 1;
        step(&mut w, lts, e, pol, rng)?;
        s = e.dst;
        if rng.chance(9, 10) {
            // (Graves are judged once the handles of joined trees are gone.)
            observe(&mut w, lts, s, pol, true, rng)?;
        }
        thin(&mut w, &lts.obs[s], pol, rng)?;
        let hollow = std::mem::take(&mut w.hollow);
        quiet(move || drop(hollow)).map_err(|e| format!("[life] dropping the handle of a tree that was joined panicked: {e}"))?;
    }
    observe(&mut w, lts, s, pol, true, rng)?;
    log.note("drop everything");
    std::mem::ManuallyDrop::into_inner(w).finish(rng)?;
    Ok(steps)
}
