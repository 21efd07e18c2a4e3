//! Replays MCData: data borrowed and written next to hierarchy operations, and failing copies.
use crate::json::J;
use crate::lts::{Edge, Lts};
use crate::strct::{self, Policy};
use crate::util::*;
use crate::world::*;
use crate::Log;
use std::cell::{Ref, RefMut};

pub enum Br {
    R(Ref<'static, Payload>),
    W(RefMut<'static, Payload>),
}
/// A borrow together with the handle it came from.
pub struct Held {
    // Dropped before the handle it borrows from.
    pub br: Br,
    #[allow(dead_code)]
    pub handle: Box<Any>,
    pub serial: u64,
}

/// Takes a borrow; Ok(None) if it is refused.
pub fn take(h: Any, serial: u64, write: bool, panicking: bool) -> Result<Option<Held>, String> {
    let handle = Box::new(h);
    // The borrow is released before the boxed handle is.
    let r: &'static Any = unsafe { &*std::ptr::addr_of!(*handle) };
    macro_rules! go {
        ($n:expr) => {
            match (write, panicking) {
                (false, false) => $n.try_borrow_data().ok().map(Br::R),
                (false, true) => quiet(|| $n.borrow_data()).ok().map(Br::R),
                (true, false) => $n.try_borrow_data_mut().ok().map(Br::W),
                (true, true) => quiet(|| $n.borrow_data_mut()).ok().map(Br::W),
            }
        };
    }
    let br = match r {
        Any::P(n) => go!(n),
        Any::H(n) => go!(n),
        Any::F(n) => go!(n),
    };
    Ok(br.map(|br| Held { br, handle, serial }))
}

fn step(w: &mut World, held: &mut Vec<Held>, e: &Edge, src: &J, dst: &J, pol: Policy, rng: &mut Rng) -> Result<(), String> {
    let kind = e.op.at(0).s();
    match kind {
        "read" | "write" => {
            let x = e.op.at(1).u();
            let n = w.plain(x)?;
            let serial = w.rec(x).serial;
            let h = if pol.hot && rng.chance(1, 2) {
                Any::H(n.bundle_new_hierarchy_edit_grant().map_err(|_| "[lock] edit grant refused although nothing prohibits edits")?)
            } else if e.r == "busy" && !pol.hot && rng.chance(1, 3) {
                Any::F(n.bundle_new_hierarchy_edit_prohibition().map_err(|_| "[lock] edit prohibition refused although nothing grants edits")?)
            } else {
                Any::P(n)
            };
            let got = take(h, serial, kind == "write", rng.chance(1, 2)).map_err(|m| format!("[data] {m}"))?;
            if got.is_some() != (e.r == "ok") {
                return Err(format!("[data] {kind} access to node {x} {}, specification says {}", if got.is_some() { "succeeds" } else { "fails" }, e.r));
            }
            if let Some(mut g) = got {
                let d = match &mut g.br {
                    Br::R(d) => &**d,
                    Br::W(d) => {
                        let new = w.fresh_val();
                        if d.val != w.rec(x).val {
                            return Err(format!("[data] node {x} carries {}, expected {}", d.val, w.rec(x).val));
                        }
                        d.val = new;
                        w.rec_mut(x).val = new;
                        &**d
                    }
                };
                if d.serial != serial || d.val != w.rec(x).val {
                    return Err(format!("[data] access to node {x} yields #{}={}", d.serial, d.val));
                }
                held.push(g);
            }
        }
        "unread" | "unwrite" => {
            let x = e.op.at(1).u();
            let serial = w.rec(x).serial;
            let mine: Vec<usize> = (0..held.len()).filter(|i| held[*i].serial == serial).collect();
            let mut g = held.swap_remove(mine[rng.below(mine.len())]);
            let val = w.rec(x).val;
            match &mut g.br {
                Br::R(d) if d.val != val => return Err(format!("[data] data of node {x} changed to {} while borrowed", d.val)),
                Br::W(d) if d.val != val => return Err(format!("[data] data of node {x} changed to {} while borrowed", d.val)),
                Br::W(d) if rng.chance(1, 2) => {
                    let new = w.fresh_val();
                    d.val = new;
                    w.rec_mut(x).val = new;
                }
                _ => {}
            }
            quiet(move || drop(g)).map_err(|m| format!("[data] releasing a borrow panicked: {m}"))?;
        }
        "fault" => {
            set_fuse(e.op.at(2).n() - 1);
            let r = strct::step_with(w, e.op.at(1), src.get("nodes"), dst.get("nodes"), e, pol, rng);
            set_fuse(-1);
            return r;
        }
        _ => {
            if kind == "droptree" {
                // (The borrows of other trees stay.)
            }
            return strct::step_with(w, &e.op, src.get("nodes"), dst.get("nodes"), e, pol, rng);
        }
    }
    w.relabel(&e.order, &e.torder)
}

fn observe(w: &mut World, held: &[Held], obs: &J, pol: Policy, rng: &mut Rng) -> Result<(), String> {
    w.borrowed.clear();
    for g in held {
        match g.br {
            Br::R(_) => *w.borrowed.entry(g.serial).or_default() += 1,
            Br::W(_) => {
                w.borrowed.insert(g.serial, -1);
            }
        }
    }
    for (i, b) in obs.get("b").arr().iter().enumerate() {
        let s = w.rec(i + 1).serial;
        if w.borrowed.get(&s).copied().unwrap_or(0) != b.n() {
            return Err("harness: borrows out of step".into());
        }
    }
    let nodes = obs.get("nodes");
    if pol.hot {
        w.observe_nolock(nodes, true)
    } else {
        w.observe(nodes, true, rng.chance(1, 2))
    }
}

pub fn walk(lts: &Lts, start: usize, pol: Policy, rng: &mut Rng, log: &mut Log, mut choose: impl FnMut(usize, usize, &mut Rng) -> Option<usize>) -> Result<usize, String> {
    reset_serials();
    set_fuse(-1);
    log.note(&format!("start {} mode {} keep {}/10 hot {}", lts.keys[start], pol.mode, pol.keep, pol.hot));
    let obs = &lts.obs[start];
    let mut w = std::mem::ManuallyDrop::new(strct::materialize(obs.get("nodes"), pol.mode, rng)?);
    let mut held = std::mem::ManuallyDrop::new(Vec::<Held>::new());
    // The borrows of the first state.
    for (i, b) in obs.get("b").arr().iter().enumerate() {
        for _ in 0..b.n().abs() {
            let n = w.plain(i + 1)?;
            let serial = w.rec(i + 1).serial;
            let g = take(Any::P(n), serial, b.n() < 0, false)?.ok_or_else(|| format!("[data] data of node {} cannot be borrowed", i + 1))?;
            held.push(g);
        }
    }
    observe(&mut w, &held, obs, Policy { hot: false, ..pol }, rng).map_err(|e| cat("init", e))?;
    strct::thin(&mut w, obs.get("nodes"), pol, rng)?;
    let mut s = start;
    let mut steps = 0;
    while let Some(ei) = choose(s, steps, rng) {
        let e = &lts.edges[ei];
        log.step(&e.op, &e.r);
        steps += 1;
        step(&mut w, &mut held, e, &lts.obs[e.src], &lts.obs[e.dst], pol, rng)?;
        s = e.dst;
        observe(&mut w, &held, &lts.obs[s], pol, rng)?;
        strct::thin(&mut w, lts.obs[s].get("nodes"), pol, rng)?;
        let hollow = std::mem::take(&mut w.hollow);
        quiet(move || drop(hollow)).map_err(|e| format!("[life] dropping the handle of a tree that was joined panicked: {e}"))?;
    }
    log.note("drop everything");
    // Some borrows outlive all other handles.
    let held = std::mem::ManuallyDrop::into_inner(held);
    quiet(move || drop(held)).map_err(|e| format!("[life] releasing borrows panicked: {e}"))?;
    w.borrowed.clear();
    std::mem::ManuallyDrop::into_inner(w).finish(rng)?;
    Ok(steps)
}
