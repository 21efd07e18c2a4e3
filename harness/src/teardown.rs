//! Replays MCTeardown: trees taken down while destructors use other trees, and panic.
use crate::lts::Lts;
use crate::strct::{self, Policy};
use crate::util::*;
use crate::world::*;
use crate::Log;
use dendron::NodeWeak;
use std::rc::Rc;

struct Dying {
    weak: NodeWeak<Payload>,
    serial: u64,
    dropped: bool,
}

struct Machine<'a> {
    lts: &'a Lts,
    s: usize,
    w: World,
    frames: Vec<Vec<Dying>>,
    rng: Rng,
    log: &'a mut Log,
    err: Option<String>,
    fuel: usize,
    steps: usize,
    pol: Policy,
    in_op: bool,
    /// Destructors may panic.
    frail: bool,
}

impl Machine<'_> {
    fn find(&self, tag: &str, arg: usize) -> Option<usize> {
        self.lts.out[self.s].iter().copied().find(|e| {
            let op = &self.lts.edges[*e].op;
            op.at(0).s() == tag && (tag == "done" || op.at(1).u() == arg)
        })
    }
    fn observe(&mut self) -> Result<(), String> {
        let obs = &self.lts.obs[self.s];
        let nodes = obs.get("nodes");
        if self.pol.hot {
            self.w.observe_nolock(nodes, true)?;
        } else {
            let views = self.rng.chance(1, 2);
            self.w.observe(nodes, true, views)?;
        }
        for (d, f) in self.frames.iter().enumerate() {
            let left = obs.get("st").at(d).us();
            for (i, n) in f.iter().enumerate() {
                if n.dropped == left.contains(&(i + 1)) {
                    return Err("harness: teardown out of step".into());
                }
                if drops_of(n.serial) != u32::from(n.dropped) {
                    return Err(format!("[life] data #{} was dropped {} times", n.serial, drops_of(n.serial)));
                }
                match quiet(|| n.weak.upgrade().is_some()) {
                    Ok(false) => {}
                    Ok(true) => return Err(format!("[life] weak reference to a node (data #{}) of a tree that is being dropped upgrades", n.serial)),
                    Err(m) => return Err(format!("[life] upgrading a weak reference to a node of a tree that is being dropped panicked: {m}")),
                }
            }
        }
        Ok(())
    }
}

/// All functions take a pointer, since drops call back into the machine.
unsafe fn exec(m: *mut Machine<'_>, ei: usize) -> Result<(), String> {
    let lts = (*m).lts;
    let e = &lts.edges[ei];
    (*m).log.step(&e.op, &e.r);
    (*m).steps += 1;
    let (src, dst) = (lts.obs[e.src].get("nodes"), lts.obs[e.dst].get("nodes"));
    if e.op.at(0).s() == "droptree" {
        let t = e.op.at(1).u();
        let mut gone: Vec<Any> = Vec::new();
        let mut frame = Vec::new();
        let w = &mut (*m).w;
        for x in 1..w.nodes.len() {
            if src.at(x - 1).get("tree").u() == t {
                let r = w.nodes[x].take().expect("record");
                gone.extend(r.p.into_iter().map(Any::P));
                gone.extend(r.h.into_iter().map(Any::H));
                frame.push(Dying { weak: r.weak, serial: r.serial, dropped: false });
            }
        }
        let th = std::mem::take(&mut w.trees[t].th);
        w.relabel(&e.order, &e.torder)?;
        (*m).frames.push(frame);
        (*m).s = e.dst;
        let first = (*m).rng.chance(1, 2);
        let depth = (*m).frames.len();
        let end = quiet(move || {
            if first {
                drop(gone);
                drop(th);
            } else {
                drop(th);
                drop(gone);
            }
        });
        if let Some(e) = (*m).err.take() {
            return Err(e);
        }
        if (*m).frames.len() != depth {
            return Err("harness: frames out of step".into());
        }
        let Some(done) = (*m).find("done", 0) else {
            return Err("[life] the last handle of a tree is gone, but not all data have been dropped".into());
        };
        match (end, lts.edges[done].r == "panic") {
            (Ok(()), false) => {}
            (Ok(()), true) => return Err("[life] the panic of a destructor is lost".into()),
            (Err(_), true) => {}
            (Err(m), false) => return Err(format!("[life] dropping the last handle of a tree panicked: {m}")),
        }
        (*m).s = lts.edges[done].dst;
        let f = (*m).frames.pop().expect("frame");
        (*m).w.graves.extend(f.into_iter().map(|n| (n.weak, n.serial)));
    } else {
        let pol = (*m).pol;
        // (Operations with clones of the random numbers: the hook uses them, too.)
        let mut rng = Rng::new((*m).rng.next());
        (*m).in_op = true;
        let r = strct::step_with(&mut (*m).w, &e.op, src, dst, e, pol, &mut rng);
        (*m).in_op = false;
        r?;
        (*m).s = e.dst;
    }
    if let Some(e) = (*m).err.take() {
        return Err(e);
    }
    (*m).observe()?;
    let pol = (*m).pol;
    let mut rng = Rng::new((*m).rng.next());
    let s = (*m).s;
    strct::thin(&mut (*m).w, lts.obs[s].get("nodes"), pol, &mut rng)?;
    let hollow = std::mem::take(&mut (*m).w.hollow);
    quiet(move || drop(hollow)).map_err(|e| format!("[life] dropping the handle of a tree that was joined panicked: {e}"))?;
    if let Some(e) = (*m).err.take() {
        return Err(e);
    }
    Ok(())
}

unsafe fn user(m: *mut Machine<'_>, first: bool) -> Result<(), String> {
    let lts = (*m).lts;
    for _ in 0..8 {
        let o = &lts.out[(*m).s];
        let mine: Vec<usize> = o.iter().copied().filter(|e| lts.edges[*e].extra.s() == "user").collect();
        if mine.is_empty() {
            return Ok(());
        }
        let drops: Vec<usize> = mine.iter().copied().filter(|e| lts.edges[*e].op.at(0).s() == "droptree").collect();
        let e = if !drops.is_empty() && (*m).rng.chance(if first { 2 } else { 1 }, 3) {
            drops[(*m).rng.below(drops.len())]
        } else {
            mine[(*m).rng.below(mine.len())]
        };
        if lts.edges[e].r != "ok" && (*m).rng.chance(2, 3) {
            continue;
        }
        return exec(m, e);
    }
    Ok(())
}

/// Whether the destructor is to panic.
unsafe fn on_data(m: *mut Machine<'_>, serial: u64) -> Result<bool, String> {
    if (*m).frames.iter().flatten().all(|n| n.serial != serial) {
        // Data of an operation that was refused, for instance.
        if (*m).w.nodes.iter().flatten().any(|r| r.serial == serial) {
            return Err(format!("[life] data #{serial} of a living node is being dropped"));
        }
        return Ok(false);
    }
    let Some(i) = (*m).frames.last().and_then(|f| f.iter().position(|n| n.serial == serial)) else {
        return Err(format!("[life] data #{serial} of another tree is being dropped"));
    };
    let Some(mut e) = (*m).find("data", i + 1) else {
        return Err(format!("[life] data #{serial} is being dropped again"));
    };
    let burst = if (*m).frail && (*m).rng.chance(1, 4) { (*m).find("burst", i + 1) } else { None };
    e = burst.unwrap_or(e);
    let lts = (*m).lts;
    let e = &lts.edges[e];
    (*m).log.step(&e.op, &e.r);
    (*m).steps += 1;
    (*m).s = e.dst;
    (*m).frames.last_mut().expect("frame")[i].dropped = true;
    if (*m).in_op {
        return Err(format!("[life] data #{serial} is being dropped during an edit"));
    }
    (*m).observe()?;
    while (*m).fuel > 0 && (*m).rng.chance(1, 2) {
        (*m).fuel -= 1;
        user(m, false)?;
    }
    Ok(burst.is_some())
}

pub fn walk(lts: &Lts, start: usize, first: Option<usize>, len: usize, pol: Policy, rng: &mut Rng, log: &mut Log) -> Result<usize, String> {
    reset_serials();
    set_on_drop(None);
    log.note(&format!("start {} mode {} keep {}/10 hot {}", lts.keys[start], pol.mode, pol.keep, pol.hot));
    let nodes = lts.obs[start].get("nodes");
    let mut w = std::mem::ManuallyDrop::new(strct::materialize(nodes, pol.mode, rng)?);
    strct::thin(&mut w, nodes, pol, rng)?;
    let mut m = std::mem::ManuallyDrop::new(Box::new(Machine {
        lts,
        s: start,
        w: std::mem::ManuallyDrop::into_inner(w),
        frames: Vec::new(),
        rng: Rng::new(rng.next()),
        log,
        err: None,
        fuel: 2 + rng.below(6),
        steps: 0,
        pol,
        in_op: false,
        frail: rng.chance(1, 2),
    }));
    let p: *mut Machine<'_> = &mut **m;
    let addr = p as usize;
    let hook = Rc::new(move |serial: u64| {
        let p = addr as *mut Machine<'static>;
        unsafe {
            if (*p).err.is_some() {
                return;
            }
            let r = match quiet(|| on_data(p, serial)) {
                Ok(r) => r,
                Err(m) => Err(format!("[panic] {m}")),
            };
            match r {
                Ok(burst) => assert!(!burst, "injected failure in a destructor"),
                Err(e) if (*p).err.is_none() => (*p).err = Some(e),
                Err(_) => {}
            }
        }
    });
    set_on_drop(Some(hook));
    let r = quiet(|| unsafe {
        (*p).observe().map_err(|e| cat("init", e))?;
        if let Some(e) = first {
            exec(p, e)?;
        }
        for _ in 0..len {
            user(p, true)?;
        }
        Ok::<(), String>(())
    });
    set_on_drop(None);
    match r {
        Ok(r) => r?,
        Err(m) => return Err(format!("[panic] {m}")),
    }
    let m = *std::mem::ManuallyDrop::into_inner(m);
    let steps = m.steps;
    m.log.note("drop everything");
    m.w.finish(rng)?;
    Ok(steps)
}
