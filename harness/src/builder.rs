//! Replays MCBuilder: building trees from events, and serializing them.
use crate::json::J;
use crate::literals::LITERALS;
use crate::lts::Lts;
use crate::strct;
use crate::util::*;
use crate::world::*;
use crate::Log;
use dendron::serial::{Event, TreeBuildError, TreeBuilder};
use dendron::traverse::DftEvent;
use dendron::*;

const HUGE: i64 = 1_000_000;

fn err(e: &TreeBuildError) -> &'static str {
    explain(e);
    #[cfg(feature = "std")]
    if caused_by_borrow(e) != matches!(e, TreeBuildError::BorrowData(_)) {
        return "an error with a wrong source";
    }
    match e {
        TreeBuildError::RootNotOpened => "notopened",
        TreeBuildError::RootClosed => "closed",
        TreeBuildError::BorrowData(_) => "borrow",
    }
}
pub fn outcome<T>(r: &Result<T, TreeBuildError>) -> &'static str {
    match r {
        Ok(_) => "ok",
        Err(e) => err(e),
    }
}

/// Shape (parent of each node, by preorder position) and data of the subtree of a node, going
/// down only.
pub fn shape(n: &N, limit: usize) -> Result<(Vec<usize>, Vec<i64>), String> {
    let mut par = vec![0];
    let mut hs = vec![n.clone()];
    fn go(n: &N, me: usize, par: &mut Vec<usize>, hs: &mut Vec<N>, limit: usize) -> Result<(), String> {
        let mut c = n.first_child();
        let mut prev: Option<N> = None;
        while let Some(x) = c {
            if hs.len() > limit {
                return Err("more nodes than expected".into());
            }
            if !x.parent().is_some_and(|p| p.ptr_eq(n)) || x.prev_sibling().map(|p| prev.as_ref().is_some_and(|q| q.ptr_eq(&p))) != prev.as_ref().map(|_| true) {
                return Err("inconsistent links".into());
            }
            par.push(me);
            hs.push(x.clone());
            let i = hs.len();
            go(&x, i, par, hs, limit)?;
            c = x.next_sibling();
            prev = Some(x);
        }
        if !(match (n.last_child(), &prev) {
            (None, None) => true,
            (Some(a), Some(b)) => a.ptr_eq(b),
            _ => false,
        }) {
            return Err("inconsistent last child".into());
        }
        Ok(())
    }
    go(n, 1, &mut par, &mut hs, limit)?;
    let vals = hs.iter().map(|h| h.try_borrow_data().map(|d| d.val).map_err(|_| "data not readable".to_string())).collect::<Result<_, _>>()?;
    Ok((par, vals))
}
fn check_shape(what: &str, n: &N, par: &[usize], vals: &[i64]) -> Result<(), String> {
    let (p, v) = shape(n, par.len() + 3).map_err(|e| format!("[build] {what}: {e}"))?;
    if p != par || v != vals {
        return Err(format!("[build] {what}: built {p:?} with data {v:?}, specification says {par:?} with {vals:?}"));
    }
    if !n.is_root() || n.next_sibling().is_some() || n.prev_sibling().is_some() || !n.tree().root().ptr_eq(n) {
        return Err(format!("[build] {what}: the result is not the root of its tree"));
    }
    Ok(())
}

/// Feeds one event, in one of the ways there are.
/// `close` is the number of levels to be closed; if `None`, a node is opened.
pub fn feed(b: &mut TreeBuilder<Payload>, close: Option<usize>, val: i64, rng: &mut Rng) -> Result<(), TreeBuildError> {
    let Some(k) = close else {
        return match rng.below(5) {
            0 => b.push_event(Event::Open(val).map(Payload::new)),
            1 => b.push_events([Event::Open(Payload::new(val))]),
            2 => b.push_dft_event(DftEvent::Open(Node::new_tree(Payload::new(val)))),
            3 => {
                // Only that very node is opened, whatever is below it.
                let src = Node::new_tree(Payload::new(val));
                let g = src.tree().grant_hierarchy_edit().expect("grant");
                src.create_as_last_child(&g, Payload::new(-val));
                b.push_dft_events([DftEvent::Open(src)])
            }
            _ => b.open(Payload::new(val)),
        };
    };
    match rng.below(4) {
        0 => b.push_event(Event::Close(k).map(Payload::new)),
        1 => b.push_events([Event::Close(k)]),
        2 if k == 1 => b.push_dft_event(DftEvent::Close(Node::new_tree(Payload::new(-7)))),
        3 if k <= 3 => b.push_dft_events((0..k).map(|_| DftEvent::Close(Node::new_tree(Payload::new(-7))))),
        _ => b.close(k),
    }
}
/// The number of levels an operation closes, if it does.
pub fn levels(op: &J, rng: &mut Rng) -> Option<usize> {
    match op.at(0).s() {
        "open" => None,
        _ => Some(match op.at(1).n() {
            HUGE => if rng.chance(1, 4) { usize::MAX } else { big() },
            k => k as usize,
        }),
    }
}

/// Feeds events to a builder. `choose` picks the next edge.
pub fn walk(lts: &Lts, start: usize, rng: &mut Rng, log: &mut Log, mut choose: impl FnMut(usize, usize, &mut Rng) -> Option<usize>) -> Result<usize, String> {
    reset_serials();
    let obs = &lts.obs[start];
    log.tag("build", &format!("start {}", lts.keys[start]));
    let fresh = obs.get("root").u() == 0;
    let mut vals: Vec<i64> = vec![0];
    let w = if fresh { World::new() } else { strct::materialize(obs.get("nodes"), rng.below(strct::MODES), rng)? };
    let mut w = std::mem::ManuallyDrop::new(w);
    let mut b = if fresh {
        TreeBuilder::new()
    } else {
        let x = obs.get("root").u();
        let n = w.plain(x)?;
        let h = if rng.chance(1, 2) {
            n.bundle_new_hierarchy_edit_grant().map_err(|_| "[lock] grant refused")?
        } else {
            let g = n.tree().grant_hierarchy_edit().map_err(|_| "[lock] grant refused")?;
            n.bundle_hierarchy_edit_grant(&g)
        };
        TreeBuilder::with_root(h)
    };
    let mut s = start;
    let mut steps = 0;
    let mut nextval = 1000;
    let mut failed = false;
    while let Some(ei) = choose(s, steps, rng) {
        let e = &lts.edges[ei];
        let (src, dst) = (&lts.obs[e.src], &lts.obs[e.dst]);
        steps += 1;
        nextval += 1;
        log.note(&format!("{} -> {}", e.op, e.r));
        let r = quiet(|| feed(&mut b, levels(&e.op, rng), nextval, rng)).map_err(|m| format!("[build] {} panicked: {m}", e.op))?;
        let got = outcome(&r);
        if got != e.r {
            return Err(format!("[build] {} gives \"{got}\", specification says \"{}\"", e.op, e.r));
        }
        let kinds = (b.is_root_available(), b.is_root_closed());
        let open = src.get("cur").u() != 0;
        if e.r == "closed" && open {
            // Where the builder stands after closing too much is not promised, but it must stay
            // within its subtree.
            failed = true;
            break;
        }
        let want = (dst.get("root").u() != 0, dst.get("root").u() != 0 && dst.get("cur").u() == 0);
        if kinds != want {
            return Err(format!("[build] (is_root_available, is_root_closed) is {kinds:?}, specification says {want:?}"));
        }
        if fresh {
            if !e.born.is_empty() {
                vals.push(nextval);
            }
            vals = std::iter::once(0).chain(e.order.iter().map(|o| vals[*o])).collect();
        } else {
            if !e.born.is_empty() {
                let h = w.plain(src.get("cur").u())?.last_child().ok_or("[build] the opened node is not there")?;
                w.register(&e.born, &Any::P(h), &[nextval]).map_err(|e| format!("[build] {e}"))?;
            }
            w.relabel(&e.order, &e.torder)?;
            w.observe_nolock(dst, true).map_err(|e| format!("[build] {e}"))?;
        }
        s = e.dst;
    }
    let dst = &lts.obs[s];
    let nodes = dst.get("nodes");
    if failed {
        let root = dst.get("root").u();
        for _ in 0..rng.below(8) {
            nextval += 1;
            let _ = quiet(|| if rng.chance(1, 2) { b.open(Payload::new(nextval)) } else { b.close(rng.below(3)) }).map_err(|m| format!("[build] the builder panicked: {m}"))?;
            if !b.is_root_available() {
                return Err("[build] the root is not available any more".into());
            }
        }
        if !fresh {
            // Outside of the subtree, and of what was there before, nothing has changed.
            let inside: Vec<usize> = nodes.at(root - 1).get("pre").us();
            for x in 1..=nodes.arr().len() {
                let o = nodes.at(x - 1);
                let n = w.plain(x)?;
                if !inside.contains(&x) {
                    w.obs_plain(&n, x, o, false).map_err(|e| format!("[build] outside of the subtree: {e}"))?;
                } else {
                    let p = n.parent().map_or(0, |p| w.label(&p));
                    if p != o.get("parent").u() {
                        return Err(format!("[build] node {x} has moved"));
                    }
                    let old = o.get("kids").us();
                    let kids: Vec<usize> = n.children().take(old.len()).map(|k| w.label(&k)).collect();
                    if kids != old {
                        return Err(format!("[build] the children of node {x} have changed from {old:?} to {kids:?}"));
                    }
                }
            }
        }
    }
    let optional = rng.chance(1, 2);
    let r = if optional { b.finish_opt().ok_or("notopened") } else { b.finish().map_err(|e| err(&e)) };
    match r {
        Err(e) => {
            if nodes.arr().len() > 0 || e != "notopened" {
                return Err(format!("[build] finish gives \"{e}\", specification says there is a tree"));
            }
        }
        Ok(n) => {
            if nodes.arr().is_empty() {
                return Err("[build] finish gives a tree, specification says \"notopened\"".into());
            }
            if fresh && !failed {
                let par: Vec<usize> = nodes.arr().iter().map(|o| o.get("parent").u()).collect();
                check_shape("finish", &n, &par, &vals[1..])?;
            }
            if !fresh && w.label(&n) != dst.get("root").u() {
                return Err("[build] finish gives a different node than the builder was given".into());
            }
        }
    }
    // The builder is gone, and with it what it locked.
    if !failed && !fresh {
        w.observe(dst, true, true).map_err(|e| format!("[build] after finishing: {e}"))?;
    }
    let w = std::mem::ManuallyDrop::into_inner(w);
    w.finish(rng)?;
    Ok(steps)
}

/// Serializing and rebuilding one subtree in every way there is.
pub fn tree_case(t: &J, rng: &mut Rng, log: &mut Log) -> Result<usize, String> {
    reset_serials();
    let nodes = t.get("nodes");
    let x = t.get("x").u();
    let mode = rng.below(strct::MODES);
    log.tag("build", &format!("subtree of node {x} of {} built in mode {mode}", t.get("par")));
    let w = std::mem::ManuallyDrop::new(strct::materialize(nodes, mode, rng)?);
    let pre = nodes.at(x - 1).get("pre").us();
    let vals: Vec<i64> = pre.iter().map(|y| w.rec(*y).val).collect();
    let par: Vec<usize> = pre.iter().map(|y| if *y == x { 0 } else { pre.iter().position(|p| *p == nodes.at(y - 1).get("parent").u()).unwrap() + 1 }).collect();
    let n = w.plain(x)?;
    // What the specification says, with data in place of nodes. (0: a closing)
    let want: Vec<i64> = t.get("events").arr().iter().map(|e| if e.at(0).s() == "open" { w.rec(e.at(1).u()).val } else { 0 }).collect();
    let expand = |evs: Vec<Event<Payload>>| -> Vec<i64> {
        let mut v = Vec::new();
        for e in evs {
            match e {
                Event::Open(p) => v.push(p.val),
                Event::Close(k) => v.extend(std::iter::repeat(0).take(k)),
            }
        }
        v
    };
    let mut steps = 0;
    macro_rules! serialize {
        ($what:expr, $iter:expr) => {{
            // Someone may be reading some of the data.
            let shared = if rng.chance(1, 2) { Some(w.plain(1 + rng.below(nodes.arr().len()))?) } else { None };
            let shared = shared.as_ref().map(|m| (m.borrow_data(), m.borrow_data()));
            let r: Result<Vec<Event<Payload>>, _> = quiet(|| $iter.collect::<Result<Vec<_>, _>>()).map_err(|m| format!("[build] {} panicked: {m}", $what))?;
            drop(shared);
            let r = r.map_err(|_| format!("[build] {} fails although no data is borrowed", $what))?;
            let got = expand(r);
            if got != want {
                return Err(format!("[build] {} gives {got:?}, specification says {want:?} (data, or 0 for closing)", $what));
            }
            steps += 1;
        }};
    }
    {
        let f = n.clone().bundle_new_hierarchy_edit_prohibition().map_err(|_| "[lock] prohibition refused")?;
        serialize!("FrozenNode::to_events", f.to_events());
        serialize!("events of a frozen traversal", f.depth_first_traverse_stable().map(Event::try_from));
        let d = f.depth_first_traverse_stable().next().unwrap();
        let _ = Event::<Payload>::try_from(d).map_err(|_| "[build] data not readable")?.map(|d| d.val);
    }
    {
        let h = n.clone().bundle_new_hierarchy_edit_grant().map_err(|_| "[lock] grant refused")?;
        serialize!("HotNode::to_events", h.to_events());
        let hs = |ev: DftEvent<N>| ev.map(|n| n.bundle_new_hierarchy_edit_grant().expect("grant"));
        serialize!("events of hot nodes", n.depth_first_traverse().map(|e| Event::try_from(hs(e))));
    }
    serialize!("Node::to_events", n.to_events());
    serialize!("events of a traversal", n.depth_first_traverse().map(Event::try_from));
    if n.is_root() {
        serialize!("events of Tree::root", n.tree().root().to_events());
    }
    // Building: the same tree, however closings are put together.
    let encode = |rng: &mut Rng| -> Vec<Event<Payload>> {
        let mut v: Vec<Event<Payload>> = Vec::new();
        let mut k = 0;
        while k < want.len() {
            if want[k] != 0 {
                v.push(Event::Open(Payload::new(want[k])));
                k += 1;
            } else {
                let mut run = 1;
                while k + run < want.len() && want[k + run] == 0 && rng.chance(2, 3) {
                    run += 1;
                }
                v.push(Event::Close(run));
                k += run;
            }
            if rng.chance(1, 6) {
                v.push(Event::Close(0));
            }
        }
        // The last closings may be missing: they are a matter of taste.
        if rng.chance(1, 4) {
            while let Some(Event::Close(_)) = v.last() {
                v.pop();
            }
        }
        v
    };
    let built = |what: &str, n: Result<N, TreeBuildError>| -> Result<(), String> {
        match n {
            Ok(n) => check_shape(what, &n, &par, &vals),
            Err(e) => Err(format!("[build] {what} gives \"{}\" for a well-formed sequence", err(&e))),
        }
    };
    let evs = encode(rng);
    built("collect into Node", quiet(|| evs.into_iter().collect::<Result<N, _>>()).map_err(|m| format!("[build] collect panicked: {m}"))?)?;
    let evs = encode(rng);
    built("collect into HotNode", quiet(|| evs.into_iter().collect::<Result<H, _>>()).map_err(|m| format!("[build] collect panicked: {m}"))?.map(|h| h.plain()))?;
    let evs = encode(rng);
    built("collect into FrozenNode", quiet(|| evs.into_iter().collect::<Result<F, _>>()).map_err(|m| format!("[build] collect panicked: {m}"))?.map(|h| h.plain()))?;
    let evs = encode(rng);
    built("collect into Tree", quiet(|| evs.into_iter().collect::<Result<Tree<Payload>, _>>()).map_err(|m| format!("[build] collect panicked: {m}"))?.map(|h| h.root()))?;
    built("collect depth-first events", quiet(|| n.depth_first_traverse().collect::<Result<N, _>>()).map_err(|m| format!("[build] collect panicked: {m}"))?)?;
    let mut b = TreeBuilder::default();
    let r = quiet(|| b.push_dft_events(n.depth_first_traverse())).map_err(|m| format!("[build] push_dft_events panicked: {m}"))?;
    built("push_dft_events", r.and_then(|()| b.finish()))?;
    let mut b = TreeBuilder::new();
    let evs = encode(rng);
    let r = quiet(|| b.push_events(evs)).map_err(|m| format!("[build] push_events panicked: {m}"))?;
    built("push_events", r.and_then(|()| b.finish()))?;
    // Into a node that is there: an additional last child.
    {
        let host = Node::new_tree(Payload::new(-1));
        let h = host.bundle_new_hierarchy_edit_grant().map_err(|_| "[lock] grant refused")?;
        let first = h.create_as_last_child(Payload::new(-2)).plain();
        let mut b = TreeBuilder::with_root(h);
        let evs = encode(rng);
        let r = b.push_events(evs);
        if let Err(e) = r {
            return Err(format!("[build] push_events below a node gives \"{}\"", err(&e)));
        }
        let (p, v) = shape(&first.root(), par.len() + 5).map_err(|e| format!("[build] {e}"))?;
        let wp: Vec<usize> = [0, 1].into_iter().chain(par.iter().map(|p| if *p == 0 { 1 } else { p + 2 })).collect();
        let wv: Vec<i64> = [-1, -2].into_iter().chain(vals.iter().copied()).collect();
        if p != wp || v != wv {
            return Err(format!("[build] building below a node gives {p:?} with {v:?}, specification says {wp:?} with {wv:?}"));
        }
    }
    steps += 8;
    // Malformed sequences.
    let full = |_: &mut Rng| -> Vec<Event<Payload>> { want.iter().map(|v| if *v != 0 { Event::Open(Payload::new(*v)) } else { Event::Close(1) }).collect() };
    let mut bad: Vec<(&str, Vec<Event<Payload>>)> = Vec::new();
    let mut v = full(rng);
    v.push(Event::Open(Payload::new(-3)));
    v.extend(if rng.chance(1, 2) { Some(Event::Close(1)) } else { None });
    bad.push(("closed", v));
    let mut v = full(rng);
    v.push(Event::Close([1, 2, usize::MAX, big()][rng.below(4)]));
    bad.push(("closed", v));
    let mut v = full(rng);
    v.pop();
    v.push(Event::Close([2, 3, usize::MAX, big()][rng.below(4)]));
    bad.push(("closed", v));
    let mut v = full(rng);
    v.insert(0, Event::Close([1, 2, usize::MAX, big()][rng.below(4)]));
    bad.push(("notopened", v));
    bad.push(("notopened", vec![]));
    bad.push(("notopened", vec![Event::Close(0)]));
    for (why, evs) in bad {
        let got = quiet(|| match rng.below(5) {
            0 => outcome(&evs.into_iter().collect::<Result<N, _>>()),
            1 => outcome(&evs.into_iter().collect::<Result<H, _>>()),
            2 => outcome(&evs.into_iter().collect::<Result<F, _>>()),
            3 => outcome(&evs.into_iter().collect::<Result<Tree<Payload>, _>>()),
            _ => {
                let mut b = TreeBuilder::new();
                match b.push_events(evs) {
                    Ok(()) => outcome(&b.finish()),
                    Err(e) => err(&e),
                }
            }
        })
        .map_err(|m| format!("[build] building from a malformed sequence panicked: {m}"))?;
        if got != why {
            return Err(format!("[build] a malformed sequence gives \"{got}\", specification says \"{why}\""));
        }
        steps += 1;
    }
    // Sequences that end early: a refused event in the middle, or an iterator that panics. What has
    // been built then describes a prefix of the events before.
    for _ in 0..2 {
        let k = rng.below(want.len() + 1);
        let panics = rng.chance(1, 2);
        let depth_first = rng.chance(1, 2);
        let before = last_serial();
        let host = Node::new_tree(Payload::new(-4));
        let mut b = TreeBuilder::with_root(host.clone().bundle_new_hierarchy_edit_grant().map_err(|_| "[lock] grant refused")?);
        let mut i = 0;
        let mut rest = full(rng).into_iter();
        let source = std::iter::from_fn(|| {
            i += 1;
            if i == k + 1 {
                assert!(!panics, "injected failure of an iterator");
                return Some(Event::Close(if depth_first { 9 } else { usize::MAX }));
            }
            rest.next()
        });
        let r = quiet(|| {
            if depth_first {
                b.push_dft_events(source.flat_map(|e| match e {
                    Event::Open(p) => vec![DftEvent::Open(Node::new_tree(p))],
                    Event::Close(n) => (0..n).map(|_| DftEvent::Close(Node::new_tree(Payload::new(-7)))).collect(),
                }))
            } else {
                b.push_events(source)
            }
        });
        match &r {
            Err(m) if panics && m.starts_with("injected") => {}
            Ok(Err(TreeBuildError::RootClosed)) if !panics => {}
            r => return Err(format!("[build] a sequence that is broken off ({}) gives {r:?}", if panics { "panic" } else { "refused event" })),
        }
        drop(quiet(|| b.finish()));
        let got = shape(&host, 2 * want.len() + 2)?;
        let mut sofar = (vec![0], vec![-4]);
        let mut cur = 1;
        let mut fits = got == sofar;
        for v in &want[..k] {
            if *v == 0 {
                cur = sofar.0[cur - 1];
            } else {
                sofar.0.push(cur);
                sofar.1.push(*v);
                cur = sofar.0.len();
            }
            fits |= got == sofar;
        }
        if !fits {
            return Err(format!("[build] after a sequence that is broken off at event {k} of {want:?} there is {got:?}"));
        }
        drop(host);
        drop(rest);
        if let Some(s) = (before + 1..=last_serial()).find(|s| drops_of(*s) != 1) {
            return Err(format!("[build] data #{s} given to a builder were dropped {} times", drops_of(s)));
        }
    }
    // With borrowed data.
    for y in 1..=nodes.arr().len() {
        let m = w.plain(y)?;
        let guard = m.borrow_data_mut();
        let at = pre.iter().position(|p| *p == y).map(|_| want.iter().position(|v| *v == guard.val).unwrap());
        let mut got = Vec::new();
        let mut hit = false;
        let how = rng.below(6);
        let frozen = || n.clone().bundle_new_hierarchy_edit_prohibition().map_err(|_| "[lock] prohibition refused");
        let hot = |n: N| n.bundle_new_hierarchy_edit_grant().expect("[lock] grant refused");
        let it: Vec<Result<Event<Payload>, _>> = quiet(|| -> Result<_, &str> {
            Ok(match how {
                0 => n.to_events().take(40).collect(),
                1 => frozen()?.to_events().take(40).collect(),
                2 => hot(n.clone()).to_events().take(40).collect(),
                3 => n.depth_first_traverse().map(Event::try_from).take(40).collect(),
                4 => frozen()?.depth_first_traverse_stable().map(Event::try_from).take(40).collect(),
                _ => n.depth_first_traverse().map(|e| Event::try_from(e.map(hot))).take(40).collect(),
            })
        })
        .map_err(|m| format!("[build] serializing (way {how}) panicked on borrowed data: {m}"))??;
        if how > 2 {
            // Each event is converted on its own.
            if it.len() != want.len() || it.iter().enumerate().any(|(i, r)| r.is_err() != (at == Some(i))) {
                return Err(format!("[build] converting events (way {how}) with the data of node {y} borrowed fails elsewhere"));
            }
        }
        for e in it {
            match e {
                Ok(e) => got.extend(expand(vec![e])),
                Err(_) => {
                    hit = true;
                    break;
                }
            }
        }
        let expect = &want[..at.unwrap_or(want.len())];
        if hit != at.is_some() || got != expect {
            return Err(format!("[build] serializing (way {how}) with the data of node {y} borrowed gives {got:?} then {}, specification says {expect:?}", if hit { "an error" } else { "the end" }));
        }
        let r = quiet(|| match rng.below(3) {
            0 => outcome(&n.depth_first_traverse().collect::<Result<N, _>>()),
            1 => outcome(&TreeBuilder::new().push_dft_events(n.depth_first_traverse())),
            _ => {
                let mut b = TreeBuilder::new();
                n.depth_first_traverse().map(|e| b.push_dft_event(e)).find(|r| r.is_err()).map_or("ok", |r| outcome(&r))
            }
        })
        .map_err(|m| format!("[build] building panicked on borrowed data: {m}"))?;
        if r != if at.is_some() { "borrow" } else { "ok" } {
            return Err(format!("[build] building from depth-first events with the data of node {y} borrowed gives \"{r}\""));
        }
        steps += 2;
    }
    // Literals.
    if x == 1 {
        let par = t.get("par").us();
        let mut found = par.len() > 5;
        for l in LITERALS.iter().filter(|l| l.par == par) {
            found = true;
            let vals: Vec<i64> = (1..=par.len() as i64).collect();
            let before = last_serial();
            check_shape("tree_node!", &(l.node)(), &par, &vals)?;
            check_shape("tree!", &(l.tree)().root(), &par, &vals)?;
            if last_serial() - before != 2 * par.len() as u64 {
                return Err(format!("[build] literals of {par:?} do not evaluate each datum once"));
            }
            steps += 2;
        }
        if !found {
            return Err(format!("harness: no literal for {par:?}"));
        }
    }
    // The source is as it was, and nothing else is left.
    let mut w = std::mem::ManuallyDrop::into_inner(w);
    drop(n);
    w.observe(nodes, true, true).map_err(|e| format!("[build] the source has changed: {e}"))?;
    w.finish(rng)?;
    Ok(steps)
}
