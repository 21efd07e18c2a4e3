//! Replays MCCursors: a traversal that does not prevent edits, interleaved with edits.
use crate::json::J;
use crate::lts::Lts;
use crate::builder;
use crate::strct;
use crate::util::*;
use crate::world::*;
use crate::Log;
use dendron::serial::{Event, TreeBuilder, TreeSerializeIter};
use dendron::traverse::*;

#[derive(Clone)]
pub enum Cur {
    Dft(DepthFirstTraverser<Payload>),
    Rdft(ReverseDepthFirstTraverser<Payload>),
    Sib(SiblingsTraverser<Payload>),
    Rsib(ReverseSiblingsTraverser<Payload>),
    Anc(AncestorsTraverser<Payload>),
}
/// Kind of item, node.
type Item = Option<(char, N)>;

fn ev(e: DftEvent<N>) -> (char, N) {
    match e {
        DftEvent::Open(n) => ('o', n),
        DftEvent::Close(n) => ('c', n),
    }
}
impl Cur {
    pub fn next(&mut self) -> Item {
        match self {
            Cur::Dft(t) => t.next().map(ev),
            Cur::Rdft(t) => t.next().map(ev),
            Cur::Sib(t) => t.next().map(|n| ('n', n)),
            Cur::Rsib(t) => t.next().map(|n| ('n', n)),
            Cur::Anc(t) => t.next().map(|n| ('n', n)),
        }
    }
    pub fn close(&mut self) -> Item {
        match self {
            Cur::Dft(t) => t.close_current().map(|n| ('c', n)),
            _ => unreachable!("not closable"),
        }
    }
    pub fn peek(&self) -> Item {
        match self {
            Cur::Dft(t) => t.peek().cloned().map(ev),
            Cur::Rdft(t) => t.peek().cloned().map(ev),
            Cur::Sib(t) => t.peek().map(|n| ('n', n.clone())),
            Cur::Rsib(t) => t.peek().map(|n| ('n', n.clone())),
            Cur::Anc(t) => t.peek().map(|n| ('n', n.clone())),
        }
    }
    pub fn hint(&self) -> (usize, Option<usize>) {
        match self {
            Cur::Dft(t) => t.size_hint(),
            Cur::Rdft(t) => t.size_hint(),
            Cur::Sib(t) => t.size_hint(),
            Cur::Rsib(t) => t.size_hint(),
            Cur::Anc(t) => t.size_hint(),
        }
    }
    pub fn make(kind: &str, w: &World, start: usize, pend: Option<(char, usize)>, rng: &mut Rng) -> Result<Cur, String> {
        let p = match pend {
            Some((k, x)) => Some((k, w.plain(x)?)),
            None => None,
        };
        let event = |p: Option<(char, N)>| p.map(|(k, n)| if k == 'o' { DftEvent::Open(n) } else { DftEvent::Close(n) });
        let node = |p: Option<(char, N)>| p.map(|p| p.1);
        // An ended traversal has to be made from something.
        let at = if start == 0 { w.nodes.iter().flatten().next().and_then(|r| r.weak.upgrade()) } else { Some(w.plain(start)?) };
        Ok(match kind {
            "dft" | "rdft" if at.is_none() => match kind {
                "dft" => Cur::Dft(DepthFirstTraverser::with_start(None)),
                _ => Cur::Rdft(ReverseDepthFirstTraverser::with_start(None)),
            },
            "dft" if pend == Some(('o', start)) && rng.chance(1, 2) => Cur::Dft(at.unwrap().depth_first_traverse()),
            "rdft" if pend == Some(('c', start)) && rng.chance(1, 2) => Cur::Rdft(at.unwrap().depth_first_reverse_traverse()),
            "dft" => Cur::Dft(DepthFirstTraverser::with_next_event(at.unwrap(), event(p))),
            "rdft" => Cur::Rdft(ReverseDepthFirstTraverser::with_next_event(at.unwrap(), event(p))),
            "sib" if p.is_some() && rng.chance(1, 2) => Cur::Sib(p.unwrap().1.following_siblings_or_self()),
            "rsib" if p.is_some() && rng.chance(1, 2) => Cur::Rsib(p.unwrap().1.preceding_siblings_or_self_reverse()),
            "anc" if p.is_some() && rng.chance(1, 2) => Cur::Anc(p.unwrap().1.ancestors_or_self()),
            "sib" => Cur::Sib(SiblingsTraverser::new(node(p))),
            "rsib" => Cur::Rsib(ReverseSiblingsTraverser::new(node(p))),
            "anc" => Cur::Anc(AncestorsTraverser::new(node(p))),
            k => panic!("bad cursor kind {k}"),
        })
    }
}

fn pend(j: &J) -> Option<(char, usize)> {
    if j.arr().is_empty() {
        None
    } else {
        Some((j.at(0).s().chars().next().unwrap(), j.at(1).u()))
    }
}
fn show(p: &Option<(char, usize)>) -> String {
    p.map_or("nothing".into(), |(k, x)| format!("{k}{x}"))
}
fn tree_of(nodes: &J, x: usize) -> usize {
    nodes.at(x - 1).get("tree").u()
}

struct State {
    w: World,
    cur: Option<Cur>,
    /// A serialization in step with the traversal, and how many closings it is ahead.
    ser: Option<(TreeSerializeIter<Payload>, usize)>,
    /// A builder instead of a traversal.
    bld: Option<TreeBuilder<Payload>>,
}
impl State {
    fn make(&mut self, kind: &str, start: usize, pend: &J, open: &[usize], rng: &mut Rng) -> Result<(), String> {
        if kind == "build" {
            self.bld = Some(self.builder(start, pend, open, rng)?);
            return Ok(());
        }
        let p = self::pend(pend);
        self.cur = Some(Cur::make(kind, &self.w, start, p, rng)?);
        self.serialize(kind, start, p, rng)
    }
    /// A builder begun at `start`, with the nodes in `open` open (the innermost is the first).
    fn builder(&mut self, start: usize, pend: &J, open: &[usize], rng: &mut Rng) -> Result<TreeBuilder<Payload>, String> {
        let refused = |_| "[lock] edit grant refused although nothing prohibits edits".to_string();
        let hot = |n: &N| n.clone().bundle_new_hierarchy_edit_grant().map_err(refused);
        let w = &mut self.w;
        let mut b = TreeBuilder::with_root(hot(&w.plain(start)?)?);
        for i in (1..open.len()).rev() {
            // Only a builder's own nodes are open: let a new one replace the one there is.
            let (parent, x) = (open[i], open[i - 1]);
            let old = hot(&w.plain(x)?)?;
            let done = quiet(|| {
                builder::feed(&mut b, None, w.rec(x).val, rng).map_err(|e| format!("[build] opening a node fails: {e}"))?;
                let new = hot(&w.plain(parent)?.last_child().ok_or("[build] an opened node is missing")?)?;
                new.detach_insert_subtree(insert("next", &old));
                while let Some(c) = old.first_child() {
                    c.detach_insert_subtree(insert("last", &new));
                }
                old.detach_subtree();
                Ok::<N, String>(new.plain())
            });
            let new = done.map_err(|m| format!("[init] replacing a node panicked: {m}"))??;
            let serial = new.try_borrow_data().map_err(|_| "[data] data not readable")?.serial;
            let r = w.rec_mut(x);
            r.weak = new.downgrade();
            r.serial = serial;
            r.p = vec![new];
        }
        if let Some(p) = pend.arr().first() {
            if p.s() == "s" {
                match quiet(|| b.close(open.len() + 2)) {
                    Ok(r) if builder::outcome(&r) == "closed" => {}
                    _ => return Err("[build] closing more than there is does not fail as specified".into()),
                }
            }
        } else if !matches!(quiet(|| builder::feed(&mut b, Some(1), 0, rng)), Ok(Ok(()))) {
            return Err("[build] closing the root fails".into());
        }
        w.reindex();
        Ok(b)
    }
    /// From the opening of its start, serialization is a traversal, too.
    fn serialize(&mut self, kind: &str, start: usize, p: Option<(char, usize)>, rng: &mut Rng) -> Result<(), String> {
        if kind == "dft" && p == Some(('o', start)) && rng.chance(1, 2) {
            self.ser = Some((self.w.plain(start)?.to_events(), 0));
        }
        Ok(())
    }
    /// The event next to come of the serialization has to describe the item.
    fn serialized(&mut self, item: &Item) -> Result<(), String> {
        let Some((it, ahead)) = &mut self.ser else { return Ok(()) };
        if *ahead > 0 {
            *ahead -= 1;
            return match item {
                Some(('c', _)) => Ok(()),
                _ => Err("[cursor] serializing closes more nodes than the traversal".into()),
            };
        }
        let got = quiet(|| it.next()).map_err(|m| format!("[cursor] serializing while editing panicked: {m}"))?;
        let ok = match (&got, item) {
            (None, None) => true,
            (Some(Ok(Event::Open(d))), Some(('o', n))) => n.try_borrow_data().is_ok_and(|e| e.val == d.val),
            (Some(Ok(Event::Close(k))), Some(('c', _))) if *k > 0 => {
                *ahead = k - 1;
                // Nothing is edited in between, so these are the closings to come now.
                let rest = self.cur.clone().map_or(0, |mut c| std::iter::from_fn(|| c.next()).take_while(|i| i.0 == 'c').take(*k).count());
                rest >= k - 1
            }
            _ => false,
        };
        let text = match got {
            None => "nothing".into(),
            Some(Ok(e)) => format!("{e:?}"),
            Some(Err(e)) => format!("{e}"),
        };
        if ok { Ok(()) } else { Err(format!("[cursor] serializing while editing gives {text}, specification says {}", show(&self.label(item)))) }
    }
    fn label(&self, i: &Item) -> Option<(char, usize)> {
        i.as_ref().map(|(k, n)| {
            let s = n.try_borrow_data().map(|d| d.serial).unwrap_or(0);
            (*k, self.w.lab.get(&s).copied().unwrap_or(usize::MAX))
        })
    }
    /// Holds exactly one node of each tree in `u`.
    fn hold(&mut self, nodes: &J, u: &[usize], rng: &mut Rng) -> Result<(), String> {
        let n = self.w.nodes.len() - 1;
        let mut keep = Vec::new();
        for &t in u {
            let members: Vec<usize> = (1..=n).filter(|x| tree_of(nodes, *x) == t).collect();
            let m = members[rng.below(members.len())];
            keep.push((m, self.w.plain(m)?));
        }
        let mut gone = Vec::new();
        for r in self.w.nodes.iter_mut().flatten() {
            gone.extend(r.p.drain(..).map(Any::P));
            gone.extend(r.h.drain(..).map(Any::H));
        }
        for t in &mut self.w.trees {
            t.th.clear();
        }
        quiet(|| drop(gone)).map_err(|e| format!("[life] dropping a node handle panicked: {e}"))?;
        for (m, h) in keep {
            self.w.keep(m, Any::P(h));
        }
        Ok(())
    }
    fn observe(&mut self, obs: &J, full: bool) -> Result<(), String> {
        // Whether a builder that has failed still holds the lock is left open.
        let failed = obs.get("kind").s() == "build" && pend(obs.get("pend")).is_some_and(|w| w.0 == 's');
        let own = self.observe_cursor(obs, full);
        also(own, || if failed { self.w.observe_nolock(obs, full) } else { self.w.observe(obs, full, false) })
    }
    fn observe_cursor(&self, obs: &J, full: bool) -> Result<(), String> {
        let want = pend(obs.get("pend"));
        match &self.cur {
            None if obs.get("kind").s() == "build" => {
                let b = self.bld.as_ref().ok_or("harness: no builder")?;
                if !b.is_root_available() {
                    return Err("[build] the root of a builder is not available".into());
                }
                if want.is_some_and(|w| w.0 == 's') {
                    return Ok(());
                }
                if b.is_root_closed() != want.is_none() {
                    return Err(format!("[build] is_root_closed is {}", b.is_root_closed()));
                }
            }
            None => {
                if obs.get("kind").s() != "none" {
                    return Err("harness: no cursor".into());
                }
            }
            Some(c) => {
                let p = c.peek();
                let got = self.label(&p);
                if got != want {
                    return Err(format!("[cursor] {} announces {}, specification says {}", obs.get("kind").s(), show(&got), show(&want)));
                }
                if full {
                    let rest: Vec<_> = obs.get("rest").arr().iter().map(|j| pend(j).unwrap()).collect();
                    let (lo, hi) = c.hint();
                    if lo > rest.len() || hi.is_some_and(|h| h < rest.len()) {
                        return Err(format!("[cursor] size_hint is ({lo}, {hi:?}), but {} items are left", rest.len()));
                    }
                    let mut c = c.clone();
                    let mut got = Vec::new();
                    while let Some(i) = c.next() {
                        got.push(self.label(&Some(i)).unwrap());
                        if got.len() > rest.len() + 4 {
                            break;
                        }
                    }
                    if got != rest {
                        return Err(format!("[cursor] what is left of {} is {got:?}, specification says {rest:?}", obs.get("kind").s()));
                    }
                    if c.next().is_some() || c.next().is_some() {
                        return Err("[cursor] an ended traversal resumes".into());
                    }
                }
            }
        }
        Ok(())
    }
}

pub fn walk(lts: &Lts, start: usize, mode: usize, rng: &mut Rng, log: &mut Log, mut choose: impl FnMut(usize, usize, &mut Rng) -> Option<usize>) -> Result<usize, String> {
    reset_serials();
    let obs = &lts.obs[start];
    log.note(&format!("start {} mode {mode}", lts.keys[start]));
    let nodes = obs.get("nodes");
    let w = strct::materialize(nodes, mode, rng)?;
    let mut st = std::mem::ManuallyDrop::new(State { w, cur: None, ser: None, bld: None });
    if obs.get("kind").s() != "none" {
        st.make(obs.get("kind").s(), obs.get("start").u(), obs.get("pend"), &obs.get("open").us(), rng)?;
    }
    st.hold(nodes, &obs.get("u").us(), rng)?;
    st.observe(obs, false).map_err(|e| if e.starts_with("[cursor]") { e } else { format!("[init] {e}") })?;
    let mut s = start;
    let mut steps = 0;
    while let Some(ei) = choose(s, steps, rng) {
        let e = &lts.edges[ei];
        let (src, dst) = (&lts.obs[e.src], &lts.obs[e.dst]);
        let u2 = dst.get("u").us();
        // An open node grants edits, and so nothing can be prohibited.
        let pol = strct::Policy { keep: 10, hot: st.bld.is_some(), mode };
        steps += 1;
        if rng.chance(1, 8) {
            // A copy of a traversal is as good as the original.
            let c = st.cur.clone();
            st.cur = c;
        }
        let op = e.op.at(0).s();
        if op != "step" && (!op.starts_with("edit") || st.ser.as_ref().is_some_and(|(_, ahead)| *ahead > 0)) {
            // Ahead, it may hold what the traversal does not.
            st.ser = None;
        }
        match op {
            "edit" | "edit_forget" => {
                log.step(e.op.at(1), &e.r);
                // What is to be held afterwards, in terms of the present nodes.
                let mut old: Vec<N> = Vec::new();
                for r in st.w.nodes.iter_mut().flatten() {
                    old.append(&mut r.p);
                }
                for &t in &u2 {
                    let members: Vec<usize> = (1..=e.order.len()).filter(|i| tree_of(dst.get("nodes"), *i) == t).map(|i| e.order[i - 1]).filter(|m| !e.born.contains(m)).collect();
                    if !members.is_empty() {
                        let m = members[rng.below(members.len())];
                        let h = st.w.plain(m)?;
                        st.w.keep(m, Any::P(h));
                    }
                }
                let w = &mut st.w;
                strct::step_with(w, e.op.at(1), src.get("nodes"), dst.get("nodes"), e, pol, rng)?;
                // What is left of a serialization is not promised, but it consists of living nodes.
                if let Some((it, _)) = st.ser.take() {
                    let vals: Vec<i64> = st.w.nodes.iter().flatten().map(|r| r.val).collect();
                    let left: Vec<_> = quiet(|| it.take(40).collect()).map_err(|m| format!("[cursor] serializing after an edit panicked: {m}"))?;
                    if let Some(e) = left.iter().find(|e| !matches!(e, Ok(Event::Close(1..))) && !matches!(e, Ok(Event::Open(d)) if vals.contains(&d.val))) {
                        return Err(format!("[cursor] serializing after an edit gives {e:?}"));
                    }
                }
                quiet(|| drop(old)).map_err(|e| format!("[life] dropping a node handle panicked: {e}"))?;
                st.hold(dst.get("nodes"), &u2, rng)?;
            }
            "make" => {
                let c = e.op.at(1);
                log.step(&e.op, "ok");
                st.make(c.get("kind").s(), c.get("start").u(), c.get("pend"), &[], rng)?;
            }
            "release" => {
                log.step(&e.op, "ok");
                // Held are nodes of the trees that stay held.
                let keep: Vec<usize> = src.get("u").us().into_iter().filter(|t| *t != e.op.at(1).u()).collect();
                st.hold(src.get("nodes"), &keep, rng)?;
                st.w.relabel(&e.order, &e.torder)?;
            }
            "free" => {
                log.step(&e.op, "ok");
                let c = (st.cur.take(), st.bld.take());
                quiet(|| drop(c)).map_err(|e| format!("[life] dropping a traversal or a builder panicked: {e}"))?;
                st.w.relabel(&e.order, &e.torder)?;
            }
            "bopen" | "bclose" => {
                log.step(&e.op, &e.r);
                let val = st.w.fresh_val();
                let close = (op == "bclose").then(|| e.op.at(1).u());
                let b = st.bld.as_mut().ok_or("harness: no builder")?;
                let r = quiet(|| builder::feed(b, close, val, rng)).map_err(|m| format!("[build] {} panicked: {m}", e.op))?;
                let got = builder::outcome(&r);
                if got != e.r {
                    return Err(format!("[build] {} of a builder is {got}, specification says {}", e.op, e.r));
                }
                if !e.born.is_empty() {
                    let parent = src.get("pend").at(1).u();
                    let n = st.w.plain(parent)?.last_child().ok_or("[build] an opened node is missing")?;
                    st.w.register(&e.born, &Any::P(n), &[val]).map_err(|e| format!("[build] {e}"))?;
                }
                st.w.relabel(&e.order, &e.torder)?;
            }
            "bfinish" => {
                log.step(&e.op, "ok");
                let b = st.bld.take().ok_or("harness: no builder")?;
                let got = quiet(|| if rng.chance(1, 2) { b.finish().ok() } else { b.finish_opt() }).map_err(|m| format!("[build] finishing panicked: {m}"))?;
                let n = got.ok_or("[build] finishing does not return the root")?;
                let l = st.w.label(&n);
                if l != e.extra.at(1).u() {
                    return Err(format!("[build] finishing returns node {l}, specification says {}", e.extra.at(1)));
                }
                if e.op.at(1).b() {
                    st.w.keep(l, Any::P(n));
                } else {
                    quiet(|| drop(n)).map_err(|e| format!("[life] dropping a node handle panicked: {e}"))?;
                }
                st.w.relabel(&e.order, &e.torder)?;
                st.hold(dst.get("nodes"), &u2, rng)?;
            }
            "step" | "close" => {
                log.step(&e.op, "ok");
                let c = st.cur.as_mut().ok_or("harness: no cursor")?;
                let got = quiet(|| if op == "step" { c.next() } else { c.close() }).map_err(|m| format!("[cursor] the step panicked: {m}"))?;
                let l = st.label(&got);
                let want = pend(&e.extra);
                if l != want {
                    return Err(format!("[cursor] {} yields {}, specification says {}", src.get("kind").s(), show(&l), show(&want)));
                }
                if op == "step" {
                    st.serialized(&got)?;
                }
                if e.op.at(1).b() {
                    if let Some((_, n)) = got {
                        st.w.keep(l.unwrap().1, Any::P(n));
                    }
                } else {
                    quiet(|| drop(got)).map_err(|e| format!("[life] dropping a node handle panicked: {e}"))?;
                }
                // A tree may be held by nobody now.
                st.w.relabel(&e.order, &e.torder)?;
                st.hold(dst.get("nodes"), &u2, rng)?;
            }
            k => panic!("unknown operation {k}"),
        }
        s = e.dst;
        let full = rng.chance(2, 3);
        st.observe(dst, full)?;
    }
    st.observe(&lts.obs[s], true)?;
    log.note("drop everything");
    let mut st = std::mem::ManuallyDrop::into_inner(st);
    drop(st.ser.take());
    let c = (st.cur.take(), st.bld.take());
    if rng.chance(1, 2) {
        drop(c);
        st.w.finish(rng)?;
    } else {
        // The traversal goes last.
        let State { w, .. } = st;
        let keep = c;
        for r in w.nodes.into_iter().flatten() {
            drop(r.p);
        }
        drop(keep);
        for s in 1..=last_serial() {
            if drops_of(s) != 1 {
                return Err(format!("[life] data #{s} was dropped {} times in the end", drops_of(s)));
            }
        }
    }
    Ok(steps)
}
