//! Replays transitions of MCScale with gadgets of thousands of nodes, on a small stack.
use crate::json::J;
use crate::lts::{Edge, Lts};
use crate::util::*;
use crate::world::*;
use crate::Log;
use dendron::serial::{Event, TreeBuilder};
use dendron::traverse::DftEvent;
use dendron::*;

/// An opening or a closing of a node of a gadget.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Ev {
    open: bool,
    x: usize,
    leaf: bool,
    i: usize,
}

fn expand(runs: &J, k: usize) -> Vec<Ev> {
    let mut v = Vec::new();
    let k = k as i64;
    for r in runs.arr() {
        let at = |p: &J| p.at(0).n() * k + p.at(1).n();
        let (lo, hi, step) = (at(r.at(0)), at(r.at(1)), r.at(2).n());
        let body: Vec<Ev> = r.at(3).arr().iter().map(|b| Ev { open: b.at(0).s() == "o", x: b.at(1).u(), leaf: b.at(2).s() == "l", i: 0 }).collect();
        let mut i = lo;
        while (step > 0 && i <= hi) || (step < 0 && i >= hi) {
            v.extend(body.iter().map(|b| Ev { i: i as usize, ..*b }));
            i += step;
        }
    }
    v
}

/// What is held of a tree.
enum Hold {
    Node(usize, Any),
    Tree(usize, Tree<Payload>),
}

struct Big<'a> {
    lts: &'a Lts,
    s: usize,
    k: usize,
    /// What the data of a gadget's spine and of its leaves are derived from.
    base: Vec<[i64; 2]>,
    next_base: i64,
    hold: Vec<Hold>,
    nodes: usize,
    steps: usize,
}

fn par(o: &J, x: usize) -> usize {
    o.get("nodes").at(x - 1).get("parent").u()
}
fn root(o: &J, x: usize) -> usize {
    o.get("nodes").at(x - 1).get("root").u()
}
fn short<T: std::fmt::Debug>(v: &[T], at: usize) -> String {
    format!("{:?}", &v[at.saturating_sub(2).min(v.len())..(at + 3).min(v.len())])
}
/// Where two sequences differ.
fn differ<T: PartialEq + std::fmt::Debug>(what: &str, got: &[T], want: &[T]) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let at = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    Err(format!("{what} gives {} items, specification says {}; from item {at} on {} instead of {}", got.len(), want.len(), short(got, at), short(want, at)))
}

/// For each opening, where the closing is.
fn closings(evs: &[Ev]) -> Vec<usize> {
    let mut at = vec![0; evs.len()];
    let mut open = Vec::new();
    for (i, e) in evs.iter().enumerate() {
        if e.open {
            open.push(i);
        } else if let Some(o) = open.pop() {
            at[o] = i;
        }
    }
    at
}

impl<'a> Big<'a> {
    fn val(&self, e: Ev) -> i64 {
        ((self.base[e.x][usize::from(e.leaf)] * 2 + i64::from(e.leaf)) << 20) | e.i as i64
    }
    fn obs(&self) -> &'a J {
        &self.lts.obs[self.s]
    }
    fn count(&self) -> usize {
        self.base.len() - 1
    }
    fn want(&self, x: usize) -> Vec<Ev> {
        expand(self.obs().get("runs").at(x - 1), self.k)
    }
    fn vals(&self, w: &[Ev]) -> Vec<(bool, i64)> {
        w.iter().map(|e| (e.open, self.val(*e))).collect()
    }
    /// The real root above gadget x, through something that is held.
    fn real_root(&self, x: usize) -> Result<N, String> {
        let o = self.obs();
        for h in &self.hold {
            match h {
                Hold::Node(y, a) if root(o, *y) == root(o, x) => return Ok(a.to_plain().root()),
                Hold::Tree(y, t) if root(o, *y) == root(o, x) => return Ok(t.root()),
                _ => {}
            }
        }
        Err("harness: a tree that is not held".into())
    }
    /// The node of that label.
    fn find(&self, x: usize, leaf: bool, i: usize) -> Result<N, String> {
        let r = root(self.obs(), x);
        let want = self.want(r);
        let at = want.iter().position(|e| *e == Ev { open: true, x, leaf, i }).ok_or("harness: no such node")?;
        match self.real_root(x)?.depth_first_traverse().nth(at) {
            Some(DftEvent::Open(n)) => Ok(n),
            _ => Err(format!("[nav] no opening at position {at} of the traversal")),
        }
    }
    fn find_label(&self, l: &J) -> Result<N, String> {
        let i = l.at(2).n() * self.k as i64 + l.at(3).n();
        self.find(l.at(0).u(), l.at(1).s() == "l", i as usize)
    }
    fn bottom(&self, x: usize) -> usize {
        match self.obs().get("g").at(x - 1).s() {
            "chain" | "combl" | "combr" => self.k,
            _ => 1,
        }
    }

    fn build(&mut self, w: &[Ev], mode: usize) -> Result<N, String> {
        let vals = self.vals(w);
        let opens = w.iter().filter(|e| e.open).count();
        self.nodes += opens;
        let r = quiet(|| match mode {
            0 => {
                let evs = vals.iter().map(|(o, v)| if *o { Event::Open(Payload::new(*v)) } else { Event::Close(1) });
                evs.collect::<Result<N, _>>().map_err(|e| format!("[init] {e}"))
            }
            1 => {
                let mut b = TreeBuilder::new();
                let mut closed = 0;
                for (o, v) in &vals {
                    if *o {
                        if closed > 0 {
                            b.push_event(Event::Close(closed)).map_err(|e| format!("[init] {e}"))?;
                        }
                        closed = 0;
                        b.push_event(Event::Open(Payload::new(*v))).map_err(|e| format!("[init] {e}"))?;
                    } else {
                        closed += 1;
                    }
                }
                b.finish().map_err(|e| format!("[init] {e}"))
            }
            2 => {
                // Backwards.
                let n = vals.len();
                let root = HotNode::new_tree(Payload::new(vals[n - 1].1));
                let mut stack = vec![root.clone()];
                for (o, v) in vals[..n - 1].iter().rev() {
                    if *o {
                        stack.pop();
                    } else {
                        let h = stack.last().unwrap().create_as_first_child(Payload::new(*v));
                        stack.push(h);
                    }
                }
                Ok(root.plain())
            }
            3 => {
                let root = Node::new_tree(Payload::new(vals[0].1));
                let g = root.tree().grant_hierarchy_edit().map_err(|_| "[init] no grant")?;
                let mut at = root.clone();
                let mut after = false;
                for (o, v) in &vals[1..] {
                    if *o {
                        let p = Payload::new(*v);
                        at = if after { at.create_as_next_sibling(&g, p) } else { at.create_as_first_child(&g, p) };
                        after = false;
                    } else if after {
                        at = at.parent().ok_or("[init] no parent")?;
                    } else {
                        after = true;
                    }
                }
                Ok(root)
            }
            _ => {
                let root = Node::new_tree(Payload::new(vals[0].1));
                let g = root.tree().grant_hierarchy_edit().map_err(|_| "[init] no grant")?;
                let mut stack = vec![root.clone()];
                for (o, v) in &vals[1..] {
                    if *o {
                        let h = stack.last().unwrap().create_as_last_child(&g, Payload::new(*v));
                        stack.push(h);
                    } else {
                        stack.pop();
                    }
                }
                Ok(root)
            }
        });
        r.map_err(|m| format!("[init] building a tree panicked: {m}"))?
    }

    /// Holds something else of the tree of that (real) root.
    fn grab(&mut self, r: usize, n: N, rng: &mut Rng) -> Result<(), String> {
        let members: Vec<usize> = (1..=self.count()).filter(|x| root(self.obs(), *x) == r).collect();
        let h = match rng.below(4) {
            0 => Hold::Node(r, Any::P(n)),
            1 => Hold::Tree(r, n.tree()),
            _ => {
                // From deep down.
                let x = members[rng.below(members.len())];
                let i = self.bottom(x);
                let at = self.want(r).iter().position(|e| *e == Ev { open: true, x, leaf: false, i }).unwrap();
                match n.depth_first_traverse().nth(at) {
                    Some(DftEvent::Open(m)) => Hold::Node(x, Any::P(m)),
                    _ => return Err(format!("[nav] no opening at position {at} of the traversal")),
                }
            }
        };
        self.hold.push(h);
        Ok(())
    }
    fn regrab(&mut self, rng: &mut Rng) -> Result<(), String> {
        let n = self.count();
        let mut roots = Vec::new();
        for r in (1..=n).filter(|x| par(self.obs(), *x) == 0) {
            roots.push((r, self.real_root(r)?));
        }
        let old = std::mem::take(&mut self.hold);
        quiet(move || drop(old)).map_err(|m| format!("[life] dropping handles panicked: {m}"))?;
        for (r, h) in roots {
            self.grab(r, h, rng)?;
        }
        Ok(())
    }

    fn observe(&mut self, rng: &mut Rng) -> Result<(), String> {
        let n = self.count();
        let o = self.obs();
        for r in (1..=n).filter(|x| par(o, *x) == 0) {
            let top = self.real_root(r)?;
            self.observe_tree(r, &top, rng)?;
        }
        if n > 1 {
            // Comparisons.
            for _ in 0..3 {
                let (x, y) = (1 + rng.below(n), 1 + rng.below(n));
                let want = x == y || self.vals(&self.want(x)) == self.vals(&self.want(y));
                let (a, b) = (self.find(x, false, 1)?, self.find(y, false, 1)?);
                let got = match rng.below(3) {
                    0 => a == b,
                    1 if a.is_root() && b.is_root() => a.tree() == b.tree(),
                    _ => a.try_eq(&b).map_err(|_| "[eq] comparing fails although no data is borrowed")?,
                };
                if got != want {
                    return Err(format!("[eq] comparing the subtrees of {x} and {y} gives {got}, specification says {want}"));
                }
                let same = root(self.obs(), x) == root(self.obs(), y);
                if a.belongs_to_same_tree(&b) != same {
                    return Err(format!("[member] belongs_to_same_tree of {x} and {y} is {}, specification says {same}", !same));
                }
            }
        }
        Ok(())
    }

    fn observe_tree(&mut self, r: usize, top: &N, rng: &mut Rng) -> Result<(), String> {
        let evs = self.want(r);
        let want = self.vals(&evs);
        let total = want.len() / 2;
        let cap = want.len() + 4;
        self.steps += want.len();
        if !top.is_root() || !top.tree().root().ptr_eq(top) {
            return Err("[member] the root is not the root of its tree".into());
        }
        let show = |e: DftEvent<N>| match e {
            DftEvent::Open(n) => (true, n.borrow_data().val),
            DftEvent::Close(n) => (false, n.borrow_data().val),
        };
        let got: Vec<_> = top.depth_first_traverse().take(cap).map(show).collect();
        differ("[nav] depth-first traversal", &got, &want)?;
        let mut depths = Vec::with_capacity(total);
        let mut d = 0usize;
        for (o, v) in &want {
            if *o {
                depths.push((*v, d));
                d += 1;
            } else {
                d -= 1;
            }
        }
        let height = depths.iter().map(|e| e.1).max().unwrap();
        // The chain of parents, for all.
        let mut above: Vec<N> = Vec::new();
        for e in top.depth_first_traverse() {
            if let DftEvent::Open(n) = e {
                let (s, v) = (n.borrow_data().serial, n.borrow_data().val);
                if drops_of(s) != 0 {
                    return Err(format!("[life] data #{s} of a living node has been dropped"));
                }
                let p = n.parent();
                let same = match (&p, above.last()) {
                    (Some(a), Some(b)) => a.ptr_eq(b),
                    (a, b) => a.is_none() && b.is_none(),
                };
                if !same {
                    let [a, b] = [p.as_ref(), above.last()].map(|n| n.map_or(-1, |n| n.borrow_data().val));
                    return Err(format!("[nav] the parent of {v} is {a}, specification says {b}"));
                }
                above.push(n);
            } else {
                above.pop();
            }
        }
        let frozen = || top.clone().bundle_new_hierarchy_edit_prohibition().map_err(|_| "[lock] edit prohibition refused although nothing grants edits".to_string());
        let showf = |e: DftEvent<F>| match e {
            DftEvent::Open(n) => (true, n.borrow_data().val),
            DftEvent::Close(n) => (false, n.borrow_data().val),
        };
        let back = |v: &[(bool, i64)]| v.iter().rev().copied().collect::<Vec<_>>();
        for _ in 0..3 {
            match rng.below(12) {
                10 => self.skip_around(top, &evs, rng)?,
                0 => {
                    let got: Vec<_> = top.depth_first_reverse_traverse().take(cap).map(show).collect();
                    differ("[trav] reverse depth-first traversal", &got, &back(&want))?;
                }
                1 => {
                    let got: Vec<_> = frozen()?.depth_first_traverse_stable().rev().take(cap).map(showf).collect();
                    differ("[trav] stable depth-first traversal, reversed,", &got, &back(&want))?;
                }
                2 => {
                    let mut t = frozen()?.depth_first_traverse_stable();
                    let (mut a, mut b) = (Vec::new(), Vec::new());
                    for _ in 0..cap {
                        if rng.chance(1, 2) {
                            let Some(e) = t.next() else { break };
                            a.push(showf(e));
                        } else {
                            let Some(e) = t.next_back() else { break };
                            b.push(showf(e));
                        }
                    }
                    a.extend(b.into_iter().rev());
                    differ("[trav] stable depth-first traversal from both ends", &a, &want)?;
                }
                3 => {
                    let max = [0, 1, 2, height / 2, height.saturating_sub(1), height, height + 1, usize::MAX, BIG[rng.below(BIG.len())]][rng.below(9)];
                    let mut d = 0;
                    let mut limited = Vec::new();
                    for (o, v) in &want {
                        d -= usize::from(!*o);
                        if d <= max {
                            limited.push((*o, *v, d));
                        }
                        d += usize::from(*o);
                    }
                    let t = frozen()?.shallow_depth_first_traverse_stable(Some(max));
                    let item = |e: DftEvent<(F, usize)>| match e {
                        DftEvent::Open((n, d)) => (true, n.borrow_data().val, d),
                        DftEvent::Close((n, d)) => (false, n.borrow_data().val, d),
                    };
                    let got: Vec<_> = if rng.chance(1, 2) {
                        t.take(cap).map(item).collect()
                    } else {
                        let mut v: Vec<_> = t.rev().take(cap).map(item).collect();
                        v.reverse();
                        v
                    };
                    differ(&format!("[trav] traversal down to depth {max}"), &got, &limited)?;
                }
                4 | 5 => {
                    // The openings by depth, and in order otherwise.
                    let start = [0, 0, 1, height / 2, height, height + 1][rng.below(6)];
                    let mut levels: Vec<_> = depths.iter().copied().filter(|e| e.1 >= start).collect();
                    levels.sort_by_key(|e| e.1);
                    let got: Vec<_> = frozen()?.allocating_breadth_first_traverse_stable(start).take(cap).map(|(n, d)| (n.borrow_data().val, d)).collect();
                    differ(&format!("[trav] breadth-first traversal from level {start}"), &got, &levels)?;
                    if height <= 400 {
                        let got: Vec<_> = frozen()?.non_allocating_breadth_first_traverse_stable(start).take(cap).map(|(n, d)| (n.borrow_data().val, d)).collect();
                        differ(&format!("[trav] non-allocating breadth-first traversal from level {start}"), &got, &levels)?;
                    }
                }
                6 => {
                    let mut got = Vec::new();
                    let mut open = Vec::new();
                    for e in top.to_events().take(cap) {
                        match e.map_err(|_| "[build] data not readable")? {
                            Event::Open(d) => {
                                got.push((true, d.val));
                                open.push(d.val);
                            }
                            Event::Close(k) => {
                                for _ in 0..k.min(cap) {
                                    match open.pop() {
                                        Some(v) => got.push((false, v)),
                                        None => return Err("[build] more nodes closed than opened".into()),
                                    }
                                }
                            }
                        }
                    }
                    differ("[build] serialization", &got, &want)?;
                }
                7 | 8 => {
                    let how = rng.below(4);
                    let c = match how {
                        0 => top.clone_subtree(),
                        1 => top.tree().clone_tree().root(),
                        2 => top.depth_first_traverse().collect::<Result<N, _>>().map_err(|_| "[build] rebuilding fails")?,
                        _ => top.to_events().map(|e| e.expect("data")).collect::<Result<N, _>>().map_err(|_| "[build] rebuilding fails")?,
                    };
                    let c = std::mem::ManuallyDrop::new(c);
                    let name = ["[nav] a clone of the subtree", "[nav] a clone of the tree", "[build] what is rebuilt from the traversal", "[build] what is rebuilt from the serialization"][how];
                    let got: Vec<_> = c.depth_first_traverse().take(cap).map(show).collect();
                    differ(name, &got, &want)?;
                    if !(matches!(top.try_eq(&*c), Ok(true)) && c.tree() == top.tree()) {
                        return Err("[eq] a copy is not equal".into());
                    }
                    // The last of the differences.
                    let mut last = (*c).clone();
                    while let Some(n) = last.last_child() {
                        last = n;
                    }
                    let v = last.borrow_data().val;
                    last.borrow_data_mut().val = -1;
                    if !matches!(top.try_eq(&*c), Ok(false)) {
                        return Err("[eq] a copy is equal although the data of its last node differs".into());
                    }
                    last.borrow_data_mut().val = v;
                    let c = std::mem::ManuallyDrop::into_inner(c);
                    quiet(move || drop((c, last))).map_err(|m| format!("[life] dropping a copy panicked: {m}"))?;
                    self.nodes += total;
                }
                9 if height * total < 2_000_000 => {
                    let two = rng.chance(1, 2);
                    set_two_lines(two);
                    let s = match rng.below(2) {
                        0 => format!("{}", top.debug_pretty_print()),
                        _ => format!("{:?}", top.tree().debug_pretty_print()),
                    };
                    set_two_lines(false);
                    // As in Pretty: the marks of a node's first line, and of its other lines.
                    let mut want: Vec<(String, i64)> = Vec::new();
                    let mut indent = String::new();
                    let ends = closings(&evs);
                    for (i, e) in evs.iter().enumerate() {
                        if !e.open {
                            indent.truncate(indent.len().saturating_sub(4));
                            continue;
                        }
                        let v = self.val(*e);
                        if i == 0 {
                            want.push((String::new(), v));
                        } else {
                            let last = evs.get(ends[i] + 1).map_or(true, |e| !e.open);
                            want.push((format!("{indent}{}", if last { "`-- " } else { "|-- " }), v));
                            indent.push_str(if last { "    " } else { "|   " });
                        }
                        if two {
                            want.push((indent.clone(), v));
                        }
                    }
                    let got: Vec<(String, i64)> = s
                        .split('\n')
                        .map(|l| {
                            let digits = l.len() - l.trim_end_matches(|c: char| c.is_ascii_digit()).len();
                            (l[..l.len() - digits].to_string(), l[l.len() - digits..].parse().unwrap_or(-2))
                        })
                        .collect();
                    differ("[pretty] printing", &got, &want)?;
                }
                _ => self.look_around(r, rng)?,
            }
        }
        Ok(())
    }

    /// Traversals some nodes of which are skipped.
    fn skip_around(&self, top: &N, evs: &[Ev], rng: &mut Rng) -> Result<(), String> {
        let how = rng.below(4);
        let mut evs = evs.to_vec();
        let mut max = None;
        if how == 2 && rng.chance(2, 3) {
            let few = rng.chance(1, 2);
            let m = rng.below(if few { 4 } else { evs.len() });
            max = Some(m);
            let mut d = 0;
            evs.retain(|e| {
                d -= usize::from(!e.open);
                let keep = d <= m;
                d += usize::from(e.open);
                keep
            });
        }
        let evs = &evs[..];
        let want = self.vals(evs);
        let ends = closings(evs);
        // The closing of the innermost node that is open before item i.
        let mut closing = vec![evs.len(); evs.len() + 1];
        let mut open = Vec::new();
        for (i, e) in evs.iter().enumerate() {
            closing[i] = open.last().map_or(evs.len(), |o: &usize| ends[*o]);
            if e.open {
                open.push(i);
            } else {
                open.pop();
            }
        }
        let show = |e: Option<DftEvent<N>>| e.map(|e| match e {
            DftEvent::Open(n) => (true, n.borrow_data().val),
            DftEvent::Close(n) => (false, n.borrow_data().val),
        });
        let frozen = || top.clone().bundle_new_hierarchy_edit_prohibition().map_err(|_| "[lock] edit prohibition refused although nothing grants edits".to_string());
        if how == 3 {
            // From an event.
            for _ in 0..3 {
                let i = rng.below(evs.len());
                let e = top.depth_first_traverse().nth(i).ok_or("[nav] the depth-first traversal ends too early")?;
                let got = e.close_current().map(|n| (false, n.borrow_data().val));
                let wanted = want.get(closing[i + 1]).copied();
                if got != wanted {
                    return Err(format!("[trav] depth-first: the closing after item {i} is {got:?}, specification says {wanted:?}"));
                }
            }
            return Ok(());
        }
        let mut plain = top.depth_first_traverse();
        let mut stable = frozen()?.depth_first_traverse_stable();
        let mut shallow = frozen()?.shallow_depth_first_traverse_stable(max);
        let mut next = |how: usize| match how {
            0 => show(plain.next()),
            1 => show(stable.next().map(|e| e.map(|n| n.plain()))),
            2 => show(shallow.next().map(|e| e.map(|n| n.0.plain()))),
            3 => plain.close_current().map(|n| (false, n.borrow_data().val)),
            4 => stable.close_current().map(|n| (false, n.borrow_data().val)),
            _ => shallow.close_current().map(|n| (false, n.0.borrow_data().val)),
        };
        let mut at = 0;
        for round in 0..3 {
            let steps = if rng.chance(1, 2) { rng.below(6) } else { rng.below(evs.len() - at + 2) };
            for _ in 0..steps {
                let (got, wanted) = (next(how), want.get(at).copied());
                at = (at + 1).min(evs.len());
                if got != wanted {
                    return Err(format!("[trav] depth-first traversal, nodes of which have been skipped {round} times, gives {got:?} as item {at}, specification says {wanted:?}"));
                }
            }
            let end = closing[at];
            let (got, wanted) = (next(how + 3), want.get(end).copied());
            if got != wanted {
                return Err(format!("[trav] skipping to the closing after {at} items of a depth-first traversal gives {got:?}, specification says {wanted:?}"));
            }
            at = (end + 1).min(evs.len());
        }
        Ok(())
    }

    /// Answers of single nodes.
    fn look_around(&self, r: usize, rng: &mut Rng) -> Result<(), String> {
        let evs = self.want(r);
        let top = self.real_root(r)?;
        let at: Vec<usize> = (0..4).map(|_| rng.below(evs.len())).chain([0, evs.len() - 1, evs.len() / 2]).collect();
        let picks: Vec<Ev> = at.into_iter().map(|i| Ev { open: true, ..evs[i] }).collect();
        // The parent, and the position among the siblings, of each opening.
        let mut above: Vec<usize> = Vec::new();
        let mut kids: Vec<Vec<usize>> = vec![Vec::new(); evs.len()];
        let mut parent = vec![usize::MAX; evs.len()];
        let mut depth = vec![0; evs.len()];
        for (i, e) in evs.iter().enumerate() {
            if e.open {
                if let Some(p) = above.last() {
                    parent[i] = *p;
                    kids[*p].push(i);
                }
                depth[i] = above.len();
                above.push(i);
            } else {
                above.pop();
            }
        }
        let val = |i: usize| self.val(evs[i]);
        let wanted: Vec<usize> = picks.iter().map(|e| evs.iter().position(|f| f == e).unwrap()).collect();
        let hs: Vec<(usize, N)> = top
            .depth_first_traverse()
            .enumerate()
            .filter(|(i, _)| wanted.contains(i))
            .map(|(i, e)| match e {
                DftEvent::Open(n) | DftEvent::Close(n) => (i, n),
            })
            .collect();
        for (i, n) in hs {
            let p = parent[i];
            let sib: &[usize] = if p == usize::MAX { std::slice::from_ref(&i) } else { &kids[p] };
            let k = sib.binary_search(&i).unwrap();
            let v = |n: Option<N>| n.map_or(-1, |n| n.borrow_data().val);
            let o = |i: Option<&usize>| i.map_or(-1, |i| val(*i));
            let got = (
                [v(n.parent()), v(n.prev_sibling()), v(n.next_sibling()), v(Some(n.first_sibling())), v(Some(n.last_sibling())), v(n.first_child()), v(n.last_child()), v(Some(n.root()))],
                [n.num_children(), n.children().count(), n.children_reverse().count(), n.count_preceding_siblings(), n.count_following_siblings(), n.count_ancestors(), n.siblings().count()],
                [n.is_root(), n.has_children(), n.has_one_child(), n.has_multiple_children(), n.has_prev_sibling(), n.has_next_sibling()],
            );
            let c = &kids[i];
            let want = (
                [
                    o((p != usize::MAX).then_some(&p)),
                    o(k.checked_sub(1).and_then(|k| sib.get(k))),
                    o(sib.get(k + 1)),
                    o(sib.first()),
                    o(sib.last()),
                    o(c.first()),
                    o(c.last()),
                    val(0),
                ],
                [c.len(), c.len(), c.len(), k, sib.len() - 1 - k, depth[i], sib.len()],
                [p == usize::MAX, !c.is_empty(), c.len() == 1, c.len() > 1, k > 0, k + 1 < sib.len()],
            );
            if got != want {
                return Err(format!("[nav] at {:?} {got:?}, specification says {want:?}", evs[i]));
            }
        }
        Ok(())
    }

    fn step(&mut self, e: &Edge, rng: &mut Rng) -> Result<(), String> {
        let lifted = e.extra.get("op");
        let kind = lifted.at(0).s();
        let hot = |n: N| n.bundle_new_hierarchy_edit_grant().map_err(|_| "[lock] edit grant refused although nothing prohibits edits".to_string());
        let fresh = (self.next_base * 2) << 20 | 1;
        let mut made = None;
        let out = match kind {
            "new" => Some((caught(quiet(|| Ok(Some(Any::P(Node::new_tree(Payload::new(fresh))))))), false)),
            "droptree" => {
                let o = self.obs();
                let t = lifted.at(1).u();
                let of = |h: &Hold| match h {
                    Hold::Node(x, _) | Hold::Tree(x, _) => o.get("nodes").at(x - 1).get("tree").u() == t,
                };
                let mut gone = Vec::new();
                let mut rest = Vec::new();
                for h in std::mem::take(&mut self.hold) {
                    if of(&h) {
                        gone.push(h);
                    } else {
                        rest.push(h);
                    }
                }
                self.hold = rest;
                drop_all(gone, rng)?;
                None
            }
            "clone" => {
                let x = self.find_label(lifted.at(1))?;
                Some((clone_subtree(&Any::P(x), rng.below(6)), false))
            }
            "cloneins" => {
                let (x, a) = (self.find_label(lifted.at(1))?, hot(self.find_label(lifted.at(2))?)?);
                Some(clone_insert(&Any::P(x), lifted.at(3).s(), &a, rng.below(4)))
            }
            _ => {
                let n = self.find_label(lifted.at(1))?;
                let anchor = if kind == "move" { Some(hot(self.find_label(lifted.at(2))?)?) } else { None };
                Some(if rng.chance(1, 2) {
                    let h = hot(n)?;
                    edit(lifted, Auth::Hot(&h), anchor.as_ref(), fresh, rng)
                } else {
                    let g = n.tree().grant_hierarchy_edit().map_err(|_| "[lock] edit grant refused although nothing prohibits edits")?;
                    edit(lifted, Auth::Tok(&n, &g), anchor.as_ref(), fresh, rng)
                })
            }
        };
        if let Some(((got, handle), panicking)) = out {
            if !result_matches(&e.r, &got, panicking) {
                return Err(format!("[result] the outcome is \"{got}\", specification says \"{}\"", e.r));
            }
            made = handle.map(|h| h.to_plain());
        }
        // What the new nodes are made from.
        let mut base = std::collections::BTreeMap::new();
        for (j, b) in e.born.iter().enumerate() {
            base.insert(*b, if matches!(kind, "clone" | "cloneins") {
                self.base[self.obs().get("nodes").at(e.op.at(1).u() - 1).get("pre").us()[j]]
            } else {
                [self.next_base; 2]
            });
        }
        self.next_base += 1;
        let mut new_base: Vec<[i64; 2]> = e.order.iter().map(|x| base.get(x).copied().unwrap_or_else(|| self.base[*x])).collect();
        if let [from, to] = e.extra.get("leaves").us()[..] {
            let at = e.order.iter().position(|x| *x == to).ok_or("harness: no node gets the leaves")?;
            new_base[at][1] = self.base[from][1];
        }
        if let Some(n) = made {
            self.hold.push(Hold::Node(e.born[0], Any::P(n)));
        }
        // (A Tree handle stands for the root that its tree has now.)
        let dst = &self.lts.obs[e.dst];
        let name = |x: usize| e.order.iter().position(|y| *y == x).map(|i| i + 1);
        let mut hold = Vec::new();
        let mut hollow = Vec::new();
        for h in std::mem::take(&mut self.hold) {
            match h {
                Hold::Node(x, a) => hold.push(Hold::Node(name(x).ok_or("harness: a node that is gone is held")?, a)),
                Hold::Tree(x, t) => {
                    let old = self.obs().get("nodes").at(x - 1).get("tree").u();
                    match e.torder.iter().position(|u| *u == old) {
                        Some(i) => {
                            let y = (1..=e.order.len()).find(|y| dst.get("nodes").at(y - 1).get("tree").u() == i + 1).ok_or("harness: a tree without nodes")?;
                            hold.push(Hold::Tree(y, t));
                        }
                        None => hollow.push(t),
                    }
                }
            }
        }
        quiet(move || drop(hollow)).map_err(|m| format!("[life] dropping the handle of a tree that was joined panicked: {m}"))?;
        self.hold = hold;
        self.base = [[0, 0]].into_iter().chain(new_base).collect();
        self.s = e.dst;
        Ok(())
    }
    /// Something of each tree must be held beforehand.
    fn ensure_holders(&mut self, e: &Edge) -> Result<(), String> {
        if e.op.at(0).s() == "droptree" {
            return Ok(());
        }
        for x in 1..=self.count() {
            let n = self.find(x, false, 1)?;
            self.hold.push(Hold::Node(x, Any::P(n)));
        }
        Ok(())
    }
}

/// Drops handles, in any order.  Now and then a destructor panics.
fn drop_all(mut hold: Vec<Hold>, rng: &mut Rng) -> Result<(), String> {
    let mut bomb = 0;
    if rng.chance(1, 3) {
        let alive: Vec<u64> = (1..=last_serial()).filter(|s| drops_of(*s) == 0).collect();
        if !alive.is_empty() {
            bomb = alive[rng.below(alive.len())];
            set_on_drop(Some(std::rc::Rc::new(move |s| assert!(s != bomb, "[test] a destructor panics"))));
        }
    }
    let mut panics = Vec::new();
    while !hold.is_empty() {
        let h = hold.swap_remove(rng.below(hold.len()));
        if let Err(m) = quiet(move || drop(h)) {
            panics.push(m);
        }
    }
    set_on_drop(None);
    let expected = usize::from(bomb != 0 && drops_of(bomb) == 1);
    if panics.len() == expected && panics.iter().all(|m| m.contains("[test]")) {
        return Ok(());
    }
    Err(format!("[life] dropping the last handle of a tree panicked {} times (a destructor {expected} times): {}", panics.len(), panics.join("; ")))
}

fn run(lts: &Lts, edges: &[usize], k: usize, mode: usize, rng: &mut Rng, log: &mut Log) -> Result<usize, String> {
    reset_serials();
    let s = lts.edges[edges[0]].src;
    log.note(&format!("gadgets {} of size {k}, built in way {mode}", lts.keys[s]));
    let n = lts.obs[s].get("g").arr().len();
    let mut b = std::mem::ManuallyDrop::new(Big { lts, s, k, base: (0..=n as i64).map(|b| [b, b]).collect(), next_base: n as i64 + 1, hold: Vec::new(), nodes: 0, steps: 0 });
    for r in (1..=n).filter(|x| par(&lts.obs[s], *x) == 0) {
        let w = b.want(r);
        let t = b.build(&w, mode)?;
        b.grab(r, t, rng).map_err(|e| cat("init", e))?;
    }
    b.observe(rng).map_err(|e| cat("init", e))?;
    for ei in edges {
        let e = &lts.edges[*ei];
        b.ensure_holders(e).map_err(|e| cat("init", e))?;
        log.step(&e.op, &e.r);
        let r = quiet(|| b.step(e, rng));
        r.map_err(|m| format!("[panic] {m}"))??;
        let r = quiet(|| b.regrab(rng));
        r.map_err(|m| format!("[panic] {m}"))??;
        let r = quiet(|| b.observe(rng));
        r.map_err(|m| format!("[panic] while observing: {m}"))??;
    }
    log.tag("done", "drop everything");
    let b = std::mem::ManuallyDrop::into_inner(b);
    let steps = b.steps;
    drop_all(b.hold, rng)?;
    for s in 1..=last_serial() {
        if drops_of(s) != 1 {
            return Err(format!("[life] with everything dropped, data #{s} of {} has been dropped {} times", last_serial(), drops_of(s)));
        }
    }
    Ok(steps)
}

/// The same in a thread with a small stack.
pub fn walk(lts: &Lts, edges: &[usize], k: usize, mode: usize, stack: usize, rng: &mut Rng, log: &mut Log) -> Result<usize, String> {
    struct Pass<T>(T);
    unsafe impl<T> Send for Pass<T> {}
    impl<T> Pass<T> {
        fn get(self) -> T {
            self.0
        }
    }
    std::thread::scope(|sc| {
        let p = Pass((rng, log));
        let l = Pass(lts);
        std::thread::Builder::new()
            .stack_size(stack)
            .spawn_scoped(sc, move || {
                let (rng, log) = p.get();
                match quiet(|| run(l.get(), edges, k, mode, rng, log)) {
                    Ok(r) => r,
                    Err(m) => Err(format!("[panic] {m}")),
                }
            })
            .map_err(|e| format!("harness: {e}"))?
            .join()
            .map_err(|_| "[panic] the thread died".to_string())?
    })
}
