//! Replays MCTraverse: every traversal as a window on its sequence.
use crate::json::J;
use crate::lts::Lts;
use crate::strct;
use crate::util::*;
use crate::world::*;
use crate::Log;
use dendron::traverse::*;
use std::collections::HashMap;

/// A delivered item: kind (o, c, n, -), label, depth.
pub type Item = (char, usize, usize);
pub const NOTHING: Item = ('-', 0, 0);

type Shal = DftEvent<(F, usize)>;

#[derive(Clone)]
pub enum Trav {
    Dft(DepthFirstTraverser<Payload>),
    Rdft(ReverseDepthFirstTraverser<Payload>),
    Sdft(StableDepthFirstTraverser<Payload>),
    Shallow(StableShallowDepthFirstTraverser<Payload>),
    Sib(SiblingsTraverser<Payload>),
    Rsib(ReverseSiblingsTraverser<Payload>),
    Ssib(StableSiblingsTraverser<Payload>),
    Anc(AncestorsTraverser<Payload>),
    BfsA(AllocatingBreadthFirstTraverser<Payload>),
    BfsN(NonAllocatingBreadthFirstTraverser<Payload>),
}

pub struct Names<'a>(pub &'a HashMap<u64, usize>);
impl Names<'_> {
    fn p(&self, n: &N) -> usize {
        n.try_borrow_data().ok().and_then(|d| self.0.get(&d.serial).copied()).unwrap_or(usize::MAX)
    }
    fn f(&self, n: &F) -> usize {
        n.try_borrow_data().ok().and_then(|d| self.0.get(&d.serial).copied()).unwrap_or(usize::MAX)
    }
    fn h(&self, n: &H) -> usize {
        n.try_borrow_data().ok().and_then(|d| self.0.get(&d.serial).copied()).unwrap_or(usize::MAX)
    }
    fn ev(&self, e: &DftEvent<N>) -> Item {
        match e {
            DftEvent::Open(n) => ('o', self.p(n), 0),
            DftEvent::Close(n) => ('c', self.p(n), 0),
        }
    }
    fn evf(&self, e: &DftEvent<F>) -> Item {
        match e {
            DftEvent::Open(n) => ('o', self.f(n), 0),
            DftEvent::Close(n) => ('c', self.f(n), 0),
        }
    }
    fn evh(&self, e: &DftEvent<H>) -> Item {
        match e {
            DftEvent::Open(n) => ('o', self.h(n), 0),
            DftEvent::Close(n) => ('c', self.h(n), 0),
        }
    }
    fn sh(&self, e: &Shal) -> Item {
        match e {
            DftEvent::Open((n, d)) => ('o', self.f(n), *d),
            DftEvent::Close((n, d)) => ('c', self.f(n), *d),
        }
    }
}

fn item(j: &J) -> Item {
    (j.at(0).s().chars().next().unwrap(), j.at(1).u(), j.at(2).u())
}

/// Stands for `usize::MAX` in the specification; `HUGE - 1` stands for one of `BIG`.
pub const HUGE: i64 = 1_000_000;
fn arg_of(a: i64) -> usize {
    match a {
        HUGE => usize::MAX,
        a if a == HUGE - 1 => big(),
        a => a as usize,
    }
}

impl Trav {
    pub fn new(kind: &str, arg: i64, p: &N, f: Option<&F>, alt: bool) -> Trav {
        let f = || f.expect("harness: a frozen node");
        match kind {
            "dft" if alt => Trav::Dft(DepthFirstTraverser::with_start(Some(p.clone()))),
            "dft" => Trav::Dft(p.depth_first_traverse()),
            "rdft" if alt => Trav::Rdft(ReverseDepthFirstTraverser::with_start(Some(p.clone()))),
            "rdft" => Trav::Rdft(p.depth_first_reverse_traverse()),
            "sdft" if alt => Trav::Sdft(StableDepthFirstTraverser::with_toplevel(Some(f().clone()))),
            "sdft" => Trav::Sdft(f().depth_first_traverse_stable()),
            "shallow" => {
                let max = if arg < 0 { None } else { Some(arg_of(arg)) };
                Trav::Shallow(if alt {
                    StableShallowDepthFirstTraverser::with_toplevel(Some(f().clone()), max)
                } else {
                    f().shallow_depth_first_traverse_stable(max)
                })
            }
            "children" if alt => Trav::Sib(SiblingsTraverser::new(p.first_child())),
            "children" => Trav::Sib(p.children()),
            "children_rev" if alt => Trav::Rsib(ReverseSiblingsTraverser::new(p.last_child())),
            "children_rev" => Trav::Rsib(p.children_reverse()),
            "siblings" if alt => Trav::Sib(f().siblings()),
            "siblings" => Trav::Sib(p.siblings()),
            "siblings_rev" if alt => Trav::Rsib(f().siblings_reverse()),
            "siblings_rev" => Trav::Rsib(p.siblings_reverse()),
            "prec_rev" if alt => Trav::Rsib(f().preceding_siblings_reverse()),
            "prec_rev" => Trav::Rsib(p.preceding_siblings_reverse()),
            "precself_rev" if alt => Trav::Rsib(ReverseSiblingsTraverser::new(Some(p.clone()))),
            "precself_rev" => Trav::Rsib(p.preceding_siblings_or_self_reverse()),
            "foll" if alt => Trav::Sib(f().following_siblings()),
            "foll" => Trav::Sib(p.following_siblings()),
            "follself" if alt => Trav::Sib(SiblingsTraverser::new(Some(p.clone()))),
            "follself" => Trav::Sib(p.following_siblings_or_self()),
            "anc" if alt => Trav::Anc(f().ancestors()),
            "anc" => Trav::Anc(p.ancestors()),
            "ancself" if alt => Trav::Anc(AncestorsTraverser::new(Some(p.clone()))),
            "ancself" => Trav::Anc(p.ancestors_or_self()),
            "s_children" if alt => Trav::Ssib(StableSiblingsTraverser::with_parent(Some(f().clone()))),
            "s_children" => Trav::Ssib(f().children_stable()),
            "s_siblings" => Trav::Ssib(f().siblings_stable()),
            "s_prec" => Trav::Ssib(f().preceding_siblings_stable()),
            "s_precself" => Trav::Ssib(f().preceding_siblings_or_self_stable()),
            "s_foll" => Trav::Ssib(f().following_siblings_stable()),
            "s_follself" => Trav::Ssib(f().following_siblings_or_self_stable()),
            "bfs_a" if alt => Trav::BfsA(AllocatingBreadthFirstTraverser::with_toplevel(f().clone(), arg_of(arg))),
            "bfs_a" => Trav::BfsA(f().allocating_breadth_first_traverse_stable(arg_of(arg))),
            "bfs_n" if alt => Trav::BfsN(NonAllocatingBreadthFirstTraverser::with_toplevel(f().clone(), arg_of(arg))),
            "bfs_n" => Trav::BfsN(f().non_allocating_breadth_first_traverse_stable(arg_of(arg))),
            k => panic!("harness: traversal {k}"),
        }
    }
    pub fn front(&mut self, n: &Names, op: usize) -> Item {
        // op: 0 next, k nth(k)
        macro_rules! go {
            ($t:expr, $f:expr) => {{
                let t = $t;
                (if op == 0 { t.next() } else { t.nth(op) }).map_or(NOTHING, $f)
            }};
        }
        match self {
            Trav::Dft(t) => go!(t, |e| n.ev(&e)),
            Trav::Rdft(t) => go!(t, |e| n.ev(&e)),
            Trav::Sdft(t) => go!(t, |e| n.evf(&e)),
            Trav::Shallow(t) => go!(t, |e| n.sh(&e)),
            Trav::Sib(t) => go!(t, |e| ('n', n.p(&e), 0)),
            Trav::Rsib(t) => go!(t, |e| ('n', n.p(&e), 0)),
            Trav::Ssib(t) => go!(t, |e| ('n', n.f(&e), 0)),
            Trav::Anc(t) => go!(t, |e| ('n', n.p(&e), 0)),
            Trav::BfsA(t) => go!(t, |e| ('n', n.f(&e.0), e.1)),
            Trav::BfsN(t) => go!(t, |e| ('n', n.f(&e.0), e.1)),
        }
    }
    pub fn back(&mut self, n: &Names) -> Item {
        match self {
            Trav::Sdft(t) => t.next_back().map_or(NOTHING, |e| n.evf(&e)),
            Trav::Shallow(t) => t.next_back().map_or(NOTHING, |e| n.sh(&e)),
            Trav::Ssib(t) => t.next_back().map_or(NOTHING, |e| ('n', n.f(&e), 0)),
            _ => panic!("harness: not double-ended"),
        }
    }
    pub fn close(&mut self, n: &Names) -> Item {
        match self {
            Trav::Dft(t) => t.close_current().map_or(NOTHING, |x| ('c', n.p(&x), 0)),
            Trav::Sdft(t) => t.close_current().map_or(NOTHING, |x| ('c', n.f(&x), 0)),
            Trav::Shallow(t) => t.close_current().map_or(NOTHING, |(x, d)| ('c', n.f(&x), d)),
            _ => panic!("harness: not closable"),
        }
    }
    pub fn double(&self) -> bool {
        matches!(self, Trav::Sdft(_) | Trav::Shallow(_) | Trav::Ssib(_))
    }
    pub fn peek(&self, n: &Names) -> Option<Item> {
        Some(match self {
            Trav::Dft(t) => t.peek().map_or(NOTHING, |e| n.ev(e)),
            Trav::Rdft(t) => t.peek().map_or(NOTHING, |e| n.ev(e)),
            Trav::Sdft(t) => t.peek().map_or(NOTHING, |e| n.evf(e)),
            Trav::Shallow(t) => t.peek().map_or(NOTHING, |e| n.sh(e)),
            Trav::Sib(t) => t.peek().map_or(NOTHING, |e| ('n', n.p(e), 0)),
            Trav::Rsib(t) => t.peek().map_or(NOTHING, |e| ('n', n.p(e), 0)),
            Trav::Ssib(t) => t.peek().map_or(NOTHING, |e| ('n', n.f(e), 0)),
            Trav::Anc(t) => t.peek().map_or(NOTHING, |e| ('n', n.p(e), 0)),
            Trav::BfsA(t) => t.peek().map_or(NOTHING, |e| ('n', n.f(&e.0), e.1)),
            Trav::BfsN(_) => return None,
        })
    }
    pub fn peek_back(&self, n: &Names) -> Option<Item> {
        match self {
            Trav::Sdft(t) => Some(t.peek_back().map_or(NOTHING, |e| n.evf(e))),
            Trav::Shallow(t) => Some(t.peek_back().map_or(NOTHING, |e| n.sh(e))),
            Trav::Ssib(t) => Some(t.peek_back().map_or(NOTHING, |e| ('n', n.f(e), 0))),
            _ => None,
        }
    }
    pub fn size_hint(&self) -> (usize, Option<usize>) {
        match self {
            Trav::Dft(t) => t.size_hint(),
            Trav::Rdft(t) => t.size_hint(),
            Trav::Sdft(t) => t.size_hint(),
            Trav::Shallow(t) => t.size_hint(),
            Trav::Sib(t) => t.size_hint(),
            Trav::Rsib(t) => t.size_hint(),
            Trav::Ssib(t) => t.size_hint(),
            Trav::Anc(t) => t.size_hint(),
            Trav::BfsA(t) => t.size_hint(),
            Trav::BfsN(t) => t.size_hint(),
        }
    }
    pub fn buffer(&mut self, rng: &mut Rng) -> Result<(), String> {
        if let Trav::BfsA(t) = self {
            match rng.below(4) {
                0 => t.shrink_to_fit(),
                1 => t.shrink_to(rng.below(8)),
                2 => {
                    t.shrink_to(5);
                    let _ = t.capacity();
                }
                _ => {}
            }
        }
        Ok(())
    }
    /// Everything that is left, from the front, or from the back.
    pub fn drain(mut self, n: &Names, back: bool, cap: usize) -> Vec<Item> {
        let mut v = Vec::new();
        while v.len() <= cap {
            let i = if back { self.back(n) } else { self.front(n, 0) };
            if i == NOTHING {
                break;
            }
            v.push(i);
        }
        v
    }
    /// The depth limit announced, as in the specification.
    pub fn limit(&self) -> Option<i64> {
        match self {
            Trav::Shallow(t) => Some(match t.max_depth() {
                usize::MAX => HUGE,
                d if BIG.contains(&d) => HUGE - 1,
                d => d.min(HUGE as usize - 2) as i64,
            }),
            _ => None,
        }
    }
    /// The whole-iterator adaptors (which implementations may override).
    /// (To be called once `drain` has shown that the traversal ends.)
    fn adaptors(&self, n: &Names, rest: &[Item], rng: &mut Rng) -> Result<(), String> {
        let left = rest.len();
        macro_rules! ad {
            ($t:expr, $f:expr) => {{
                let t = $t.clone();
                match rng.below(6) {
                    0 => {
                        let c = t.count();
                        if c != left { return Err(format!("count() is {c}, {left} items are left")); }
                    }
                    1 => {
                        let l = t.last().map_or(NOTHING, $f);
                        if l != rest.last().copied().unwrap_or(NOTHING) { return Err(format!("last() is {l:?}, specification says {rest:?}")); }
                    }
                    2 => {
                        let l: Vec<Item> = t.map($f).collect();
                        if l != rest { return Err(format!("collecting gives {l:?}, specification says {rest:?}")); }
                    }
                    3 => {
                        let mut l = Vec::new();
                        t.for_each(|e| l.push($f(e)));
                        if l != rest { return Err(format!("for_each visits {l:?}, specification says {rest:?}")); }
                    }
                    4 => {
                        // Some of it, then the remainder of the same traversal.
                        let mut t = t;
                        let k = rng.below(left + 1);
                        let mut l: Vec<Item> = t.by_ref().take(k).map($f).collect();
                        l.extend(t.map($f));
                        if l != rest { return Err(format!("by_ref().take({k}) and the remainder give {l:?}, specification says {rest:?}")); }
                    }
                    _ => {
                        let mut t = t;
                        let k = rng.below(left + 2);
                        let i = t.nth(k).map_or(NOTHING, $f);
                        if i != rest.get(k).copied().unwrap_or(NOTHING) { return Err(format!("nth({k}) is {i:?}, specification says {rest:?}")); }
                        let l: Vec<Item> = t.map($f).collect();
                        if l != rest[(k + 1).min(left)..] { return Err(format!("after nth({k}) there is left {l:?}, specification says {rest:?}")); }
                    }
                }
            }};
        }
        match self {
            Trav::Dft(t) => ad!(t, |e| n.ev(&e)),
            Trav::Rdft(t) => ad!(t, |e| n.ev(&e)),
            Trav::Sdft(t) => ad!(t, |e| n.evf(&e)),
            Trav::Shallow(t) => ad!(t, |e| n.sh(&e)),
            Trav::Sib(t) => ad!(t, |e| ('n', n.p(&e), 0)),
            Trav::Rsib(t) => ad!(t, |e| ('n', n.p(&e), 0)),
            Trav::Ssib(t) => ad!(t, |e| ('n', n.f(&e), 0)),
            Trav::Anc(t) => ad!(t, |e| ('n', n.p(&e), 0)),
            Trav::BfsA(t) => ad!(t, |e: (F, usize)| ('n', n.f(&e.0), e.1)),
            Trav::BfsN(t) => ad!(t, |e: (F, usize)| ('n', n.f(&e.0), e.1)),
        }
        macro_rules! back {
            ($t:expr, $f:expr) => {{
                let t = $t.clone();
                let mut want: Vec<Item> = rest.to_vec();
                want.reverse();
                match rng.below(4) {
                    0 => {
                        let l: Vec<Item> = t.rev().map($f).collect();
                        if l != want { return Err(format!("rev() gives {l:?}, specification says {want:?}")); }
                    }
                    1 => {
                        let l = t.rfold(Vec::new(), |mut v, e| { v.push($f(e)); v });
                        if l != want { return Err(format!("rfold() visits {l:?}, specification says {want:?}")); }
                    }
                    2 => {
                        let mut t = t;
                        let k = rng.below(left + 2);
                        let i = t.nth_back(k).map_or(NOTHING, $f);
                        if i != want.get(k).copied().unwrap_or(NOTHING) { return Err(format!("nth_back({k}) is {i:?}, specification says {want:?}")); }
                        let l: Vec<Item> = t.map($f).collect();
                        if l != rest[..left.saturating_sub(k + 1)] { return Err(format!("after nth_back({k}) there is left {l:?}, specification says {rest:?}")); }
                    }
                    _ => {
                        let mut t = t;
                        let k = rng.below(left + 1);
                        let mut l: Vec<Item> = t.by_ref().take(k).map($f).collect();
                        let mut m: Vec<Item> = t.rev().map($f).collect();
                        m.reverse();
                        l.extend(m);
                        if l != rest { return Err(format!("{k} items from the front and the others from the back are {l:?}, specification says {rest:?}")); }
                    }
                }
            }};
        }
        match self {
            Trav::Sdft(t) => back!(t, |e| n.evf(&e)),
            Trav::Shallow(t) => back!(t, |e| n.sh(&e)),
            Trav::Ssib(t) => back!(t, |e| ('n', n.f(&e), 0)),
            _ => {}
        }
        Ok(())
    }
}

/// Observations of a parent vector, as far as `strct::materialize` needs them.
pub fn obs_of_par(par: &[usize]) -> J {
    let n = par.len();
    let mut tree = vec![0; n + 1];
    let mut nt = 0;
    J::Arr(
        (1..=n)
            .map(|x| {
                let p = par[x - 1];
                tree[x] = if p == 0 {
                    nt += 1;
                    nt
                } else {
                    tree[p]
                };
                let kids = (1..=n).filter(|k| par[k - 1] == x).map(|k| J::Num(k as i64)).collect();
                J::Obj(vec![
                    ("parent".into(), J::Num(p as i64)),
                    ("tree".into(), J::Num(tree[x] as i64)),
                    ("kids".into(), J::Arr(kids)),
                ])
            })
            .collect(),
    )
}

pub struct Runner<'a> {
    pub lts: &'a Lts,
    pub names: Names<'a>,
    pub steps: usize,
    budget: usize,
    pub ps: Vec<Option<N>>,
    pub fs: Vec<Option<F>>,
    pub hs: Vec<Option<H>>,
}

impl Runner<'_> {
    fn look(&mut self, t: &Trav, s: usize, rng: &mut Rng, deep: bool) -> Result<(), String> {
        let o = &self.lts.obs[s];
        let n = &self.names;
        if let Some(p) = t.peek(n) {
            if p != item(o.get("peek")) {
                return Err(format!("peek() announces {p:?}, specification says {:?}", item(o.get("peek"))));
            }
        }
        if let Some(p) = t.peek_back(n) {
            if p != item(o.get("back")) {
                return Err(format!("peek_back() announces {p:?}, specification says {:?}", item(o.get("back"))));
            }
        }
        if let Some(d) = t.limit() {
            let want = match o.get("arg").n() {
                d if d < 0 => HUGE,
                d => d,
            };
            if d != want {
                return Err(format!("max_depth() is {d}, specification says {want} ({HUGE} stands for usize::MAX)"));
            }
        }
        let rest: Vec<Item> = o.get("rest").arr().iter().map(item).collect();
        let (lo, hi) = t.size_hint();
        if lo > rest.len() || hi.is_some_and(|h| h < rest.len()) {
            return Err(format!("size_hint() is {:?}, but {} items are left", (lo, hi), rest.len()));
        }
        if deep {
            let cap = 4 * rest.len() + 8;
            let v = t.clone().drain(n, false, cap);
            if v != rest {
                return Err(format!("a clone delivers {v:?}, specification says {rest:?}"));
            }
            if t.double() {
                let mut v = t.clone().drain(n, true, cap);
                v.reverse();
                if v != rest {
                    return Err(format!("a clone delivers, from the back, {v:?}, specification says {rest:?}"));
                }
            }
            t.adaptors(n, &rest, rng)?;
            self.steps += rest.len();
        }
        Ok(())
    }
    /// One operation; the traversal is then in the returned state.
    fn go(&mut self, t: &mut Trav, e: usize, log: &mut Log) -> Result<usize, String> {
        let e = &self.lts.edges[e];
        self.steps += 1;
        let op = e.op.at(0).s();
        let got = match op {
            "next" => t.front(&self.names, 0),
            "nth1" => t.front(&self.names, 1),
            "nth2" => t.front(&self.names, 2),
            "next_back" => t.back(&self.names),
            "close" => t.close(&self.names),
            o => return Err(format!("harness: {o}")),
        };
        let want = item(&e.extra);
        if got != want {
            log.step(&e.op, &format!("{got:?}"));
            return Err(format!("{op} delivers {got:?}, specification says {want:?}"));
        }
        Ok(e.dst)
    }
    /// All interleavings, by cloning at every step, as long as the budget lasts.
    fn explore(&mut self, t: &Trav, s: usize, rng: &mut Rng, log: &mut Log, path: &mut Vec<usize>) -> Result<(), String> {
        let deep = path.len() < 4 || rng.chance(1, 16);
        self.look(t, s, rng, deep)?;
        let lts = self.lts;
        for &e in &lts.out[s] {
            if self.budget == 0 {
                return Ok(());
            }
            self.budget -= 1;
            let mut c = t.clone();
            path.push(e);
            let d = self.go(&mut c, e, log)?;
            if d == s {
                // Exhausted: stays so.
                for &e in &lts.out[s] {
                    self.go(&mut c, e, log)?;
                }
            } else {
                self.explore(&c, d, rng, log, path)?;
            }
            path.pop();
            if rng.chance(1, 32) {
                self.look(t, s, rng, true)?;
            }
        }
        Ok(())
    }
    /// A random use without clones.
    fn random(&mut self, mut t: Trav, mut s: usize, rng: &mut Rng, log: &mut Log, path: &mut Vec<usize>) -> Result<(), String> {
        let lts = self.lts;
        let mut idle = 0;
        path.clear();
        while !lts.out[s].is_empty() && idle < 3 {
            let o = &lts.out[s];
            // Single steps mostly.
            let mut e = o[rng.below(o.len())];
            for _ in 0..3 {
                if !lts.edges[e].op.at(0).s().starts_with("next") {
                    e = o[rng.below(o.len())];
                }
            }
            path.push(e);
            let d = self.go(&mut t, e, log)?;
            if d == s {
                idle += 1;
            }
            s = d;
            t.buffer(rng)?;
            if rng.chance(1, 2) {
                self.look(&t, s, rng, false)?;
            }
            if rng.chance(1, 8) {
                // Continue with a clone.
                t = t.clone();
            }
        }
        self.look(&t, s, rng, true)
    }
    /// Traversals that are created in the middle.
    fn resumed(&mut self, s: usize) -> Option<Trav> {
        let o = &self.lts.obs[s];
        let x = o.get("x").u();
        if o.get("rest").arr().is_empty() {
            return None;
        }
        let (pk, bk) = (item(o.get("peek")), item(o.get("back")));
        let ev = |i: Item| {
            let n = self.ps[i.1].clone().unwrap();
            if i.0 == 'o' { DftEvent::Open(n) } else { DftEvent::Close(n) }
        };
        let evf = |i: Item| {
            let n = self.fs[i.1].clone().unwrap();
            if i.0 == 'o' { DftEvent::Open(n) } else { DftEvent::Close(n) }
        };
        let start = self.ps[x].clone().unwrap();
        match o.get("kind").s() {
            "dft" if o.get("toend").b() => Some(Trav::Dft(DepthFirstTraverser::with_next_event(start, Some(ev(pk))))),
            "rdft" if o.get("toend").b() => Some(Trav::Rdft(ReverseDepthFirstTraverser::with_next_event(start, Some(ev(pk))))),
            "sdft" => Some(Trav::Sdft(StableDepthFirstTraverser::with_first_last_event(evf(pk), evf(bk)))),
            "siblings" | "children" | "foll" | "follself" => Some(Trav::Sib(SiblingsTraverser::new(self.ps[pk.1].clone()))),
            "siblings_rev" | "children_rev" | "prec_rev" | "precself_rev" => Some(Trav::Rsib(ReverseSiblingsTraverser::new(self.ps[pk.1].clone()))),
            "anc" | "ancself" => Some(Trav::Anc(AncestorsTraverser::new(self.ps[pk.1].clone()))),
            _ => None,
        }
    }
    /// `DftEvent::{next, prev, close_current}` on the events of the whole tree.
    fn events(&mut self, states: &[usize]) -> Result<(), String> {
        let lts = self.lts;
        // By position: state (i, L) of the root's sequence.
        let mut seq: Vec<(usize, usize)> = states.iter().map(|s| (lts.obs[*s].get("rest").arr().len(), *s)).collect();
        seq.sort();
        seq.reverse();
        for k in 0..seq.len() {
            let s = seq[k].1;
            if seq[k].0 == 0 {
                continue;
            }
            let cur = item(lts.obs[s].get("peek"));
            let next = item(lts.obs[seq[k + 1].1].get("peek"));
            let prev = if k == 0 { NOTHING } else { item(lts.obs[seq[k - 1].1].get("peek")) };
            let close = lts.out[seq[k + 1].1].iter().find(|e| lts.edges[**e].op.at(0).s() == "close").map(|e| item(&lts.edges[*e].extra));
            let n = &self.names;
            macro_rules! go {
                ($v:expr, $ev:ident, $lab:ident) => {{
                    let h = $v[cur.1].clone().unwrap();
                    let e = if cur.0 == 'o' { DftEvent::Open(h) } else { DftEvent::Close(h) };
                    let (a, b) = (e.next().map_or(NOTHING, |e| n.$ev(&e)), e.prev().map_or(NOTHING, |e| n.$ev(&e)));
                    if a != next {
                        return Err(format!("DftEvent {cur:?}.next() is {a:?}, specification says {next:?}"));
                    }
                    if b != prev {
                        return Err(format!("DftEvent {cur:?}.prev() is {b:?}, specification says {prev:?}"));
                    }
                    if let Some(c) = close {
                        let got = e.close_current().map_or(NOTHING, |x| ('c', n.$lab(&x), 0));
                        if got != c {
                            return Err(format!("DftEvent {cur:?}.close_current() is {got:?}, specification says {c:?}"));
                        }
                    }
                    if e.as_value().clone().ptr_eq(&$v[cur.1].clone().unwrap()) != true || e.clone().into_open().is_some() != (cur.0 == 'o') || e.clone().into_close().is_some() != (cur.0 == 'c') {
                        return Err(format!("DftEvent {cur:?}: accessors disagree"));
                    }
                    let mut m = e.clone().map(|h| Some(h));
                    let was = m.as_value_mut().take();
                    if was.map(|h| n.$lab(&h)) != Some(cur.1) || m.as_value().is_some() || n.$lab(&e.clone().into_value()) != cur.1 || (m.into_open().is_some() && cur.0 == 'c') {
                        return Err(format!("DftEvent {cur:?}: accessors disagree"));
                    }
                    self.steps += 3;
                }};
            }
            go!(self.ps, ev, p);
            go!(self.fs, evf, f);
        }
        Ok(())
    }
    fn events_hot(&mut self, states: &[usize]) -> Result<(), String> {
        // The same with hot nodes: the frozen ones have to go first.
        self.fs.iter_mut().for_each(|f| *f = None);
        for x in 1..self.ps.len() {
            self.hs[x] = Some(self.ps[x].clone().unwrap().bundle_new_hierarchy_edit_grant().map_err(|_| "grant refused")?);
        }
        let lts = self.lts;
        let mut seq: Vec<(usize, usize)> = states.iter().map(|s| (lts.obs[*s].get("rest").arr().len(), *s)).collect();
        seq.sort();
        seq.reverse();
        for k in 0..seq.len() {
            if seq[k].0 == 0 {
                continue;
            }
            let cur = item(lts.obs[seq[k].1].get("peek"));
            let next = item(lts.obs[seq[k + 1].1].get("peek"));
            let prev = if k == 0 { NOTHING } else { item(lts.obs[seq[k - 1].1].get("peek")) };
            let close = lts.out[seq[k + 1].1].iter().find(|e| lts.edges[**e].op.at(0).s() == "close").map_or(NOTHING, |e| item(&lts.edges[*e].extra));
            let n = &self.names;
            let h = self.hs[cur.1].clone().unwrap();
            let e = if cur.0 == 'o' { DftEvent::Open(h) } else { DftEvent::Close(h) };
            let got = (
                e.next().map_or(NOTHING, |e| n.evh(&e)),
                e.prev().map_or(NOTHING, |e| n.evh(&e)),
                e.close_current().map_or(NOTHING, |x| ('c', n.h(&x), 0)),
            );
            if got != (next, prev, close) {
                return Err(format!("DftEvent {cur:?} of a hot node: next, prev, close_current are {got:?}, specification says {:?}", (next, prev, close)));
            }
            self.steps += 3;
        }
        self.hs.iter_mut().for_each(|f| *f = None);
        Ok(())
    }
}

pub fn props_of(kind: &str) -> &'static str {
    match kind {
        "dft" | "rdft" | "event" => "trav:dft",
        "sdft" => "trav:sdft",
        "shallow" => "trav:shallow",
        "bfs_a" | "bfs_n" => "trav:bfs",
        k if k.starts_with("s_") => "trav:ssib",
        _ => "trav:sib",
    }
}

/// All traversals of one tree and start node. `states`: the states of the case, first state first.
pub fn case(lts: &Lts, cases: &[(usize, Vec<usize>)], budget: usize, randoms: usize, rng: &mut Rng, log: &mut Log) -> Result<usize, String> {
    reset_serials();
    let par = lts.obs[cases[0].0].get("par").us();
    let obs = obs_of_par(&par);
    let mode = rng.below(strct::MODES);
    log.note(&format!("tree {par:?} built in mode {mode}"));
    let w = std::mem::ManuallyDrop::new(strct::materialize(&obs, mode, rng)?);
    let n = par.len();
    let mut steps = 0;
    for (first, states) in cases {
        let o = &lts.obs[*first];
        let (kind, x, arg) = (o.get("kind").s(), o.get("x").u(), o.get("arg").n());
        let mut r = Runner { lts, names: Names(&w.lab), steps: 0, budget, ps: vec![None; n + 1], fs: vec![None; n + 1], hs: vec![None; n + 1] };
        for y in 1..=n {
            let p = w.plain(y)?;
            r.fs[y] = Some(p.clone().bundle_new_hierarchy_edit_prohibition().map_err(|_| "[lock] prohibition refused")?);
            r.ps[y] = Some(p);
        }
        let mut path: Vec<usize> = Vec::new();
        let res = (|| -> Result<(), String> {
            log.tag(props_of(kind), &format!("traversal {kind} from node {x} argument {arg}"));
            for alt in [false, true] {
                let t = Trav::new(kind, arg, r.ps[x].as_ref().unwrap(), r.fs[x].as_ref(), alt);
                if alt == (steps % 2 == 0) {
                    r.explore(&t, *first, rng, log, &mut path)?;
                } else {
                    r.look(&t, *first, rng, true)?;
                }
                for _ in 0..randoms {
                    r.random(t.clone(), *first, rng, log, &mut path)?;
                }
                if rng.chance(1, 2) {
                    r.random(t, *first, rng, log, &mut path)?;
                }
            }
            for &s in states {
                path.clear();
                if let Some(t) = r.resumed(s) {
                    log.tag(props_of(kind), &format!("resumed at {}", lts.keys[s]));
                    r.look(&t, s, rng, true)?;
                    r.random(t, s, rng, log, &mut path)?;
                }
            }
            if kind == "dft" && par[x - 1] == 0 {
                log.tag("trav:dft", "events");
                let all: Vec<usize> = states.iter().copied().filter(|s| lts.obs[*s].get("toend").b()).collect();
                r.events(&all)?;
                r.events_hot(&all)?;
            }
            Ok(())
        })();
        if let Err(e) = res {
            for p in path.iter().take(60) {
                log.note(&format!("  {} -> {}", lts.edges[*p].op.at(0).s(), lts.edges[*p].extra));
            }
            return Err(format!("[trav] {kind} from node {x} (argument {arg}) of {par:?}: {e}"));
        }
        steps += r.steps;
    }
    // Traversals of nothing.
    log.tag("trav:dft", "traversals of nothing");
    let none = DepthFirstTraverser::<Payload>::with_start(None).next().is_none()
        && DepthFirstTraverser::<Payload>::with_next_event(w.plain(1)?, None).next().is_none()
        && ReverseDepthFirstTraverser::<Payload>::with_start(None).next().is_none()
        && ReverseDepthFirstTraverser::<Payload>::with_next_event(w.plain(1)?, None).next().is_none()
        && StableDepthFirstTraverser::<Payload>::with_toplevel(None).next_back().is_none()
        && StableShallowDepthFirstTraverser::<Payload>::with_toplevel(None, Some(0)).next().is_none()
        && StableSiblingsTraverser::<Payload>::with_parent(None).next().is_none()
        && SiblingsTraverser::<Payload>::new(None).next().is_none()
        && ReverseSiblingsTraverser::<Payload>::new(None).next().is_none()
        && AncestorsTraverser::<Payload>::new(None).next().is_none();
    if !none {
        return Err("[trav] a traversal of nothing delivers something".into());
    }
    // Nothing has changed, and nothing stays locked or alive.
    let w = std::mem::ManuallyDrop::into_inner(w);
    let full = J::Arr(obs.arr().to_vec());
    w.observe_locks(&J::Null, &full).map_err(|e| cat("lock", e))?;
    w.finish(rng)?;
    for (first, _) in cases {
        steps += lone(lts, *first, &obs, rng, log)?;
    }
    Ok(steps)
}

/// A traversal that is the only thing that refers to its tree: it keeps the tree alive, and
/// prohibits edits if it is a stable one, as long as something is left to be delivered.
fn lone(lts: &Lts, first: usize, obs: &J, rng: &mut Rng, log: &mut Log) -> Result<usize, String> {
    reset_serials();
    let o = &lts.obs[first];
    let (kind, x, arg) = (o.get("kind").s(), o.get("x").u(), o.get("arg").n());
    log.tag(props_of(kind), &format!("traversal {kind} from node {x} argument {arg}, with no other handle"));
    let mut w = std::mem::ManuallyDrop::new(strct::materialize(obs, rng.below(strct::MODES), rng)?);
    let n = w.nodes.len();
    let lab = w.lab.clone();
    let weak = w.rec(x).weak.clone();
    let mut t = {
        let p = w.plain(x)?;
        let f = p.clone().bundle_new_hierarchy_edit_prohibition().map_err(|_| "[lock] prohibition refused")?;
        Trav::new(kind, arg, &p, Some(&f), rng.chance(1, 2))
    };
    let mut old = Vec::new();
    for y in 1..n {
        old.append(&mut w.rec_mut(y).p);
    }
    quiet(move || drop(old)).map_err(|e| format!("[life] dropping handles panicked: {e}"))?;
    let stable = matches!(t, Trav::Sdft(_) | Trav::Shallow(_) | Trav::Ssib(_) | Trav::BfsA(_) | Trav::BfsN(_));
    let mut s = first;
    let mut steps = 0;
    loop {
        if lts.obs[s].get("rest").arr().is_empty() {
            break;
        }
        {
            let Some(h) = weak.upgrade() else {
                return Err(format!("[life] the tree is gone although the {kind} traversal is not at its end"));
            };
            let tree = h.tree();
            let grant = tree.grant_hierarchy_edit().is_ok();
            let prohibit = tree.prohibit_hierarchy_edit().is_ok();
            if (grant, prohibit) != (!stable, true) {
                return Err(format!("[lock] with a {kind} traversal under way, edits can be (granted, prohibited): {:?}, specification says {:?}", (grant, prohibit), (!stable, true)));
            }
        }
        for y in 1..n {
            let d = drops_of(w.rec(y).serial);
            if d != 0 {
                return Err(format!("[life] the data of node {y} has been dropped although the {kind} traversal is not at its end"));
            }
        }
        if rng.chance(1, 5) {
            t = t.clone();
        }
        if rng.chance(1, 6) {
            break;
        }
        let mut r = Runner { lts, names: Names(&lab), steps: 0, budget: 0, ps: vec![], fs: vec![], hs: vec![] };
        let es = &lts.out[s];
        s = r.go(&mut t, es[rng.below(es.len())], log).map_err(|e| format!("[trav] {kind} from node {x} (argument {arg}), the only reference to its tree: {e}"))?;
        steps += 1;
    }
    quiet(move || drop(t)).map_err(|e| format!("[life] dropping a traversal panicked: {e}"))?;
    std::mem::ManuallyDrop::into_inner(w).finish(rng)?;
    Ok(steps)
}
