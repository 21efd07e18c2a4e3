//! Records long random histories of the real library, for TLC to check against Trace.tla.
use crate::builder;
use crate::cursors::Cur;
use crate::data::{self, Br, Held};
use crate::handles::{self, Made};
use crate::json::{esc, J};
use crate::trav::{Item, Names, Trav, HUGE, NOTHING};
use crate::util::*;
use crate::world::*;
use crate::Log;
use dendron::serial::{Event, TreeBuilder};
use dendron::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;

const UNKNOWN: usize = 999_999;

/// How often what is done, and asked.
#[derive(Clone)]
pub struct Profile {
    pub target: usize,
    pub steps: usize,
    pub vals: usize,
    pub every: usize,
    pub queries: usize,
    /// What trees look like: as it comes, wide, deep, or both.
    pub shape: usize,
    pub w: Vec<(&'static str, usize)>,
    pub q: Vec<(&'static str, usize)>,
}

const OPS: [(&str, usize); 21] = [
    ("new", 3), ("create", 16), ("detach", 5), ("move", 10), ("interrupt", 5), ("replace", 6), ("clone", 3), ("handle", 8), ("drop", 6),
    ("lock", 8), ("token", 6), ("wrong", 2), ("tree", 3), ("data", 5), ("cursor", 5), ("build", 3), ("fault", 1), ("bulk", 1), ("droptree", 1),
    ("freeze", 3), ("calm", 2),
];
const QUERIES: [(&str, usize); 9] =
    [("dft", 4), ("bfs", 4), ("sib", 3), ("double", 4), ("eq", 3), ("same", 2), ("events", 2), ("pretty", 2), ("descend", 1)];

impl Profile {
    pub fn random(focus: &str, deep: bool, rng: &mut Rng) -> Profile {
        let mut w = OPS.to_vec();
        let mut q = QUERIES.to_vec();
        let (ops, qs): (&[&str], &[&str]) = match focus {
            "C02" => (&["create"], &[]),
            "C03" => (&["detach", "move"], &[]),
            "C04" => (&["interrupt", "replace"], &[]),
            "C05" => (&["move", "replace", "fault", "data"], &[]),
            "C06" => (&["tree", "detach", "move", "replace"], &["same"]),
            "C07" => (&["lock", "token", "bulk", "freeze"], &[]),
            "C08" => (&["lock", "token", "detach", "move", "replace", "freeze"], &[]),
            "C09" => (&["wrong", "token", "freeze"], &[]),
            "C10" => (&["drop", "handle", "tree", "cursor", "bulk", "detach"], &[]),
            "C11" => (&["create", "calm"], &["dft"]),
            "C12" => (&["create", "calm"], &["double"]),
            "C13" => (&["create"], &["sib"]),
            "C14" => (&["create", "calm"], &["bfs"]),
            "C15" => (&["build", "create"], &["events"]),
            "C16" => (&["clone", "fault", "data"], &[]),
            "C17" => (&["clone", "data"], &["eq"]),
            "C18" => (&["data", "clone"], &[]),
            "C19" => (&["cursor", "detach", "move", "replace"], &[]),
            "C20" => (&["create"], &["pretty"]),
            _ => (&[], &["descend", "same"]),
        };
        for (k, n) in &mut w {
            if ops.contains(k) {
                *n *= 4;
            }
            // Now and then something is left out, or prevails.
            match rng.below(12) {
                0 => *n = 0,
                1 => *n *= 4,
                _ => {}
            }
        }
        if w.iter().find(|e| e.0 == "create").unwrap().1 == 0 {
            w[1].1 = 8;
        }
        if w[0].1 == 0 {
            w[0].1 = 2;
        }
        for (k, n) in &mut q {
            if qs.contains(k) {
                *n *= 8;
            }
        }
        let asks = !qs.is_empty();
        let target = if asks { [6, 10, 16, 28][rng.below(4)] } else { [4, 7, 10, 14, 20][rng.below(5)] };
        let scale = if deep { 3 } else { 1 };
        Profile {
            target,
            steps: [40, 80, 120][rng.below(3)] * scale,
            vals: [1, 2, 3][rng.below(3)],
            every: [1, 4, 10][rng.below(3)],
            queries: if asks { 3 } else { 1 },
            shape: rng.below(4),
            w,
            q,
        }
    }
}

fn weighted<'a>(v: &[(&'a str, usize)], rng: &mut Rng) -> &'a str {
    let total: usize = v.iter().map(|e| e.1).sum();
    let mut k = rng.below(total.max(1));
    for (n, w) in v {
        if k < *w {
            return n;
        }
        k -= w;
    }
    v[0].0
}

#[derive(Default)]
struct Outcome {
    r: String,
    panicking: bool,
    vals: Vec<i64>,
    ret: usize,
    born: Vec<usize>,
    x: Option<(char, usize)>,
}

pub struct Recorder<'a> {
    w: World,
    /// Trees with living nodes.
    live: Vec<usize>,
    curs: BTreeMap<usize, Cur>,
    /// Trees that must not be looked at through hot or frozen views in between are none: all may.
    held: Vec<Held>,
    wrote: BTreeMap<usize, bool>,
    next_cursor: usize,
    out: String,
    steps: usize,
    stop: bool,
    p: Profile,
    rng: &'a mut Rng,
    log: &'a mut Log,
}

fn list<T: std::fmt::Display>(v: impl IntoIterator<Item = T>) -> String {
    let mut s = String::from("[");
    for (i, x) in v.into_iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "{x}");
    }
    s.push(']');
    s
}
fn pair(i: Option<(char, usize)>) -> String {
    i.map_or("[]".into(), |(k, x)| format!("[\"{k}\",{x}]"))
}
fn result(got: &str) -> String {
    if got.starts_with("panic: [precondition]") {
        "pre".into()
    } else if got.starts_with("panic") {
        "panic".into()
    } else {
        got.into()
    }
}

impl Recorder<'_> {
    fn nodes(&self) -> Vec<usize> {
        (1..self.w.nodes.len()).filter(|x| self.w.nodes[*x].is_some()).collect()
    }
    fn some_node(&mut self) -> Option<usize> {
        let v = self.nodes();
        (!v.is_empty()).then(|| v[self.rng.below(v.len())])
    }
    /// A node of which a handle of this kind is held.
    fn holder(&mut self, kind: &str) -> Option<usize> {
        let w = &self.w;
        let v: Vec<usize> = self.nodes().into_iter().filter(|x| self.held_of(w, kind, *x) > 0).collect();
        (!v.is_empty()).then(|| v[self.rng.below(v.len())])
    }
    fn held_of(&self, w: &World, kind: &str, x: usize) -> usize {
        let r = w.rec(x);
        match kind {
            "p" => r.p.len(),
            "h" => r.h.len(),
            _ => r.f.len(),
        }
    }
    fn kinds(&self, x: usize) -> Vec<&'static str> {
        ["p", "h", "f"].into_iter().filter(|k| self.held_of(&self.w, k, x) > 0).collect()
    }
    fn tree_label(&self, t: &Tree<Payload>) -> usize {
        self.live.iter().copied().find(|i| self.w.trees[*i].weak.as_ref().and_then(TreeWeak::upgrade).is_some_and(|u| u.ptr_eq(t))).unwrap_or(UNKNOWN)
    }
    fn label(&self, n: &N) -> usize {
        match self.w.label(n) {
            usize::MAX => UNKNOWN,
            x => x,
        }
    }
    fn tree_of(&self, x: usize) -> usize {
        if self.w.nodes.get(x).is_none_or(Option::is_none) {
            return UNKNOWN;
        }
        self.w.plain(x).ok().map_or(UNKNOWN, |n| self.tree_label(&n.tree()))
    }
    fn fresh(&self, used: &[usize]) -> usize {
        (1..).find(|i| !used.contains(i)).unwrap()
    }
    /// Gives a name to a node that should be new.
    fn name(&mut self, h: &N) -> Result<usize, String> {
        let (serial, val) = match h.try_borrow_data() {
            Ok(d) => (d.serial, d.val),
            Err(_) => return Ok(self.label(h)),
        };
        if let Some(x) = self.w.lab.get(&serial) {
            return Ok(*x);
        }
        let x = self.fresh(&self.nodes());
        if self.w.nodes.len() <= x {
            self.w.nodes.resize_with(x + 1, || None);
        }
        self.w.nodes[x] = Some(NodeRec { weak: h.downgrade(), serial, val, p: vec![], h: vec![], f: vec![] });
        self.w.lab.insert(serial, x);
        Ok(x)
    }

    /// What has become of nodes and trees. Returns what no specification allows.
    fn settle(&mut self) -> Result<Option<(String, String)>, String> {
        let mut bad = None;
        let used = self.live.clone();
        let mut members: BTreeMap<usize, usize> = BTreeMap::new();
        let mut al = Vec::new();
        for x in self.nodes() {
            let r = self.w.rec(x);
            match r.weak.upgrade() {
                Some(n) => {
                    if drops_of(r.serial) != 0 {
                        bad = Some(("life".to_string(), format!("data of living node {x} has been dropped")));
                    }
                    let t = n.tree();
                    let mut i = self.tree_label(&t);
                    if i == UNKNOWN {
                        let all: Vec<usize> = used.iter().chain(self.live.iter()).copied().collect();
                        i = self.fresh(&all);
                        if self.w.trees.len() <= i {
                            self.w.trees.resize_with(i + 1, TreeRec::default);
                        }
                        self.w.trees[i] = TreeRec { weak: Some(t.downgrade()), ..TreeRec::default() };
                        self.live.push(i);
                    }
                    *members.entry(i).or_default() += 1;
                    al.push((x, i));
                }
                None => {
                    let r = self.w.nodes[x].take().unwrap();
                    if !(r.p.is_empty() && r.h.is_empty() && r.f.is_empty()) {
                        bad = Some(("life".to_string(), format!("a weak reference to node {x} does not upgrade although handles of it are held")));
                        std::mem::forget((r.p, r.h, r.f));
                    }
                    self.w.lab.remove(&r.serial);
                    self.w.graves.push((r.weak, r.serial));
                }
            }
        }
        for t in self.live.clone() {
            if !members.contains_key(&t) {
                self.live.retain(|u| *u != t);
                let r = std::mem::take(&mut self.w.trees[t]);
                if r.th.is_empty() {
                    self.w.tree_graves.extend(r.weak);
                }
                self.w.hollow.extend(r.th);
                self.w.dead_g.extend(r.g);
                self.w.dead_p.extend(r.p);
            }
        }
        if let Err(m) = self.w.observe_graves() {
            bad = bad.or(Some(("life".into(), m.trim_start_matches("[life] ").to_string())));
        }
        let _ = write!(self.out, "\"al\":{}", list(al.iter().map(|(x, t)| format!("[{x},{t}]"))));
        Ok(bad)
    }

    /// One recorded step.
    fn step(&mut self, text: String) -> Result<String, String> {
        if self.stop {
            return Ok("stopped".into());
        }
        let op = J::parse(&text).map_err(|e| format!("harness: {e}: {text}"))?;
        self.log.step(&op, "?");
        let o = self.perform(&op)?;
        self.log.note(&format!("   {}", o.r));
        if o.ret == UNKNOWN {
            self.stop = true;
        }
        if !self.out.is_empty() {
            self.out.push(',');
        }
        let _ = write!(
            self.out,
            "{{\"op\":{text},\"r\":{},\"pan\":{},\"v\":{},\"ret\":{},\"born\":{},\"x\":{},",
            esc(&o.r), o.panicking, list(&o.vals), o.ret, list(&o.born), pair(o.x)
        );
        let bad = quiet(|| self.settle()).map_err(|m| format!("[panic] asking for trees panicked: {m}"))??;
        self.steps += 1;
        if let Some((c, m)) = &bad {
            let _ = write!(self.out, ",\"bad\":[{},{}],\"o\":[],\"q\":[]}}", esc(c), esc(m));
            self.stop = true;
            return Ok(o.r);
        }
        self.out += ",\"bad\":[]";
        let look = !self.stop && self.rng.chance(1, self.p.every);
        if look {
            let s = quiet(|| self.observe()).map_err(|m| format!("[panic] while observing: {m}"))??;
            self.out += ",\"o\":[";
            self.out += &s;
            self.out += "],\"q\":[";
            let mut n = 0;
            for _ in 0..self.p.queries {
                if self.rng.chance(1, 2) {
                    let q = quiet(|| self.query()).map_err(|m| format!("[panic] while asking: {m}"))??;
                    if let Some(q) = q {
                        if n > 0 {
                            self.out.push(',');
                        }
                        self.out += &q;
                        n += 1;
                    }
                }
            }
            self.out += "]}";
        } else {
            self.out += ",\"o\":[],\"q\":[]}";
        }
        // A Tree handle that is left of a joined tree goes at once (known finding).
        while !self.w.hollow.is_empty() && !self.stop {
            let n = self.w.hollow.len();
            let op = if n > 1 && self.rng.chance(1, 2) || n > 50 { format!("[\"drops\",\"hollow\",0,{n}]") } else { "[\"hollow_drop\"]".into() };
            self.step(op)?;
        }
        Ok(o.r)
    }

    fn perform(&mut self, op: &J) -> Result<Outcome, String> {
        let kind = op.at(0).s().to_string();
        let mut o = Outcome::default();
        match kind.as_str() {
            "dups" | "drops" => {
                let (k, id, n) = (op.at(1).s().to_string(), op.at(2).u(), op.at(3).u());
                let dup = kind == "dups";
                let w = &mut self.w;
                macro_rules! many {
                    ($v:expr, $c:expr) => {{
                        let v = $v;
                        if dup {
                            quiet(|| for _ in 0..n { let h = $c(&v[0]); v.push(h); })
                        } else {
                            let at = v.len() - n;
                            let gone = v.split_off(at);
                            quiet(move || drop(gone))
                        }
                    }};
                }
                let r = match k.as_str() {
                    "p" => many!(&mut w.rec_mut(id).p, |h: &N| h.clone()),
                    "h" => many!(&mut w.rec_mut(id).h, |h: &H| h.clone()),
                    "f" => many!(&mut w.rec_mut(id).f, |h: &F| h.clone()),
                    "hollow" => many!(&mut w.hollow, |h: &Tree<Payload>| h.clone()),
                    "t" => many!(&mut w.trees[id].th, |h: &Tree<Payload>| h.clone()),
                    "tg" => many!(&mut w.trees[id].g, |h: &G| h.clone()),
                    _ => many!(&mut w.trees[id].p, |h: &P| h.try_clone().expect("clone of a prohibition")),
                };
                o.r = if r.is_ok() { "ok".into() } else { "panic".into() };
            }
            "read" | "write" => {
                let x = op.at(1).u();
                let n = self.w.plain(x)?;
                let serial = self.w.rec(x).serial;
                let write = kind == "write";
                let got = data::take(Any::P(n), serial, write, self.rng.chance(1, 2))?;
                o.r = if got.is_some() { "ok".into() } else { "busy".into() };
                if let Some(mut g) = got {
                    if let Br::W(d) = &mut g.br {
                        d.val = op.at(2).n();
                    }
                    let e = self.w.borrowed.entry(serial).or_default();
                    *e = if write { -1 } else { *e + 1 };
                    self.wrote.insert(x, write);
                    self.held.push(g);
                }
            }
            "unread" | "unwrite" => {
                let x = op.at(1).u();
                let serial = self.w.rec(x).serial;
                let mine: Vec<usize> = (0..self.held.len()).filter(|i| self.held[*i].serial == serial).collect();
                let g = self.held.swap_remove(mine[self.rng.below(mine.len())]);
                quiet(move || drop(g)).map_err(|m| format!("[data] releasing a borrow panicked: {m}"))?;
                let e = self.w.borrowed.entry(serial).or_default();
                *e = if *e < 0 { 0 } else { *e - 1 };
                if *e == 0 {
                    self.w.borrowed.remove(&serial);
                }
                o.r = "ok".into();
            }
            "cur" => {
                let c = op.at(2);
                let pend = c.get("pend");
                let p = if pend.arr().is_empty() { None } else { Some((pend.at(0).s().chars().next().unwrap(), pend.at(1).u())) };
                let start = c.get("start").u();
                let (w, rng) = (&self.w, &mut *self.rng);
                let cur = quiet(|| Cur::make(c.get("kind").s(), w, start, p, rng)).map_err(|m| format!("[cursor] making a traversal panicked: {m}"))??;
                self.curs.insert(op.at(1).u(), cur);
                o.r = "ok".into();
            }
            "cur_next" | "cur_close" => {
                let id = op.at(1).u();
                let c = self.curs.get_mut(&id).unwrap();
                let i = quiet(|| if kind == "cur_next" { c.next() } else { c.close() }).map_err(|m| format!("[cursor] stepping a traversal panicked: {m}"))?;
                if let Some((k, n)) = i {
                    let y = self.label(&n);
                    o.x = Some((k, y));
                    if y == UNKNOWN {
                        self.stop = true;
                    } else if op.at(2).b() {
                        self.w.keep(y, Any::P(n));
                    }
                }
                o.r = "ok".into();
            }
            "cur_end" => {
                let c = self.curs.remove(&op.at(1).u());
                quiet(move || drop(c)).map_err(|m| format!("[cursor] dropping a traversal panicked: {m}"))?;
                o.r = "ok".into();
            }
            "build" => {
                let x = op.at(2).u();
                let root = if op.at(1).at(0).s() == "hot" {
                    let r = self.w.rec(x);
                    quiet(|| r.h[self.rng.below(r.h.len())].clone())
                } else {
                    let t = op.at(1).at(1).u();
                    let g = if t == 0 { &self.w.dead_g[0] } else { &self.w.trees[t].g[0] };
                    let n = self.w.plain(x)?;
                    quiet(|| n.bundle_hierarchy_edit_grant(g))
                };
                match root {
                    Err(m) => o.r = result(&format!("panic: {m}")),
                    Ok(h) => {
                        let mut b = TreeBuilder::with_root(h);
                        o.r = self.feed(&mut b, op.at(3), &mut o.vals)?;
                        quiet(move || drop(b)).map_err(|m| format!("[build] dropping a builder panicked: {m}"))?;
                        let n = self.w.plain(x)?;
                        self.adopt_new(&n, &mut o.born)?;
                    }
                }
            }
            "buildnew" => {
                let mut b = TreeBuilder::new();
                o.r = self.feed(&mut b, op.at(1), &mut o.vals)?;
                if o.r == "ok" {
                    let r = quiet(move || b.finish()).map_err(|m| format!("[build] finishing panicked: {m}"))?;
                    o.r = builder::outcome(&r).into();
                    if let Ok(n) = r {
                        self.adopt_new(&n, &mut o.born)?;
                        if let Some(x) = o.born.first() {
                            self.w.keep(*x, Any::P(n));
                        }
                    }
                } else {
                    quiet(move || drop(b)).map_err(|m| format!("[build] dropping a builder panicked: {m}"))?;
                }
            }
            _ => {
                let fault = kind == "fault";
                let inner = if fault { op.at(2) } else { op };
                let val = self.rng.below(self.p.vals) as i64;
                if fault {
                    set_fuse(op.at(1).n() - 1);
                }
                let d = handles::exec(&mut self.w, inner, val, self.rng);
                set_fuse(-1);
                let d = match d {
                    Ok(d) => d,
                    Err(m) => return Err(m),
                };
                o.vals = vec![val];
                o.r = result(&d.got);
                o.panicking = d.panicking;
                let k = inner.at(0).s();
                match d.made {
                    Made::Nothing => {}
                    Made::Node(h) => {
                        let n = h.to_plain();
                        o.ret = self.label(&n);
                        if o.ret != UNKNOWN {
                            self.w.keep(o.ret, h);
                        }
                    }
                    Made::Born(h) => {
                        let n = h.to_plain();
                        if matches!(k, "clone" | "cloneins") {
                            self.adopt_new(&n, &mut o.born)?;
                        } else {
                            o.born = vec![self.name(&n)?];
                        }
                        if let Some(x) = o.born.first() {
                            if *x != UNKNOWN {
                                self.w.keep(*x, h);
                            }
                        }
                    }
                    Made::Tree(t) => {
                        o.ret = self.tree_label(&t);
                        if o.ret != UNKNOWN {
                            self.w.trees[o.ret].th.push(t);
                        }
                    }
                    Made::Grant(g) => {
                        let t = match k {
                            "extract_g" => self.tree_of(inner.at(1).u()),
                            "tok_dup" => inner.at(2).u(),
                            _ => inner.at(1).u(),
                        };
                        if t == 0 { self.w.dead_g.push(g) } else { self.w.trees[t].g.push(g) }
                    }
                    Made::Prohibition(g) => {
                        let t = match k {
                            "extract_p" => self.tree_of(inner.at(1).u()),
                            "tok_dup" => inner.at(2).u(),
                            _ => inner.at(1).u(),
                        };
                        if t == 0 { self.w.dead_p.push(g) } else { self.w.trees[t].p.push(g) }
                    }
                }
            }
        }
        Ok(o)
    }
    fn feed(&mut self, b: &mut TreeBuilder<Payload>, events: &J, vals: &mut Vec<i64>) -> Result<String, String> {
        for e in events.arr() {
            let v = self.rng.below(self.p.vals) as i64;
            if e.at(0).s() == "open" {
                vals.push(v);
            }
            let r = quiet(|| builder::feed(b, builder::levels(e, self.rng), v, self.rng)).map_err(|m| format!("[build] {e} panicked: {m}"))?;
            if r.is_err() {
                return Ok(builder::outcome(&r).into());
            }
        }
        Ok("ok".into())
    }
    /// Names the new nodes of a subtree, in preorder.
    fn adopt_new(&mut self, n: &N, born: &mut Vec<usize>) -> Result<(), String> {
        let old = self.nodes();
        for h in preorder_handles(n, 4 * old.len() + 600) {
            let x = self.name(&h)?;
            if !old.contains(&x) {
                born.push(x);
            }
        }
        Ok(())
    }

    // -- observing ------------------------------------------------------------------------

    fn observe(&mut self) -> Result<String, String> {
        let nodes = self.nodes();
        self.w.ticks += 1;
        if self.w.ticks % 7 == 0 && nodes.len() <= 30 {
            self.w.format_all()?;
        }
        let mut ns = Vec::new();
        macro_rules! view {
            ($name:literal, $h:expr, $c:expr) => {{
                let h = $h;
                let w = &self.w;
                let lab = |n: &_| match w.label(&$c(n)) { usize::MAX => UNKNOWN, x => x } as i64;
                let opt = |n: Option<_>| n.map_or(0, |n| lab(&n));
                let (fs, ls) = h.first_last_sibling();
                if !fs.ptr_eq(&h.first_sibling()) || !ls.ptr_eq(&h.last_sibling()) {
                    return Err("[nav] first_last_sibling differs from first_sibling and last_sibling".into());
                }
                let (fc, lc) = h.first_last_child().map_or((0, 0), |(a, b)| (lab(&a), lab(&b)));
                if (fc, lc) != (opt(h.first_child()), opt(h.last_child())) {
                    return Err("[nav] first_last_child differs from first_child and last_child".into());
                }
                let cap = 4 * nodes.len() + 8;
                let writable = i64::from(h.try_borrow_data_mut().is_ok());
                let mut v: Vec<i64> = vec![
                    lab(&h),
                    h.try_borrow_data().map_or(-1, |d| d.val),
                    writable,
                    self.tree_label(&h.tree()) as i64,
                    lab(&h.root()), opt(h.parent()), opt(h.prev_sibling()), opt(h.next_sibling()), lab(&fs), lab(&ls), fc, lc,
                    h.num_children() as i64, h.count_preceding_siblings() as i64, h.count_following_siblings() as i64, h.count_ancestors() as i64,
                    i64::from(h.is_root()), i64::from(h.has_prev_sibling()), i64::from(h.has_next_sibling()), i64::from(h.has_children()),
                    i64::from(h.has_one_child()), i64::from(h.has_multiple_children()),
                ];
                if h.count_children() != h.num_children() {
                    return Err("[nav] count_children differs from num_children".into());
                }
                if h.children().take(cap).count() != h.children_reverse().take(cap).count() {
                    return Err("[nav] children and children_reverse differ".into());
                }
                v.extend(h.children().take(cap).map(|n| self.label(&n) as i64));
                ns.push(format!("[\"{}\",{}]", $name, list(v)));
            }};
        }
        for x in &nodes {
            let n = self.w.plain(*x)?;
            let r = self.w.rec(*x);
            match self.rng.below(6) {
                0 | 1 if !r.h.is_empty() => view!("hot", &r.h[0], |h: &H| h.plain()),
                0 | 1 if !r.f.is_empty() => view!("frozen", &r.f[0], |h: &F| h.plain()),
                2 => match n.clone().bundle_new_hierarchy_edit_grant() {
                    Ok(h) => view!("hot", h, |h: &H| h.plain()),
                    Err(_) => view!("plain", n, |h: &N| h.clone()),
                },
                3 => match n.clone().bundle_new_hierarchy_edit_prohibition() {
                    Ok(h) => view!("frozen", h, |h: &F| h.plain()),
                    Err(_) => view!("plain", n, |h: &N| h.clone()),
                },
                _ => view!("plain", n, |h: &N| h.clone()),
            }
        }
        let mut ts = Vec::new();
        let mut ks = Vec::new();
        for t in &self.live {
            let r = &self.w.trees[*t];
            let tree = r.weak.as_ref().and_then(TreeWeak::upgrade).ok_or("[life] a living tree does not upgrade")?;
            let tree = if r.th.is_empty() { tree } else { r.th[self.rng.below(r.th.len())].clone() };
            let root = self.label(&tree.root());
            let g = tree.grant_hierarchy_edit().is_ok();
            let p = tree.prohibit_hierarchy_edit().is_ok();
            ts.push(format!("[{t},{root},{},{}]", u8::from(g), u8::from(p)));
        }
        let valid = |f: &dyn Fn(&N) -> bool| -> Result<String, String> {
            let mut v = Vec::new();
            for x in &nodes {
                if f(&self.w.plain(*x)?) {
                    v.push(*x);
                }
            }
            Ok(list(v))
        };
        for (t, g, p) in self.live.iter().map(|t| (*t, &self.w.trees[*t].g, &self.w.trees[*t].p)).chain([(0, &self.w.dead_g, &self.w.dead_p)]) {
            if let Some(g) = g.last() {
                ks.push(format!("[\"grant\",{t},{}]", valid(&|n| g.is_valid_for_node(n))?));
            }
            if let Some(g) = p.last() {
                ks.push(format!("[\"prohibition\",{t},{}]", valid(&|n| g.is_valid_for_node(n))?));
            }
        }
        let mut cs = Vec::new();
        for (id, c) in &self.curs {
            let item = |i: Option<(char, N)>| i.map(|(k, n)| (k, self.label(&n)));
            let p = item(c.peek());
            let (lo, hi) = c.hint();
            let mut d = c.clone();
            let mut rest = Vec::new();
            while let Some(i) = d.next() {
                rest.push(pair(item(Some(i))));
                if rest.len() > 4 * nodes.len() + 8 {
                    break;
                }
            }
            cs.push(format!("[{id},{},{lo},{},{}]", pair(p), hi.map_or(-1, |h| h.min(1_000_000) as i64), list(rest)));
        }
        Ok(format!("{{\"n\":{},\"t\":{},\"k\":{},\"c\":{}}}", list(ns), list(ts), list(ks), list(cs)))
    }

    // -- asking ---------------------------------------------------------------------------

    fn query(&mut self) -> Result<Option<String>, String> {
        let Some(x) = self.some_node() else { return Ok(None) };
        let Some(y) = self.some_node() else { return Ok(None) };
        let mut x = x;
        let q = weighted(&self.p.q.clone(), self.rng);
        if matches!(q, "dft" | "bfs" | "double") {
            // Rather where the hierarchy can be prohibited to be edited.
            for _ in 0..4 {
                if self.w.plain(x)?.bundle_new_hierarchy_edit_prohibition().is_ok() {
                    break;
                }
                x = self.some_node().unwrap();
            }
        }
        let (n, m) = (self.w.plain(x)?, self.w.plain(y)?);
        let blind = self.w.borrowed.values().any(|b| *b < 0);
        Ok(Some(match q {
            "same" => format!("[\"same\",{x},{y},{},{}]", u8::from(n.belongs_to_same_tree(&m)), u8::from(n.ptr_eq(&m))),
            "descend" => {
                let cap = 4 * self.nodes().len();
                let p = m.ancestors_or_self().take(cap).any(|a| a.ptr_eq(&n));
                format!("[\"descend\",{x},{y},{}]", u8::from(p))
            }
            "eq" => {
                let a = match self.rng.below(4) {
                    0 => n.try_eq(&m).map_or("err".into(), |b| b.to_string()),
                    1 if !blind => (n == m).to_string(),
                    2 if n.is_root() && m.is_root() => n.tree().try_eq(&m.tree()).map_or("err".into(), |b| b.to_string()),
                    3 if !blind => match (n.clone().bundle_new_hierarchy_edit_grant(), m.clone().bundle_new_hierarchy_edit_grant()) {
                        (Ok(a), Ok(b)) => (a == b).to_string(),
                        _ => match (n.clone().bundle_new_hierarchy_edit_prohibition(), m.clone().bundle_new_hierarchy_edit_prohibition()) {
                            (Ok(a), Ok(b)) => (a == b).to_string(),
                            _ => (n == m).to_string(),
                        },
                    },
                    _ => n.try_eq(&m).map_or("err".into(), |b| b.to_string()),
                };
                format!("[\"eq\",{x},{y},\"{a}\"]")
            }
            "events" if self.rng.chance(1, 2) => {
                let mut v = Vec::new();
                let cap = 8 * self.nodes().len() + 8;
                macro_rules! run {
                    ($it:expr) => {
                        for e in $it.take(cap) {
                            match e {
                                Ok(Event::Open(d)) => v.push(format!("[\"open\",{}]", d.val)),
                                Ok(Event::Close(k)) => (0..k).for_each(|_| v.push("[\"close\",1]".into())),
                                Err(_) => {
                                    v.push("[\"err\",0]".into());
                                    break;
                                }
                            }
                        }
                    };
                }
                match (self.rng.below(3), self.w.rec(x).h.first(), n.clone().bundle_new_hierarchy_edit_prohibition()) {
                    (0, Some(h), _) => run!(h.to_events()),
                    (1, _, Ok(f)) => run!(f.to_events()),
                    _ => run!(n.to_events()),
                }
                format!("[\"events\",{x},{}]", list(v))
            }
            "events" => {
                if blind {
                    return Ok(None);
                }
                let how = ["clone_subtree", "rebuilding from events", "rebuilding from a traversal", "pushing events"][self.rng.below(4)];
                let r = match how {
                    "clone_subtree" => n.clone_subtree(),
                    "rebuilding from events" => {
                        let evs: Vec<Event<Payload>> = n.to_events().collect::<Result<_, _>>().map_err(|_| "[build] data not readable")?;
                        evs.into_iter().collect::<Result<N, _>>().map_err(|_| "[build] rebuilding fails")?
                    }
                    "rebuilding from a traversal" => n.depth_first_traverse().collect::<Result<N, _>>().map_err(|_| "[build] rebuilding fails")?,
                    _ => {
                        let mut b = TreeBuilder::new();
                        let evs: Vec<Event<Payload>> = n.to_events().collect::<Result<_, _>>().map_err(|_| "[build] data not readable")?;
                        b.push_events(evs).map_err(|_| "[build] pushing events fails")?;
                        b.finish().map_err(|_| "[build] finishing fails")?
                    }
                };
                let (p, v) = builder::shape(&r, 4 * self.nodes().len() + 8).map_err(|e| format!("[build] {how}: {e}"))?;
                format!("[\"rebuild\",{x},\"{how}\",{},{}]", list(p), list(v))
            }
            "pretty" => {
                if blind {
                    return Ok(None);
                }
                let s = match self.rng.below(5) {
                    0 => format!("{:?}", n.debug_pretty_print()),
                    1 => format!("{:#?}", n.debug_pretty_print()),
                    2 => format!("{:#}", n.debug_pretty_print()),
                    3 if n.is_root() => format!("{}", n.tree().debug_pretty_print()),
                    _ => format!("{}", n.debug_pretty_print()),
                };
                format!("[\"pretty\",{x},{}]", list(s.split('\n').map(|l| esc(l.trim_end()))))
            }
            _ => {
                if blind {
                    return Ok(None);
                }
                if matches!(q, "dft" | "bfs" | "double") && self.rng.chance(1, 2) {
                    x = self.label(&n.root());
                }
                return self.traverse(q, x).map(Some);
            }
        }))
    }
    fn traverse(&mut self, q: &str, x: usize) -> Result<String, String> {
        let n = self.w.plain(x)?;
        let f = n.clone().bundle_new_hierarchy_edit_prohibition().ok();
        let rng = &mut *self.rng;
        let pick = |v: &[&'static str], rng: &mut Rng| v[rng.below(v.len())];
        let mut kind = match q {
            "dft" => pick(&["dft", "rdft", "sdft"], rng),
            "bfs" => pick(&["bfs_a", "bfs_n"], rng),
            "sib" => pick(&["children", "children_rev", "siblings", "siblings_rev", "prec_rev", "precself_rev", "foll", "follself", "anc", "ancself"], rng),
            _ => pick(&["sdft", "shallow", "shallow", "s_children", "s_siblings", "s_prec", "s_precself", "s_foll", "s_follself"], rng),
        };
        if f.is_none() && (kind.starts_with("s_") || kind.starts_with("bfs") || matches!(kind, "sdft" | "shallow")) {
            kind = pick(&["dft", "rdft", "children", "siblings", "foll", "anc", "ancself"], rng);
        }
        let arg: i64 = match kind {
            "shallow" => [-1, 0, 1, 2, 3, 4, HUGE, HUGE - 1][rng.below(8)],
            "bfs_a" | "bfs_n" => [0, 0, 0, 1, 2, 3, HUGE, HUGE - 1][rng.below(8)],
            _ => 0,
        };
        let alt = f.is_some() && rng.chance(1, 3);
        let mut t = Trav::new(kind, arg, &n, f.as_ref(), alt);
        let names = Names(&self.w.lab);
        let total = 4 * self.w.nodes.len() + 8;
        let closable = matches!(kind, "dft" | "sdft" | "shallow");
        let style = rng.below(4);
        let mut calls = Vec::new();
        let mut ended = 0;
        let fix = |i: Item| (i.0, if i.1 == usize::MAX { UNKNOWN } else { i.1 }, i.2);
        let show = |i: Item| { let i = fix(i); format!("\"{}\",{},{}", i.0, i.1, i.2) };
        while calls.len() < total && ended < 3 {
            let mut push = |name: &str, i: Item| calls.push(format!("[\"{name}\",{}]", show(i)));
            match rng.below(13) {
                12 => {
                    if let Some(d) = t.limit() {
                        calls.push(format!("[\"limit\",{d}]"));
                    }
                }
                0 | 1 | 2 | 3 => {
                    let back = t.double() && match style { 0 => false, 1 => true, _ => rng.chance(1, 2) };
                    let i = if back { t.back(&names) } else { t.front(&names, 0) };
                    if i == NOTHING {
                        ended += 1;
                    }
                    push(if back { "next_back" } else { "next" }, i);
                }
                4 | 5 => {
                    if let Some(i) = t.peek(&names) {
                        push("peek", i);
                    }
                }
                6 => {
                    if let Some(i) = t.peek_back(&names) {
                        push("peek_back", i);
                    }
                }
                7 if style == 3 => {
                    let k = 1 + rng.below(2);
                    push(if k == 1 { "nth1" } else { "nth2" }, t.front(&names, k));
                }
                8 if closable && style > 1 => push("close", t.close(&names)),
                9 => {
                    let (lo, hi) = t.size_hint();
                    calls.push(format!("[\"hint\",{},{}]", lo.min(1_000_000_000), hi.map_or(-1, |h| h.min(1_000_000_000) as i64)));
                }
                10 => {
                    t.buffer(rng)?;
                }
                _ if rng.chance(1, 6) => {
                    let back = t.double() && rng.chance(1, 2);
                    let mut v = t.clone().drain(&names, back, total);
                    if back {
                        v.reverse();
                    }
                    calls.push(format!("[\"rest\",{}]", list(v.into_iter().map(|i| format!("[{}]", show(i))))));
                }
                _ => {}
            }
        }
        Ok(format!("[\"trav\",{x},\"{kind}\",{arg},{}]", list(calls)))
    }

    // -- acting ---------------------------------------------------------------------------

    /// Makes sure, if possible, that a hot handle of x is held.
    fn want_hot(&mut self, x: usize) -> Result<bool, String> {
        if !self.w.rec(x).h.is_empty() {
            return Ok(true);
        }
        if self.w.rec(x).p.is_empty() {
            self.step(format!("[\"upgrade\",{x}]"))?;
            if self.stop {
                return Ok(false);
            }
        }
        let t = self.tree_of(x);
        if t != UNKNOWN && !self.w.trees[t].g.is_empty() && self.rng.chance(1, 2) {
            self.step(format!("[\"bundle_g\",{x},{t}]"))?;
        } else {
            let r = self.step(format!("[\"bundle_new_g\",{x}]"))?;
            if r != "ok" && !self.stop && self.rng.chance(1, 3) {
                self.calm(x, "p")?;
            }
        }
        Ok(!self.stop && self.w.nodes[x].as_ref().is_some_and(|r| !r.h.is_empty()))
    }
    /// Gives up all that grants (or prohibits) edits of the hierarchy of a tree.
    fn calm(&mut self, x: usize, token: &str) -> Result<(), String> {
        let t = self.tree_of(x);
        if t == UNKNOWN {
            return Ok(());
        }
        if self.w.rec(x).p.is_empty() && !self.stop {
            self.step(format!("[\"upgrade\",{x}]"))?;
        }
        let k = if token == "g" { "h" } else { "f" };
        for y in self.nodes() {
            if self.stop || self.w.nodes[y].is_none() {
                break;
            }
            let n = self.held_of(&self.w, k, y);
            if n > 0 && self.tree_of(y) == t {
                if n == 1 && self.rng.chance(1, 3) {
                    self.step(format!("[\"unbundle\",\"{k}\",{y}]"))?;
                } else {
                    self.step(format!("[\"drops\",\"{k}\",{y},{n}]"))?;
                }
            }
        }
        if !self.stop && self.live.contains(&t) {
            let n = if token == "g" { self.w.trees[t].g.len() } else { self.w.trees[t].p.len() };
            if n > 0 {
                self.step(format!("[\"drops\",\"t{token}\",{t},{n}]"))?;
            }
        }
        Ok(())
    }
    fn auth(&mut self, x: usize) -> Result<Option<String>, String> {
        let t = self.tree_of(x);
        if t != UNKNOWN && !self.w.trees[t].g.is_empty() && self.rng.chance(2, 3) {
            if self.w.rec(x).p.is_empty() {
                self.step(format!("[\"upgrade\",{x}]"))?;
            }
            return Ok((!self.stop).then(|| format!("[\"tok\",{t}]")));
        }
        Ok(self.want_hot(x)?.then(|| "[\"hot\"]".into()))
    }
    /// A node with much of something.
    fn rather(&mut self, score: impl Fn(&N) -> usize) -> usize {
        let mut best = self.some_node().unwrap();
        for _ in 0..5 {
            let y = self.some_node().unwrap();
            if let (Ok(a), Ok(b)) = (self.w.plain(best), self.w.plain(y)) {
                if score(&b) > score(&a) {
                    best = y;
                }
            }
        }
        best
    }
    fn place(&mut self) -> &'static str {
        ["first", "last", "prev", "next"][self.rng.below(4)]
    }
    fn events(&mut self, fresh: bool) -> String {
        let mut v = Vec::new();
        let mut depth = usize::from(!fresh);
        let n = self.rng.below(9);
        for i in 0..n {
            if (fresh && i == 0 && self.rng.chance(15, 16)) || self.rng.chance(if depth > 0 { 3 } else { 1 }, 5) {
                v.push("[\"open\"]".to_string());
                depth += 1;
            } else {
                let k = match self.rng.below(12) {
                    0 => 0,
                    1 => depth + 1,
                    2 => 1_000_000,
                    3 => depth,
                    _ => 1 + self.rng.below(depth.max(1)),
                };
                v.push(format!("[\"close\",{k}]"));
                depth = depth.saturating_sub(k);
            }
        }
        list(v)
    }
    fn act(&mut self) -> Result<(), String> {
        let count = self.nodes().len();
        let Some(mut x) = self.some_node() else {
            let k = ["p", "h"][self.rng.below(2)];
            self.step(format!("[\"new\",\"{k}\"]"))?;
            return Ok(());
        };
        let room = count < self.p.target;
        let mut what = weighted(&self.p.w.clone(), self.rng);
        if count < 3 && self.rng.chance(2, 3) {
            what = "create";
        }
        if !room && matches!(what, "new" | "create" | "interrupt" | "clone" | "build") {
            what = ["replace", "move", "droptree", "detach", "drop", "move", "handle", "lock", "detach"][self.rng.below(9)];
        }
        match what {
            "new" => {
                let k = ["p", "h"][self.rng.below(2)];
                self.step(format!("[\"new\",\"{k}\"]"))?;
            }
            "create" => {
                let mut pl = self.place();
                let shape = if self.p.shape == 3 { self.rng.below(3) } else { self.p.shape };
                if shape != 0 && self.rng.chance(1, 2) {
                    pl = ["first", "last"][self.rng.below(2)];
                    x = self.rather(|n| if shape == 1 { n.num_children() } else { n.count_ancestors() });
                }
                if let Some(a) = self.auth(x)? {
                    self.step(format!("[\"edit\",{a},[\"create\",{x},\"{pl}\"]]"))?;
                }
            }
            "detach" => {
                if self.rng.chance(1, 2) {
                    x = self.rather(|n| n.parent().map_or(0, |p| p.num_children()));
                }
                if let Some(a) = self.auth(x)? {
                    self.step(format!("[\"edit\",{a},[\"detach\",{x}]]"))?;
                }
            }
            "interrupt" => {
                if self.rng.chance(1, 2) {
                    x = self.rather(|n| n.num_children() + n.count_ancestors());
                }
                let k = ["iparent", "ichild"][self.rng.below(2)];
                if let Some(a) = self.auth(x)? {
                    self.step(format!("[\"edit\",{a},[\"{k}\",{x}]]"))?;
                }
            }
            "replace" => {
                if self.rng.chance(1, 2) {
                    // Between or at the end of siblings, with children.
                    let end = self.rng.below(3);
                    x = self.rather(|n| {
                        let s = n.parent().map_or(0, |p| p.num_children());
                        let at = [true, !n.has_prev_sibling(), !n.has_next_sibling()][end];
                        n.num_children().min(3) * s.min(3) * (1 + usize::from(at))
                    });
                }
                if let Some(a) = self.auth(x)? {
                    self.step(format!("[\"edit\",{a},[\"replace\",{x}]]"))?;
                }
            }
            "move" => {
                let y = self.some_node().unwrap();
                let pl = self.place();
                if self.want_hot(y)? && self.w.nodes[x].is_some() {
                    if let Some(a) = self.auth(x)? {
                        self.step(format!("[\"edit\",{a},[\"move\",{x},{y},\"{pl}\"]]"))?;
                    }
                }
            }
            "clone" | "fault" => {
                let small: Vec<usize> = self.nodes().into_iter().filter(|x| self.w.plain(*x).is_ok_and(|n| preorder_handles(&n, 6).len() <= 5)).collect();
                if !small.is_empty() && (what == "clone" || self.rng.chance(1, 2)) {
                    x = small[self.rng.below(small.len())];
                }
                if self.kinds(x).is_empty() {
                    self.step(format!("[\"upgrade\",{x}]"))?;
                }
                let y = self.some_node().unwrap();
                let ins = self.rng.chance(1, 2) && self.want_hot(y)?;
                if self.stop || self.w.nodes[x].is_none() {
                    return Ok(());
                }
                let ks = self.kinds(x);
                if ks.is_empty() {
                    return Ok(());
                }
                let k = ks[self.rng.below(ks.len())];
                let fault = what == "fault";
                let pl = if fault { ["first", "last"][self.rng.below(2)] } else { self.place() };
                let op = if ins { format!("[\"cloneins\",\"{k}\",{x},{y},\"{pl}\"]") } else { format!("[\"clone\",\"{k}\",{x}]") };
                if fault {
                    let n = self.w.plain(x)?;
                    let below = preorder_handles(&n, 4 * count + 8);
                    let at = 1 + self.rng.below(below.len());
                    // (A place below a node that has gone together with its handle is none.)
                    if below.iter().all(|n| n.try_borrow_data().is_ok()) {
                        drop(below);
                        drop(n);
                        self.step(format!("[\"fault\",{at},{op}]"))?;
                    }
                } else {
                    self.step(op)?;
                }
            }
            "handle" => {
                let ks = self.kinds(x);
                if ks.is_empty() {
                    self.step(format!("[\"upgrade\",{x}]"))?;
                    return Ok(());
                }
                let k = ks[self.rng.below(ks.len())];
                match self.rng.below(5) {
                    0 => self.step(format!("[\"dup\",\"{k}\",{x}]"))?,
                    1 if k != "p" => {
                        let o = ["plain", "unbundle"][self.rng.below(2)];
                        self.step(format!("[\"{o}\",\"{k}\",{x}]"))?
                    }
                    _ => {
                        let rel = ["parent", "fchild", "lchild", "next", "prev", "root"][self.rng.below(6)];
                        self.step(format!("[\"nav\",\"{k}\",{x},\"{rel}\"]"))?
                    }
                };
            }
            "drop" => {
                // Of a node with many handles, if there is one.
                for _ in 0..3 {
                    let y = self.some_node().unwrap();
                    let n = |r: &NodeRec| r.p.len() + r.h.len() + r.f.len();
                    if n(self.w.rec(y)) > n(self.w.rec(x)) {
                        x = y;
                    }
                }
                let ks = self.kinds(x);
                if let Some(k) = (!ks.is_empty()).then(|| ks[self.rng.below(ks.len())]) {
                    let n = self.held_of(&self.w, k, x);
                    if n > 2 && self.rng.chance(1, 2) {
                        let gone = n - self.rng.below(2);
                        self.step(format!("[\"drops\",\"{k}\",{x},{gone}]"))?;
                    } else {
                        self.step(format!("[\"drop\",\"{k}\",{x}]"))?;
                    }
                }
            }
            "calm" => self.calm(x, "g")?,
            "freeze" => {
                self.calm(x, "g")?;
                for _ in 0..2 + self.rng.below(5) {
                    if self.stop || self.nodes().is_empty() {
                        break;
                    }
                    let t = self.tree_of(x);
                    let peers: Vec<usize> = self.nodes().into_iter().filter(|y| self.tree_of(*y) == t).collect();
                    if peers.is_empty() || t == UNKNOWN {
                        break;
                    }
                    x = peers[self.rng.below(peers.len())];
                    // (The loop ends with the tree: the handle that a refusal consumes may be its last.)
                    if self.w.rec(x).p.is_empty() {
                        self.step(format!("[\"upgrade\",{x}]"))?;
                        continue;
                    }
                    let frozen = !self.w.rec(x).f.is_empty();
                    let tokens = !self.w.trees[t].p.is_empty();
                    let o = match self.rng.below(8) {
                        0 | 1 if tokens => format!("[\"bundle_p\",{x},{t}]"),
                        2 if tokens => format!("[\"tok_dup\",\"p\",{t}]"),
                        3 | 4 if frozen => format!("[\"extract_p\",{x}]"),
                        5 if frozen => format!("[\"dup\",\"f\",{x}]"),
                        6 if frozen => {
                            let rel = ["parent", "fchild", "lchild", "next", "prev", "root"][self.rng.below(6)];
                            format!("[\"nav\",\"f\",{x},\"{rel}\"]")
                        }
                        5 => format!("[\"bundle_new_g\",{x}]"),
                        6 if tokens => format!("[\"tok_drop\",\"p\",{t}]"),
                        7 if !self.w.trees[t].th.is_empty() => format!("[\"tree_prohibit\",{t}]"),
                        _ => format!("[\"bundle_new_p\",{x}]"),
                    };
                    self.step(o)?;
                }
            }
            "droptree" => {
                // Rather one of the smaller ones.
                for _ in 0..2 {
                    let y = self.some_node().unwrap();
                    let n = |y: usize| self.w.plain(y).map_or(0, |n| preorder_handles(&n.root(), 4 * count + 8).len());
                    if n(y) < n(x) {
                        x = y;
                    }
                }
                // Everything that is held of one tree.
                let t = self.tree_of(x);
                for y in self.nodes() {
                    if self.w.nodes[y].is_some() && self.tree_of(y) == t {
                        for k in self.kinds(y) {
                            let n = self.held_of(&self.w, k, y);
                            self.step(format!("[\"drops\",\"{k}\",{y},{n}]"))?;
                            if self.stop || self.w.nodes[y].is_none() {
                                break;
                            }
                        }
                    }
                    if self.stop {
                        return Ok(());
                    }
                }
                if t != UNKNOWN && self.live.contains(&t) {
                    let n = self.w.trees[t].th.len();
                    if n > 0 {
                        self.step(format!("[\"drops\",\"t\",{t},{n}]"))?;
                    }
                }
            }
            "lock" => {
                let k = self.rng.below(6);
                if k < 3 && self.w.rec(x).p.is_empty() {
                    self.step(format!("[\"upgrade\",{x}]"))?;
                    if self.stop {
                        return Ok(());
                    }
                }
                let t = self.tree_of(x);
                match k {
                    0 => self.step(format!("[\"bundle_new_g\",{x}]"))?,
                    1 => self.step(format!("[\"bundle_new_p\",{x}]"))?,
                    2 if t != UNKNOWN && !self.w.trees[t].g.is_empty() => self.step(format!("[\"bundle_g\",{x},{t}]"))?,
                    2 if t != UNKNOWN && !self.w.trees[t].p.is_empty() => self.step(format!("[\"bundle_p\",{x},{t}]"))?,
                    3 => match self.holder("h") {
                        Some(y) => self.step(format!("[\"extract_g\",{y}]"))?,
                        None => String::new(),
                    },
                    4 => match self.holder("f") {
                        Some(y) => self.step(format!("[\"extract_p\",{y}]"))?,
                        None => String::new(),
                    },
                    _ => match self.holder("h").or_else(|| None) {
                        // Hot handles are given up.
                        Some(y) => {
                            let n = self.w.rec(y).h.len();
                            self.step(format!("[\"drops\",\"h\",{y},{n}]"))?
                        }
                        None => match self.holder("f") {
                            Some(y) => {
                                let n = self.w.rec(y).f.len();
                                self.step(format!("[\"drops\",\"f\",{y},{n}]"))?
                            }
                            None => String::new(),
                        },
                    },
                };
            }
            "token" => {
                let t = self.tree_of(x);
                if t == UNKNOWN {
                    return Ok(());
                }
                let (g, p) = (&self.w.trees[t].g, &self.w.trees[t].p);
                let any: Vec<&str> = [(!g.is_empty()).then_some("g"), (!p.is_empty()).then_some("p")].into_iter().flatten().collect();
                match self.rng.below(6) {
                    0 | 1 if !any.is_empty() => {
                        let k = any[self.rng.below(any.len())];
                        self.step(format!("[\"tok_drop\",\"{k}\",{t}]"))?;
                    }
                    2 if !any.is_empty() => {
                        let k = any[self.rng.below(any.len())];
                        self.step(format!("[\"tok_dup\",\"{k}\",{t}]"))?;
                    }
                    3 if !(self.w.dead_g.is_empty() && self.w.dead_p.is_empty()) => {
                        let k = if self.w.dead_g.is_empty() { "p" } else { "g" };
                        let o = ["tok_dup", "tok_drop"][self.rng.below(2)];
                        self.step(format!("[\"{o}\",\"{k}\",0]"))?;
                    }
                    _ => {
                        if self.w.trees[t].th.is_empty() {
                            if self.kinds(x).is_empty() {
                                self.step(format!("[\"upgrade\",{x}]"))?;
                            }
                            if self.stop {
                                return Ok(());
                            }
                            let k = self.kinds(x)[0];
                            self.step(format!("[\"tree\",\"{k}\",{x}]"))?;
                        }
                        if self.stop || self.w.trees[t].th.is_empty() {
                            return Ok(());
                        }
                        let o = ["tree_grant", "tree_grant", "tree_prohibit"][self.rng.below(3)];
                        self.step(format!("[\"{o}\",{t}]"))?;
                    }
                }
            }
            "wrong" => {
                // With a token of another tree, or of none that is left.
                let mine = self.tree_of(x);
                let mut ts: Vec<usize> = self.live.iter().copied().filter(|t| *t != mine && !self.w.trees[*t].g.is_empty()).collect();
                if !self.w.dead_g.is_empty() {
                    ts.push(0);
                }
                let mut ps: Vec<usize> = self.live.iter().copied().filter(|t| *t != mine && !self.w.trees[*t].p.is_empty()).collect();
                if !self.w.dead_p.is_empty() {
                    ps.push(0);
                }
                if self.w.rec(x).p.is_empty() {
                    self.step(format!("[\"upgrade\",{x}]"))?;
                }
                if self.stop {
                    return Ok(());
                }
                if !ps.is_empty() && self.rng.chance(1, 3) {
                    let t = ps[self.rng.below(ps.len())];
                    self.step(format!("[\"bundle_p\",{x},{t}]"))?;
                } else if !ts.is_empty() {
                    let t = ts[self.rng.below(ts.len())];
                    let pl = self.place();
                    let ev = self.events(false);
                    let hot = self.holder("h");
                    let op = match (self.rng.below(8), hot) {
                        (0, _) => format!("[\"bundle_g\",{x},{t}]"),
                        (1, _) => format!("[\"edit\",[\"tok\",{t}],[\"detach\",{x}]]"),
                        (2, _) => format!("[\"edit\",[\"tok\",{t}],[\"iparent\",{x}]]"),
                        (3, _) => format!("[\"edit\",[\"tok\",{t}],[\"ichild\",{x}]]"),
                        (4, _) => format!("[\"edit\",[\"tok\",{t}],[\"replace\",{x}]]"),
                        (5, Some(y)) => format!("[\"edit\",[\"tok\",{t}],[\"move\",{x},{y},\"{pl}\"]]"),
                        (6, _) => format!("[\"build\",[\"tok\",{t}],{x},{ev}]"),
                        _ => format!("[\"edit\",[\"tok\",{t}],[\"create\",{x},\"{pl}\"]]"),
                    };
                    self.step(op)?;
                }
            }
            "tree" => {
                let t = self.tree_of(x);
                if t == UNKNOWN {
                    return Ok(());
                }
                if self.w.trees[t].th.is_empty() {
                    let ks = self.kinds(x);
                    if !ks.is_empty() {
                        let k = ks[self.rng.below(ks.len())];
                        self.step(format!("[\"tree\",\"{k}\",{x}]"))?;
                    }
                } else {
                    let o = ["tree_dup", "tree_drop", "tree_root", "tree_root"][self.rng.below(4)];
                    self.step(format!("[\"{o}\",{t}]"))?;
                }
            }
            "data" => {
                let serial = self.w.rec(x).serial;
                let b = self.w.borrowed.get(&serial).copied().unwrap_or(0);
                if b != 0 && self.rng.chance(1, 2) {
                    let o = if b < 0 { "unwrite" } else { "unread" };
                    self.step(format!("[\"{o}\",{x}]"))?;
                } else if self.held.len() > 2 && self.rng.chance(2, 3) {
                    let s = self.held[self.rng.below(self.held.len())].serial;
                    if let Some(y) = self.w.lab.get(&s).copied() {
                        let o = if self.w.borrowed[&s] < 0 { "unwrite" } else { "unread" };
                        self.step(format!("[\"{o}\",{y}]"))?;
                    }
                } else if self.rng.chance(1, 2) {
                    self.step(format!("[\"read\",{x}]"))?;
                } else {
                    let v = self.rng.below(self.p.vals);
                    self.step(format!("[\"write\",{x},{v}]"))?;
                    if self.rng.chance(3, 4) && !self.stop && self.w.borrowed.get(&serial) == Some(&-1) {
                        self.step(format!("[\"unwrite\",{x}]"))?;
                    }
                }
            }
            "cursor" => {
                let ids: Vec<usize> = self.curs.keys().copied().collect();
                if ids.is_empty() || (ids.len() < 3 && self.rng.chance(1, 3)) {
                    self.next_cursor += 1;
                    let id = self.next_cursor;
                    let n = self.w.plain(x)?;
                    let me = format!("[\"n\",{x}]");
                    let style = self.rng.below(9);
                    let rel = |h: Option<N>| h.map_or("[]".to_string(), |h| format!("[\"n\",{}]", self.label(&h)));
                    let (kind, start, pend) = match style {
                        0 | 1 => ("dft", x, format!("[\"o\",{x}]")),
                        2 | 3 => ("rdft", x, format!("[\"c\",{x}]")),
                        4 => ("sib", 0, me),
                        5 => ("sib", 0, rel(n.first_child())),
                        6 => ("rsib", 0, me),
                        7 => ("anc", 0, me),
                        _ => ("rsib", 0, rel(n.last_child())),
                    };
                    drop(n);
                    self.step(format!("[\"cur\",{id},{{\"kind\":\"{kind}\",\"start\":{start},\"pend\":{pend}}}]"))?;
                } else {
                    let id = ids[self.rng.below(ids.len())];
                    let keep = self.rng.chance(1, 3);
                    for _ in 0..1 + self.rng.below(3) {
                        if self.stop {
                            break;
                        }
                        match self.rng.below(12) {
                            0 => {
                                self.step(format!("[\"cur_end\",{id}]"))?;
                                break;
                            }
                            1 if matches!(self.curs[&id], Cur::Dft(_)) => self.step(format!("[\"cur_close\",{id},{keep}]"))?,
                            _ => self.step(format!("[\"cur_next\",{id},{keep}]"))?,
                        };
                    }
                }
            }
            "build" => {
                if self.rng.chance(1, 2) {
                    let ev = self.events(true);
                    self.step(format!("[\"buildnew\",{ev}]"))?;
                } else if let Some(a) = self.auth(x)? {
                    let ev = self.events(false);
                    self.step(format!("[\"build\",{a},{x},{ev}]"))?;
                }
            }
            "bulk" => {
                let t = self.tree_of(x);
                let mut c: Vec<(&str, usize)> = self.kinds(x).into_iter().map(|k| (k, x)).collect();
                if t != UNKNOWN {
                    let r = &self.w.trees[t];
                    c.extend((!r.th.is_empty()).then_some(("t", t)));
                    c.extend((!r.g.is_empty()).then_some(("tg", t)));
                    c.extend((!r.p.is_empty()).then_some(("tp", t)));
                }
                if c.is_empty() {
                    return Ok(());
                }
                let (k, id) = c[self.rng.below(c.len())];
                let n = [3, 127, 128, 255, 256, 257, 300, 40_000, 65_536, 70_000][self.rng.below(10)];
                self.step(format!("[\"dups\",\"{k}\",{id},{n}]"))?;
                for _ in 0..self.rng.below(4) {
                    if !self.stop {
                        self.act_small()?;
                    }
                }
                let left = match k {
                    "t" if self.live.contains(&id) => self.w.trees[id].th.len(),
                    "tg" if self.live.contains(&id) => self.w.trees[id].g.len(),
                    "tp" if self.live.contains(&id) => self.w.trees[id].p.len(),
                    "p" | "h" | "f" if self.w.nodes[id].is_some() => self.held_of(&self.w, k, id),
                    _ => 0,
                };
                if left > 2 {
                    let keep = self.rng.below(3);
                    self.step(format!("[\"drops\",\"{k}\",{id},{}]", left - keep))?;
                }
            }
            _ => return Err(format!("harness: {what}")),
        }
        Ok(())
    }
    /// Something in between that does not give up many handles at once.
    fn act_small(&mut self) -> Result<(), String> {
        let w = std::mem::take(&mut self.p.w);
        self.p.w = vec![("lock", 3), ("token", 3), ("detach", 2), ("move", 2), ("create", 2), ("handle", 2), ("wrong", 1)];
        let r = self.act();
        self.p.w = w;
        r
    }
    /// Everything goes, step by step.
    fn teardown(&mut self) -> Result<(), String> {
        loop {
            if self.stop {
                return Ok(());
            }
            let mut ops: Vec<String> = Vec::new();
            for x in self.nodes() {
                for k in self.kinds(x) {
                    ops.push(format!("[\"drops\",\"{k}\",{x},{}]", self.held_of(&self.w, k, x)));
                }
            }
            for t in &self.live {
                let r = &self.w.trees[*t];
                for (k, n) in [("t", r.th.len()), ("tg", r.g.len()), ("tp", r.p.len())] {
                    if n > 0 {
                        ops.push(format!("[\"drops\",\"{k}\",{t},{n}]"));
                    }
                }
            }
            ops.extend(self.curs.keys().map(|c| format!("[\"cur_end\",{c}]")));
            for g in &self.held {
                if let Some(x) = self.w.lab.get(&g.serial) {
                    ops.push(format!("[\"{}\",{x}]", if matches!(g.br, Br::R(_)) { "unread" } else { "unwrite" }));
                }
            }
            if ops.is_empty() {
                return Ok(());
            }
            let op = ops.swap_remove(self.rng.below(ops.len()));
            self.step(op)?;
        }
    }
}

/// Records one history; returns it as a line of JSON, and its length.
pub fn record(id: &str, p: Profile, rng: &mut Rng, log: &mut Log) -> Result<(String, usize), String> {
    reset_serials();
    set_fuse(-1);
    let mut w = World::new();
    w.trees.clear();
    w.trees.push(TreeRec::default());
    let mut fork = Rng::new(rng.next());
    let total = p.steps;
    let mut r = std::mem::ManuallyDrop::new(Recorder {
        w,
        live: Vec::new(),
        curs: BTreeMap::new(),
        held: Vec::new(),
        wrote: BTreeMap::new(),
        next_cursor: 0,
        out: String::new(),
        steps: 0,
        stop: false,
        p,
        rng: &mut fork,
        log,
    });
    let mut idle = 0;
    while r.steps < total && !r.stop && idle < 200 {
        let before = r.steps;
        r.act()?;
        idle = if r.steps == before { idle + 1 } else { 0 };
    }
    let gentle = rng.chance(1, 2);
    if gentle && !r.stop {
        r.teardown()?;
    }
    let line = format!("{{\"id\":{},\"steps\":[{}]}}\n", esc(id), std::mem::take(&mut r.out));
    let steps = r.steps;
    if !r.stop {
        let r = std::mem::ManuallyDrop::into_inner(r);
        let Recorder { mut w, curs, held, .. } = r;
        quiet(move || drop(held)).map_err(|e| format!("[life] releasing borrows panicked: {e}"))?;
        quiet(move || drop(curs)).map_err(|e| format!("[life] dropping traversals panicked: {e}"))?;
        w.borrowed.clear();
        w.finish(rng)?;
    }
    Ok((line, steps))
}
