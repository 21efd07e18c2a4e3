//! The real objects behind a state of the specification, the execution of
//! operations on them, and the comparison of everything observable.
use crate::json::J;
use crate::util::*;
use dendron::tree::{HierarchyEditGrant, HierarchyEditProhibition};
use dendron::traverse::DftEvent;
use dendron::*;
use std::collections::HashMap;

pub type N = Node<Payload>;
pub type H = HotNode<Payload>;
pub type F = FrozenNode<Payload>;
pub type G = HierarchyEditGrant<Payload>;
pub type P = HierarchyEditProhibition<Payload>;

pub struct NodeRec {
    pub weak: NodeWeak<Payload>,
    pub serial: u64,
    pub val: i64,
    pub p: Vec<N>,
    pub h: Vec<H>,
    pub f: Vec<F>,
}
#[derive(Default)]
pub struct TreeRec {
    pub weak: Option<TreeWeak<Payload>>,
    pub th: Vec<Tree<Payload>>,
    pub g: Vec<G>,
    pub p: Vec<P>,
}

/// All handles of the walk, by label of the current specification state (index 0 unused).
#[derive(Default)]
pub struct World {
    pub nodes: Vec<Option<NodeRec>>,
    pub trees: Vec<TreeRec>,
    pub dead_g: Vec<G>,
    pub dead_p: Vec<P>,
    pub hollow: Vec<Tree<Payload>>,
    pub graves: Vec<(NodeWeak<Payload>, u64)>,
    pub tree_graves: Vec<TreeWeak<Payload>>,
    pub lab: HashMap<u64, usize>,
    pub nextval: i64,
    pub ticks: usize,
    /// Outstanding borrows, by serial: -1 exclusive, else the number of shared ones.
    pub borrowed: HashMap<u64, i64>,
}

pub trait ToPlain {
    fn as_plain(&self) -> N;
}
impl ToPlain for N {
    fn as_plain(&self) -> N {
        self.clone()
    }
}
impl ToPlain for H {
    fn as_plain(&self) -> N {
        self.plain()
    }
}
impl ToPlain for F {
    fn as_plain(&self) -> N {
        self.plain()
    }
}

pub enum Any {
    P(N),
    H(H),
    F(F),
}
impl Any {
    pub fn to_plain(&self) -> N {
        match self {
            Any::P(n) => n.clone(),
            Any::H(n) => n.plain(),
            Any::F(n) => n.plain(),
        }
    }
}

pub enum Auth<'a> {
    Hot(&'a H),
    Tok(&'a N, &'a G),
}

pub fn err_name(e: &HierarchyError) -> &'static str {
    explain(e);
    #[cfg(feature = "std")]
    if caused_by_borrow(e) != matches!(e, HierarchyError::BorrowNodeData(_)) {
        return "an error with a wrong source";
    }
    match e {
        HierarchyError::AncestorDescendantLoop => "loop",
        HierarchyError::SiblingsWithoutParent => "nosib",
        HierarchyError::EmptyTree => "empty",
        HierarchyError::BorrowNodeData(_) => "borrow",
        _ => "other",
    }
}
pub fn adopt(w: &str) -> AdoptAs {
    match w {
        "first" => AdoptAs::FirstChild,
        "last" => AdoptAs::LastChild,
        "prev" => AdoptAs::PreviousSibling,
        "next" => AdoptAs::NextSibling,
        _ => panic!("bad place {w}"),
    }
}
pub fn insert<'a>(w: &str, a: &'a H) -> InsertAs<&'a H> {
    let i = match w {
        "first" => InsertAs::FirstChildOf(a),
        "last" => InsertAs::LastChildOf(a),
        "prev" => InsertAs::PreviousSiblingOf(a),
        "next" => InsertAs::NextSiblingOf(a),
        _ => panic!("bad place {w}"),
    };
    i.as_ref().map(|a| *a)
}

/// Adds a category unless the message has one.
pub fn cat(c: &str, e: String) -> String {
    if e.starts_with('[') {
        e
    } else {
        format!("[{c}] {e}")
    }
}

/// After a discrepancy, looks for others too: each speaks about other properties.
pub fn also(first: Result<(), String>, next: impl FnOnce() -> Result<(), String>) -> Result<(), String> {
    match first {
        Ok(()) => next(),
        Err(e) if e.starts_with('[') => Err(match quiet(next) {
            Ok(Err(e2)) if e2.starts_with('[') => format!("{e} & {e2}"),
            _ => e,
        }),
        other => other,
    }
}

/// (result, new handle). The result is "ok", an error name, or "panic".
pub type Out = (String, Option<Any>);

/// Flattens a caught call: panics become the result "panic".
pub fn caught(r: Result<Result<Option<Any>, &'static str>, String>) -> Out {
    match r {
        Ok(Ok(h)) => ("ok".into(), h),
        Ok(Err(e)) => (e.into(), None),
        Err(m) => (format!("panic: {m}"), None),
    }
}

/// Does the observed result match the one the specification allows?  A refusal shows up
/// as the error in the fallible variant and as a panic in the panicking one.
pub fn result_matches(expected: &str, got: &str, panicking: bool) -> bool {
    match expected {
        "ok" | "none" => got == expected,
        "panic" => got.starts_with("panic"),
        "err" => got == "err",
        "borrow" => got == "borrow" || got.starts_with("panic: [precondition]"),
        // For more than one reason.
        "refused" => got == "borrow" || got == "nosib" || got.starts_with("panic: [precondition]"),
        refusal => {
            if panicking {
                got.starts_with("panic: [precondition]")
            } else {
                got == refusal
            }
        }
    }
}

fn m<T>(r: Result<T, HierarchyError>) -> Result<T, &'static str> {
    r.map_err(|e| err_name(&e))
}

/// Creation, detaching, moving, interrupting, replacing: `op` is the structural operation.
/// Returns the outcome and whether a panicking variant was used.
pub fn edit(op: &J, auth: Auth<'_>, anchor: Option<&H>, val: i64, rng: &mut Rng) -> (Out, bool) {
    let kind = op.at(0).s().to_string();
    let style = rng.below(4);
    let pl = Payload::new(val);
    match (kind.as_str(), auth) {
        ("create", Auth::Hot(x)) => {
            let w = op.at(2).s();
            let r = quiet(|| match style {
                0 => m(x.try_create_node_as(pl, adopt(w))),
                1 => Ok(x.create_node_as(pl, adopt(w))),
                2 => match w {
                    "first" => Ok(x.create_as_first_child(pl)),
                    "last" => Ok(x.create_as_last_child(pl)),
                    "prev" => m(x.try_create_as_prev_sibling(pl)),
                    _ => m(x.try_create_as_next_sibling(pl)),
                },
                _ => match w {
                    "first" => Ok(x.create_as_first_child(pl)),
                    "last" => Ok(x.create_as_last_child(pl)),
                    "prev" => Ok(x.create_as_prev_sibling(pl)),
                    _ => Ok(x.create_as_next_sibling(pl)),
                },
            });
            (caught(r.map(|r| r.map(|h| Some(Any::H(h))))), style == 1 || style == 3)
        }
        ("create", Auth::Tok(x, g)) => {
            let w = op.at(2).s();
            let r = quiet(|| match style {
                0 => m(x.try_create_node_as(g, pl, adopt(w))),
                1 => Ok(x.create_node_as(g, pl, adopt(w))),
                2 => match w {
                    "first" => Ok(x.create_as_first_child(g, pl)),
                    "last" => Ok(x.create_as_last_child(g, pl)),
                    "prev" => m(x.try_create_as_prev_sibling(g, pl)),
                    _ => m(x.try_create_as_next_sibling(g, pl)),
                },
                _ => match w {
                    "first" => Ok(x.create_as_first_child(g, pl)),
                    "last" => Ok(x.create_as_last_child(g, pl)),
                    "prev" => Ok(x.create_as_prev_sibling(g, pl)),
                    _ => Ok(x.create_as_next_sibling(g, pl)),
                },
            });
            (caught(r.map(|r| r.map(|h| Some(Any::P(h))))), style == 1 || style == 3)
        }
        ("detach", Auth::Hot(x)) => (caught(quiet(|| { x.detach_subtree(); Ok(None) })), false),
        ("detach", Auth::Tok(x, g)) => (caught(quiet(|| { x.detach_subtree(g); Ok(None) })), false),
        ("move", auth) => {
            let w = op.at(3).s();
            let a = anchor.expect("anchor");
            let p = style % 2 == 1;
            let r = quiet(|| match auth {
                Auth::Hot(x) if p => { x.detach_insert_subtree(insert(w, a)); Ok(None) }
                Auth::Hot(x) => m(x.try_detach_insert_subtree(insert(w, a))).map(|()| None),
                Auth::Tok(x, g) if p => { x.detach_insert_subtree(g, insert(w, a)); Ok(None) }
                Auth::Tok(x, g) => m(x.try_detach_insert_subtree(g, insert(w, a))).map(|()| None),
            });
            (caught(r), p)
        }
        ("iparent", Auth::Hot(x)) => (caught(quiet(|| Ok(Some(Any::H(x.create_as_interrupting_parent(pl)))))), false),
        ("iparent", Auth::Tok(x, g)) => (caught(quiet(|| Ok(Some(Any::P(x.create_as_interrupting_parent(g, pl)))))), false),
        ("ichild", Auth::Hot(x)) => (caught(quiet(|| Ok(Some(Any::H(x.create_as_interrupting_child(pl)))))), false),
        ("ichild", Auth::Tok(x, g)) => (caught(quiet(|| Ok(Some(Any::P(x.create_as_interrupting_child(g, pl)))))), false),
        ("replace", auth) => {
            let p = style % 2 == 1;
            let r = quiet(|| match auth {
                Auth::Hot(x) if p => { x.replace_with_children(); Ok(None) }
                Auth::Hot(x) => m(x.try_replace_with_children()).map(|()| None),
                Auth::Tok(x, g) if p => { x.replace_with_children(g); Ok(None) }
                Auth::Tok(x, g) => m(x.try_replace_with_children(g)).map(|()| None),
            });
            (caught(r), p)
        }
        (k, _) => panic!("not an edit: {k}"),
    }
}

/// Runs `f`, which copies the subtree of x. Now and then, the data look around when they are copied.
fn copying<R>(x: &Any, f: impl FnOnce() -> R) -> R {
    if last_serial() % 4 == 0 {
        watching(unchanged(vec![x.to_plain()], |p: &Payload| p.serial), f)
    } else {
        f()
    }
}

/// clone_subtree in one of its variants.
pub fn clone_subtree(x: &Any, style: usize) -> Out {
    let p = style % 2 == 1;
    let r = quiet(|| copying(x, || {
        let n = x.to_plain();
        match style / 2 {
            1 if n.is_root() => {
                let t = n.tree();
                let t2 = if p { t.clone_tree() } else { t.try_clone_tree().map_err(|_| "borrow")? };
                Ok(Some(Any::P(t2.root())))
            }
            2 => {
                let evs: Result<Vec<_>, _> = match x {
                    Any::P(n) => n.to_events().collect(),
                    Any::H(n) => n.to_events().collect(),
                    Any::F(n) => n.to_events().collect(),
                };
                let evs = evs.map_err(|_| "borrow")?;
                let n: Result<N, _> = evs.into_iter().collect();
                n.map(|n| Some(Any::P(n))).map_err(|_| "build")
            }
            _ => match x {
                Any::P(n) if p => Ok(Some(Any::P(n.clone_subtree()))),
                Any::P(n) => n.try_clone_subtree().map(|n| Some(Any::P(n))).map_err(|_| "borrow"),
                Any::H(n) if p => Ok(Some(Any::P(n.clone_subtree()))),
                Any::H(n) => n.try_clone_subtree().map(|n| Some(Any::P(n))).map_err(|_| "borrow"),
                Any::F(n) if p => Ok(Some(Any::P(n.clone_subtree()))),
                Any::F(n) => n.try_clone_subtree().map(|n| Some(Any::P(n))).map_err(|_| "borrow"),
            },
        }
    }));
    caught(r)
}

pub fn clone_insert(x: &Any, w: &str, a: &H, style: usize) -> (Out, bool) {
    let p = style % 2 == 1 && !matches!(x, Any::F(_));
    let go = || {
        Ok(Some(Any::H(match x {
            Any::P(n) if p => n.clone_insert_subtree(insert(w, a)),
            Any::P(n) => m(n.try_clone_insert_subtree(insert(w, a)))?,
            Any::H(n) if p => n.clone_insert_subtree(insert(w, a)),
            Any::H(n) => m(n.try_clone_insert_subtree(insert(w, a)))?,
            Any::F(n) => m(n.try_clone_insert_subtree(insert(w, a)))?,
        })))
    };
    // (A copy that is inserted into the subtree might be seen.)
    let top = x.to_plain();
    let inside = std::iter::successors(Some(a.plain()), |n| n.parent()).any(|n| n.ptr_eq(&top));
    let r = quiet(|| if inside { go() } else { copying(x, go) });
    (caught(r), p)
}

/// Serials of the subtree of `n`, in preorder, by first child / next sibling; bounded.
pub fn preorder_handles(n: &N, limit: usize) -> Vec<N> {
    let mut out = Vec::new();
    let mut stack = vec![n.clone()];
    while let Some(x) = stack.pop() {
        if out.len() > limit {
            break;
        }
        if out.len() > 0 {
            if let Some(s) = x.next_sibling() {
                stack.push(s);
            }
        }
        if let Some(c) = x.first_child() {
            stack.push(c);
        }
        out.push(x);
    }
    out
}

macro_rules! observe_fn {
    ($name:ident, $ty:ty) => {
        /// Compares everything a handle tells about its surroundings with the specification.
        pub fn $name(&self, h: &$ty, x: usize, o: &J, lists: bool) -> Result<(), String> {
            let lab = |n: &$ty| -> usize {
                match n.try_borrow_data() {
                    Ok(d) => self.lab.get(&d.serial).copied().unwrap_or(usize::MAX),
                    Err(_) => self.label_slow(&n.as_plain()),
                }
            };
            let lo = |n: Option<$ty>| n.map_or(0, |n| lab(&n));
            let me = lab(h);
            if me != x {
                return Err(format!("handle of node {x} denotes {me}"));
            }
            macro_rules! ck {
                ($what:expr, $got:expr, $want:expr) => {{
                    let (g, w) = ($got, $want);
                    if g != w {
                        return Err(format!("{}({x}) is {:?}, specification says {:?}", $what, g, w));
                    }
                }};
            }
            let parent = o.get("parent").u();
            let kids = o.get("kids").us();
            let anc = o.get("anc").us();
            let prec = o.get("prec").us();
            let foll = o.get("foll").us();
            ck!("parent", lo(h.parent()), parent);
            ck!("first_child", lo(h.first_child()), o.get("fchild").u());
            ck!("last_child", lo(h.last_child()), o.get("lchild").u());
            ck!("prev_sibling", lo(h.prev_sibling()), o.get("prev").u());
            ck!("next_sibling", lo(h.next_sibling()), o.get("next").u());
            ck!("first_sibling", lab(&h.first_sibling()), o.get("fsib").u());
            ck!("last_sibling", lab(&h.last_sibling()), o.get("lsib").u());
            let (a, b) = h.first_last_sibling();
            ck!("first_last_sibling", (lab(&a), lab(&b)), (o.get("fsib").u(), o.get("lsib").u()));
            ck!("first_last_child", h.first_last_child().map_or((0, 0), |(a, b)| (lab(&a), lab(&b))), (o.get("fchild").u(), o.get("lchild").u()));
            ck!("is_root", h.is_root(), parent == 0);
            ck!("root", lab(&h.root()), o.get("root").u());
            ck!("has_prev_sibling", h.has_prev_sibling(), !prec.is_empty());
            ck!("has_next_sibling", h.has_next_sibling(), !foll.is_empty());
            ck!("num_children", h.num_children(), kids.len());
            ck!("has_children", h.has_children(), !kids.is_empty());
            ck!("has_one_child", h.has_one_child(), kids.len() == 1);
            ck!("has_multiple_children", h.has_multiple_children(), kids.len() > 1);
            ck!("count_children", h.count_children(), kids.len());
            ck!("count_preceding_siblings", h.count_preceding_siblings(), prec.len());
            ck!("count_following_siblings", h.count_following_siblings(), foll.len());
            ck!("count_ancestors", h.count_ancestors(), anc.len());
            if lists {
                // The forest has at most `cap` nodes: cut off runaway iterations.
                let cap = 4 * (self.nodes.len() + 2);
                let pl = |n: N| -> usize { self.label(&n) };
                let rev = |v: &[usize]| -> Vec<usize> { v.iter().rev().copied().collect() };
                let selfs = |a: &[usize], b: &[usize]| -> Vec<usize> { a.iter().copied().chain([x]).chain(b.iter().copied()).collect() };
                let all = selfs(&prec, &foll);
                ck!("children", h.children().take(cap).map(pl).collect::<Vec<_>>(), kids.clone());
                ck!("children_reverse", h.children_reverse().take(cap).map(pl).collect::<Vec<_>>(), rev(&kids));
                ck!("siblings", h.siblings().take(cap).map(pl).collect::<Vec<_>>(), all.clone());
                ck!("siblings_reverse", h.siblings_reverse().take(cap).map(pl).collect::<Vec<_>>(), rev(&all));
                ck!("preceding_siblings_reverse", h.preceding_siblings_reverse().take(cap).map(pl).collect::<Vec<_>>(), rev(&prec));
                ck!("preceding_siblings_or_self_reverse", h.preceding_siblings_or_self_reverse().take(cap).map(pl).collect::<Vec<_>>(), rev(&selfs(&prec, &[])));
                ck!("following_siblings", h.following_siblings().take(cap).map(pl).collect::<Vec<_>>(), foll.clone());
                ck!("following_siblings_or_self", h.following_siblings_or_self().take(cap).map(pl).collect::<Vec<_>>(), selfs(&[], &foll));
                ck!("ancestors", h.ancestors().take(cap).map(pl).collect::<Vec<_>>(), anc.clone());
                ck!("ancestors_or_self", h.ancestors_or_self().take(cap).map(pl).collect::<Vec<_>>(), selfs(&[], &anc));
                let pre = o.get("pre").us();
                let opens = h.depth_first_traverse().take(2 * cap).filter_map(DftEvent::into_open).map(pl).collect::<Vec<_>>();
                ck!("depth_first_traverse", opens, pre.clone());
                let closes = h.depth_first_reverse_traverse().take(2 * cap).filter_map(DftEvent::into_open).map(pl).collect::<Vec<_>>();
                ck!("depth_first_reverse_traverse", closes, rev(&pre));
            }
            Ok(())
        }
    };
}

impl World {
    pub fn new() -> World {
        World { nodes: vec![None], trees: vec![TreeRec::default()], nextval: 100, ..World::default() }
    }
    pub fn rec(&self, x: usize) -> &NodeRec {
        self.nodes[x].as_ref().expect("node record")
    }
    pub fn rec_mut(&mut self, x: usize) -> &mut NodeRec {
        self.nodes[x].as_mut().expect("node record")
    }
    pub fn fresh_val(&mut self) -> i64 {
        self.nextval += 1;
        self.nextval
    }
    pub fn reindex(&mut self) {
        self.lab.clear();
        for (i, n) in self.nodes.iter().enumerate() {
            if let Some(n) = n {
                self.lab.insert(n.serial, i);
            }
        }
    }
    /// The label of a node; usize::MAX if it is none of the known ones.
    pub fn label(&self, n: &N) -> usize {
        match n.try_borrow_data() {
            Ok(d) => self.lab.get(&d.serial).copied().unwrap_or(usize::MAX),
            Err(_) => self.label_slow(n),
        }
    }
    /// Of a node whose data cannot be read.
    pub fn label_slow(&self, n: &N) -> usize {
        let is = |r: &NodeRec| self.borrowed.get(&r.serial) == Some(&-1) && r.weak.upgrade().is_some_and(|m| m.ptr_eq(n));
        self.nodes.iter().position(|r| r.as_ref().is_some_and(is)).unwrap_or(usize::MAX)
    }
    /// What a handle says about the data of its node.
    fn check_data(&self, x: usize, read: Result<(u64, i64), ()>, writable: bool) -> Result<(), String> {
        let r = self.rec(x);
        let b = self.borrowed.get(&r.serial).copied().unwrap_or(0);
        match read {
            Err(()) if b == -1 => {}
            Err(()) => return Err(format!("[data] data of node {x} cannot be read")),
            Ok(_) if b == -1 => return Err(format!("[data] data of node {x} can be read although borrowed exclusively")),
            Ok((serial, val)) => {
                if serial != r.serial || val != r.val {
                    return Err(format!("[data] node {x} carries data #{serial}={val}, expected #{}={}", r.serial, r.val));
                }
            }
        }
        if writable != (b == 0) {
            return Err(format!("[data] data of node {x} can{} be borrowed exclusively, with borrows {b}", if writable { "" } else { "not" }));
        }
        Ok(())
    }
    /// A transient plain handle: held, or upgraded.
    pub fn plain(&self, x: usize) -> Result<N, String> {
        let r = self.rec(x);
        if let Some(n) = r.p.first() {
            return Ok(n.clone());
        }
        r.weak.upgrade().ok_or_else(|| format!("[life] node {x} should be alive, but its weak reference does not upgrade"))
    }

    /// Registers new nodes: `born` are their labels (old naming), `first` a handle of the first.
    /// `vals` are the expected data values.
    pub fn register(&mut self, born: &[usize], first: &Any, vals: &[i64]) -> Result<(), String> {
        let hs = preorder_handles(&first.to_plain(), born.len() + 2);
        let single = born.len() == 1;
        if !single && hs.len() != born.len() {
            return Err(format!("{} new nodes expected, the new subtree has {}", born.len(), hs.len()));
        }
        for (i, b) in born.iter().enumerate() {
            let h = &hs[i];
            let (serial, val) = {
                let d = h.try_borrow_data().map_err(|_| "data of a new node is not readable")?;
                (d.serial, d.val)
            };
            if val != vals[i] {
                return Err(format!("new node {b} carries {val}, expected {}", vals[i]));
            }
            if self.nodes.iter().flatten().any(|n| n.serial == serial) {
                return Err(format!("node {b} should be new, but is an existing one"));
            }
            if self.nodes.len() <= *b {
                self.nodes.resize_with(*b + 1, || None);
            }
            self.nodes[*b] = Some(NodeRec { weak: h.downgrade().clone(), serial, val, p: vec![], h: vec![], f: vec![] });
        }
        Ok(())
    }
    pub fn keep(&mut self, x: usize, h: Any) {
        let r = self.rec_mut(x);
        match h {
            Any::P(n) => r.p.push(n),
            Any::H(n) => r.h.push(n),
            Any::F(n) => r.f.push(n),
        }
    }

    /// Renames to the labels of the next specification state; what is not in
    /// `order`/`torder` any more is gone.
    pub fn relabel(&mut self, order: &[usize], torder: &[usize]) -> Result<(), String> {
        let mut nodes: Vec<Option<NodeRec>> = Vec::with_capacity(order.len() + 1);
        nodes.push(None);
        for o in order {
            let r = self.nodes.get_mut(*o).and_then(Option::take).ok_or_else(|| format!("harness: no record of node {o}"))?;
            nodes.push(Some(r));
        }
        for r in self.nodes.drain(..).flatten() {
            if !(r.p.is_empty() && r.h.is_empty() && r.f.is_empty()) {
                return Err("harness: a dead node has handles".into());
            }
            self.graves.push((r.weak, r.serial));
        }
        self.nodes = nodes;
        let mut trees = vec![TreeRec::default()];
        let mut old: Vec<Option<TreeRec>> = self.trees.drain(..).map(Some).collect();
        for t in torder {
            trees.push(old.get_mut(*t).and_then(Option::take).unwrap_or_default());
        }
        for t in old.into_iter().skip(1).flatten() {
            if let Some(w) = t.weak {
                if t.th.is_empty() {
                    self.tree_graves.push(w);
                }
            }
            self.hollow.extend(t.th);
            self.dead_g.extend(t.g);
            self.dead_p.extend(t.p);
        }
        self.trees = trees;
        self.reindex();
        Ok(())
    }

    observe_fn!(obs_plain, N);
    observe_fn!(obs_hot, H);
    observe_fn!(obs_frozen, F);

    /// Compares the whole world with the specification state, and tells everything that differs.
    /// `views`: look through hot and frozen views as far as locks permit.
    pub fn observe(&mut self, obs: &J, lists: bool, views: bool) -> Result<(), String> {
        let nodes_o = if obs.get("nodes").is_null() { obs } else { obs.get("nodes") };
        let first = self.observe_all(obs, lists, views);
        also(first, || self.observe_locks(obs, nodes_o).map_err(|e| cat("lock", e)))
    }
    pub fn observe_nolock(&mut self, obs: &J, lists: bool) -> Result<(), String> {
        self.observe_all(obs, lists, false)
    }
    /// Formatting handles must not have any effect (which the observation would show) nor panic.
    pub fn format_all(&self) -> Result<(), String> {
        use std::fmt::Write;
        quiet(|| {
            let mut out = Sink;
            let mut put = |x: &dyn std::fmt::Debug| write!(out, "{x:?}").is_ok() && write!(out, "{x:#?}").is_ok();
            for r in self.nodes.iter().flatten() {
                put(&r.weak);
                r.p.iter().take(3).for_each(|h| _ = put(h));
                r.h.iter().take(3).for_each(|h| _ = put(h) && put(&h.debug_print_subtree()));
                r.f.iter().take(3).for_each(|h| _ = put(h) && put(&h.debug_print_subtree()));
            }
            for t in &self.trees {
                t.weak.iter().for_each(|h| _ = put(h));
                t.th.iter().take(3).for_each(|h| _ = put(h) && put(&h.debug_print()));
            }
            self.graves.iter().take(9).for_each(|(w, _)| _ = put(w));
            self.tree_graves.iter().take(9).for_each(|w| _ = put(w));
        })
        .map_err(|e| format!("[pretty] formatting a handle panicked: {e}"))
    }
    fn observe_all(&mut self, obs: &J, lists: bool, views: bool) -> Result<(), String> {
        self.ticks += 1;
        if self.ticks % 5 == 0 {
            self.format_all()?;
        }
        let nodes_o = if obs.get("nodes").is_null() { obs } else { obs.get("nodes") };
        let n = nodes_o.arr().len();
        if n + 1 != self.nodes.len() {
            return Err(format!("harness: {} records for {} nodes", self.nodes.len() - 1, n));
        }
        let life = self.observe_lives(n);
        let nav = also(life, || self.observe_links(nodes_o, lists, views));
        also(nav, || self.observe_trees(nodes_o).map_err(|e| cat("member", e)))
    }

    /// Lifetimes and data.
    fn observe_lives(&self, n: usize) -> Result<(), String> {
        for x in 1..=n {
            let r = self.rec(x);
            if drops_of(r.serial) != 0 {
                return Err(format!("[life] data of living node {x} has been dropped"));
            }
            let up = r.weak.upgrade().ok_or_else(|| format!("[life] weak reference of living node {x} does not upgrade"))?;
            macro_rules! data {
                ($h:expr) => {{
                    let read = $h.try_borrow_data().map(|d| (d.serial, d.val)).map_err(|_| ());
                    self.check_data(x, read, $h.try_borrow_data_mut().is_ok())?;
                }};
            }
            data!(up);
            r.h.first().map_or(Ok(()), |h| { data!(h); Ok::<(), String>(()) })?;
            r.f.first().map_or(Ok(()), |h| { data!(h); Ok::<(), String>(()) })?;
        }
        self.observe_graves()
    }

    /// Navigation through every handle.
    fn observe_links(&self, nodes_o: &J, lists: bool, views: bool) -> Result<(), String> {
        for x in 1..self.nodes.len() {
            let o = nodes_o.at(x - 1);
            let r = self.rec(x);
            for h in &r.p {
                self.obs_plain(h, x, o, lists).map_err(|e| format!("[nav] {e}"))?;
            }
            for h in &r.h {
                self.obs_hot(h, x, o, lists).map_err(|e| format!("[nav] hot view: {e}"))?;
            }
            for h in &r.f {
                self.obs_frozen(h, x, o, lists).map_err(|e| format!("[nav] frozen view: {e}"))?;
            }
            if r.p.is_empty() {
                self.obs_plain(&self.plain(x)?, x, o, lists).map_err(|e| format!("[nav] {e}"))?;
            }
            if views {
                if r.h.is_empty() {
                    if let Ok(h) = self.plain(x)?.bundle_new_hierarchy_edit_grant() {
                        self.check_data(x, h.try_borrow_data().map(|d| (d.serial, d.val)).map_err(|_| ()), h.try_borrow_data_mut().is_ok())?;
                        self.obs_hot(&h, x, o, lists).map_err(|e| format!("[nav] hot view: {e}"))?;
                    }
                }
                if r.f.is_empty() {
                    if let Ok(h) = self.plain(x)?.bundle_new_hierarchy_edit_prohibition() {
                        self.check_data(x, h.try_borrow_data().map(|d| (d.serial, d.val)).map_err(|_| ()), h.try_borrow_data_mut().is_ok())?;
                        self.obs_frozen(&h, x, o, lists).map_err(|e| format!("[nav] frozen view: {e}"))?;
                    }
                }
            }
        }
        Ok(())
    }

    pub fn observe_graves(&self) -> Result<(), String> {
        if !self.hollow.is_empty() {
            // Nothing is promised about what a hollow Tree handle keeps alive (known finding).
            return Ok(());
        }
        for (w, serial) in &self.graves {
            match drops_of(*serial) {
                1 => {}
                0 => return Err(format!("[life] a node that nothing refers to is still alive (data #{serial} was never dropped)")),
                k => return Err(format!("[life] data #{serial} was dropped {k} times")),
            }
            if w.upgrade().is_some() {
                return Err(format!("[life] weak reference to a dead node (data #{serial}) upgrades"));
            }
        }
        for w in &self.tree_graves {
            if w.upgrade().is_some() {
                return Err("[life] weak reference to a dead tree upgrades".into());
            }
        }
        Ok(())
    }

    /// Tree identity and membership.
    pub fn observe_trees(&mut self, nodes_o: &J) -> Result<(), String> {
        let n = self.nodes.len() - 1;
        for x in 1..=n {
            let t = nodes_o.at(x - 1).get("tree").u();
            let node = self.plain(x)?;
            let tree = node.tree();
            if let Some(w) = &self.trees[t].weak {
                let up = w.upgrade().ok_or_else(|| format!("[life] weak reference of living tree {t} does not upgrade"))?;
                if !up.ptr_eq(&tree) {
                    return Err(format!("node {x} does not belong to tree {t} it belonged to"));
                }
            } else {
                self.trees[t].weak = Some(tree.downgrade().clone());
            }
            for th in &self.trees[t].th {
                if !th.ptr_eq(&tree) || !node.belongs_to(th) {
                    return Err(format!("a Tree handle of tree {t} does not denote the tree of its node {x}"));
                }
            }
            let root = nodes_o.at(x - 1).get("root").u();
            let got = self.label(&tree.root());
            if got != root {
                return Err(format!("root of the tree of node {x} is {got}, specification says {root}"));
            }
            if !node.belongs_to(&tree) {
                return Err(format!("node {x} does not belong to its own tree"));
            }
            for t2 in 1..self.trees.len() {
                if t2 != t {
                    if let Some(th) = self.trees[t2].th.first() {
                        if node.belongs_to(th) || th.ptr_eq(&tree) {
                            return Err(format!("node {x} of tree {t} claims to belong to tree {t2}"));
                        }
                    }
                    if let Some(up) = self.trees[t2].weak.as_ref().and_then(TreeWeak::upgrade) {
                        if up.ptr_eq(&tree) {
                            return Err(format!("trees {t} and {t2} are not distinct"));
                        }
                    }
                }
            }
            for y in 1..=n {
                let ny = self.plain(y)?;
                let same = nodes_o.at(y - 1).get("root").u() == root;
                if node.belongs_to_same_tree(&ny) != same {
                    return Err(format!("belongs_to_same_tree({x}, {y}) is {}", !same));
                }
                if node.ptr_eq(&ny) != (x == y) {
                    return Err(format!("ptr_eq({x}, {y}) is {}", x != y));
                }
                let (rx, ry) = (self.rec(x), self.rec(y));
                for hx in &rx.h {
                    for hy in &ry.h {
                        if hx.belongs_to_same_tree(hy) != same || hx.ptr_eq(hy) != (x == y) {
                            return Err(format!("hot nodes {x}, {y}: wrong belongs_to_same_tree or ptr_eq"));
                        }
                    }
                    if hx.ptr_eq_plain(&ny) != (x == y) {
                        return Err(format!("hot node {x}, node {y}: wrong ptr_eq_plain"));
                    }
                    if !hx.tree().ptr_eq(&tree) || !hx.belongs_to(&tree) {
                        return Err(format!("hot node {x}: wrong tree"));
                    }
                }
                for fx in &rx.f {
                    for fy in &ry.f {
                        if fx.belongs_to_same_tree(fy) != same || fx.ptr_eq(fy) != (x == y) {
                            return Err(format!("frozen nodes {x}, {y}: wrong belongs_to_same_tree or ptr_eq"));
                        }
                    }
                    if !fx.tree().ptr_eq(&tree) || !fx.belongs_to(&tree) {
                        return Err(format!("frozen node {x}: wrong tree"));
                    }
                }
            }
        }
        Ok(())
    }

    /// Which locks could be acquired now, and which tokens are valid where.
    pub fn observe_locks(&self, obs: &J, nodes_o: &J) -> Result<(), String> {
        let n = self.nodes.len() - 1;
        for t in 1..self.trees.len() {
            let g_ok = obs.get("grantable").is_null() || obs.get("grantable").at(t - 1).b();
            let p_ok = obs.get("prohibitable").is_null() || obs.get("prohibitable").at(t - 1).b();
            let Some(x) = (1..=n).find(|x| nodes_o.at(x - 1).get("tree").u() == t) else { continue };
            let tree = self.plain(x)?.tree();
            let g = quiet(|| tree.grant_hierarchy_edit().is_ok()).map_err(|e| format!("acquiring a grant for tree {t} panicked: {e}"))?;
            if g != g_ok {
                return Err(format!("edit grant of tree {t} is {}acquirable", if g { "" } else { "not " }));
            }
            let p = quiet(|| tree.prohibit_hierarchy_edit().is_ok()).map_err(|e| format!("acquiring a prohibition for tree {t} panicked: {e}"))?;
            if p != p_ok {
                return Err(format!("edit prohibition of tree {t} is {}acquirable", if p { "" } else { "not " }));
            }
            for x in 1..=n {
                let of_t = nodes_o.at(x - 1).get("tree").u() == t;
                let node = self.plain(x)?;
                for g in &self.trees[t].g {
                    if g.is_valid_for_node(&node) != of_t {
                        return Err(format!("[token] grant of tree {t} claims to be {}valid for node {x}", if of_t { "in" } else { "" }));
                    }
                }
                for g in &self.trees[t].p {
                    if g.is_valid_for_node(&node) != of_t {
                        return Err(format!("[token] prohibition of tree {t} claims to be {}valid for node {x}", if of_t { "in" } else { "" }));
                    }
                }
            }
        }
        for x in 1..=n {
            let node = self.plain(x)?;
            if self.dead_g.iter().any(|g| g.is_valid_for_node(&node)) || self.dead_p.iter().any(|g| g.is_valid_for_node(&node)) {
                return Err(format!("[token] a token of a tree that is gone claims to be valid for node {x}"));
            }
        }
        Ok(())
    }

    /// Drops everything, in a random order, and checks that nothing is left.
    pub fn finish(mut self, rng: &mut Rng) -> Result<(), String> {
        enum D { N(#[allow(dead_code)] N), H(#[allow(dead_code)] H), F(#[allow(dead_code)] F), T(#[allow(dead_code)] Tree<Payload>), G(#[allow(dead_code)] G), P(#[allow(dead_code)] P) }
        let mut v: Vec<D> = Vec::new();
        let mut ws = Vec::new();
        let mut tws = Vec::new();
        for r in self.nodes.drain(..).flatten() {
            ws.push((r.weak, r.serial));
            v.extend(r.p.into_iter().map(D::N));
            v.extend(r.h.into_iter().map(D::H));
            v.extend(r.f.into_iter().map(D::F));
        }
        for t in self.trees.drain(..) {
            tws.extend(t.weak);
            v.extend(t.th.into_iter().map(D::T));
            v.extend(t.g.into_iter().map(D::G));
            v.extend(t.p.into_iter().map(D::P));
        }
        v.extend(self.hollow.drain(..).map(D::T));
        v.extend(self.dead_g.drain(..).map(D::G));
        v.extend(self.dead_p.drain(..).map(D::P));
        while !v.is_empty() {
            let i = rng.below(v.len());
            let d = v.swap_remove(i);
            quiet(move || drop(d)).map_err(|e| format!("[life] dropping a handle panicked: {e}"))?;
        }
        self.graves.extend(ws);
        self.tree_graves.extend(tws);
        self.observe_graves()?;
        for s in 1..=last_serial() {
            if drops_of(s) > 1 {
                return Err(format!("[life] data #{s} was dropped {} times", drops_of(s)));
            }
            if drops_of(s) == 0 {
                return Err(format!("[life] data #{s} was never dropped although all handles are gone"));
            }
        }
        Ok(())
    }
}
