//! Replays MCEqual: every pair of labelled subtrees, compared in every way there is.
use crate::json::J;
use crate::util::*;
use crate::Log;
use dendron::*;
use std::cell::Cell;
use std::rc::Rc;

/// Data; the label 9 is not equal to itself.
#[derive(Debug, Clone, Copy)]
pub struct E(pub i64);
/// Data of another type.
#[derive(Debug, Clone, Copy)]
pub struct W(pub i64, #[allow(dead_code)] u8);

fn same(a: i64, b: i64) -> bool {
    on_use();
    a == b && a != 9
}
impl PartialEq for E {
    fn eq(&self, o: &E) -> bool {
        same(self.0, o.0)
    }
}
impl PartialEq for W {
    fn eq(&self, o: &W) -> bool {
        same(self.0, o.0)
    }
}
impl PartialEq<W> for E {
    fn eq(&self, o: &W) -> bool {
        same(self.0, o.0)
    }
}
impl PartialEq<E> for W {
    fn eq(&self, o: &E) -> bool {
        same(self.0, o.0)
    }
}

/// Builds the tree with the given parents (of nodes in preorder), in some random way, possibly
/// inside a larger tree. Returns the nodes.
pub fn grow<T>(par: &[usize], make: &dyn Fn(usize) -> T, junk: &dyn Fn() -> T, rng: &mut Rng) -> Vec<Node<T>> {
    let n = par.len();
    let mut hs: Vec<Option<Node<T>>> = (0..=n).map(|_| None).collect();
    let root = if rng.chance(1, 2) {
        Node::new_tree(make(1))
    } else {
        // Inside a larger tree.
        let top = Node::new_tree(junk());
        let g = top.tree().grant_hierarchy_edit().expect("grant");
        let k = rng.below(3);
        for _ in 0..k {
            top.create_as_last_child(&g, junk());
        }
        let r = match rng.below(3) {
            0 => top.create_as_first_child(&g, make(1)),
            1 if k > 0 => top.first_child().expect("child").create_as_next_sibling(&g, make(1)),
            _ => top.create_as_last_child(&g, make(1)),
        };
        if rng.chance(1, 2) {
            r.create_as_next_sibling(&g, junk());
        }
        r
    };
    hs[1] = Some(root.clone());
    let g = root.tree().grant_hierarchy_edit().expect("grant");
    let mut left: Vec<usize> = (2..=n).collect();
    while !left.is_empty() {
        let ready: Vec<usize> = left.iter().copied().filter(|x| hs[par[*x - 1]].is_some()).collect();
        let x = ready[rng.below(ready.len())];
        left.retain(|y| *y != x);
        let p = par[x - 1];
        let ph = hs[p].clone().expect("parent");
        let before = (2..x).rev().find(|y| par[*y - 1] == p && hs[*y].is_some()).and_then(|y| hs[y].clone());
        let after = (x + 1..=n).find(|y| par[*y - 1] == p && hs[*y].is_some()).and_then(|y| hs[y].clone());
        let h = match (before, after) {
            (None, None) if rng.chance(1, 2) => ph.create_as_first_child(&g, make(x)),
            (None, None) => ph.create_as_last_child(&g, make(x)),
            (None, Some(_)) if rng.chance(1, 2) => ph.create_as_first_child(&g, make(x)),
            (None, Some(a)) => a.create_as_prev_sibling(&g, make(x)),
            (Some(b), None) if rng.chance(1, 2) => b.create_as_next_sibling(&g, make(x)),
            (Some(_), None) => ph.create_as_last_child(&g, make(x)),
            (Some(b), Some(a)) => {
                if rng.chance(1, 2) {
                    b.create_as_next_sibling(&g, make(x))
                } else {
                    a.create_as_prev_sibling(&g, make(x))
                }
            }
        };
        if rng.chance(1, 6) {
            // A detour: a node that is inserted above and dissolved again.
            h.create_as_interrupting_parent(&g, junk());
            h.parent().expect("parent").try_replace_with_children(&g).expect("dissolve");
        }
        hs[x] = Some(h);
    }
    drop(g);
    if rng.chance(1, 3) {
        let r = root.clone();
        if !r.is_root() {
            let g = r.tree().grant_hierarchy_edit().expect("grant");
            if rng.chance(1, 2) {
                r.detach_subtree(&g);
            } else {
                let top = r.root();
                let s = Node::new_tree(junk());
                let g2 = s.tree().grant_hierarchy_edit().expect("grant");
                s.create_as_last_child(&g2, junk());
                let dest = s.bundle_hierarchy_edit_grant(&g2);
                r.try_detach_insert_subtree(&g, InsertAs::FirstChildOf(&dest)).expect("move");
                let _ = top;
            }
        }
    }
    hs.into_iter().skip(1).map(|h| h.expect("built")).collect()
}

struct Views<T> {
    p: Node<T>,
    h: Option<HotNode<T>>,
    f: Option<FrozenNode<T>>,
}
impl<T> Views<T> {
    fn new(p: &Node<T>, kind: usize) -> Views<T> {
        Views {
            p: p.clone(),
            h: (kind == 1).then(|| p.clone().bundle_new_hierarchy_edit_grant().expect("grant")),
            f: (kind == 2).then(|| p.clone().bundle_new_hierarchy_edit_prohibition().expect("prohibition")),
        }
    }
}

/// Subtrees to compare: tree, position, code, odd, size, handle kind.
pub struct Subject {
    tree: usize,
    x: usize,
    size: usize,
    code: String,
    odd: bool,
    kind: usize,
    e: Views<E>,
    w: Views<W>,
}

const KINDS: [&str; 3] = ["plain", "hot", "frozen"];

/// One comparison in one randomly chosen form: Some(result) or None for "not readable".
fn same_type<T: PartialEq>(a: &Views<T>, b: &Views<T>, roots: bool, style: usize) -> (Result<Option<bool>, String>, &'static str) {
    macro_rules! eqs {
        ($l:expr, $r:expr, $n:literal) => {
            return (quiet(|| Some(if style % 2 == 0 { $l == $r } else { !($l != $r) })), $n)
        };
    }
    if roots && style % 5 == 0 {
        let (s, t) = (a.p.tree(), b.p.tree());
        return match style % 3 {
            0 => (quiet(|| s.try_eq(&t).ok()), "Tree::try_eq"),
            1 => (quiet(|| Some(s == t)), "Tree == Tree"),
            _ => (quiet(|| Some(!(s != t))), "Tree != Tree"),
        };
    }
    match (&a.h, &a.f, &b.h, &b.f) {
        (Some(l), _, Some(r), _) if style % 3 == 0 => eqs!(l, r, "Hot == Hot"),
        (_, Some(l), _, Some(r)) if style % 3 == 0 => eqs!(l, r, "Frozen == Frozen"),
        _ => {}
    }
    mixed(a, b, style)
}

fn mixed<T: PartialEq<U>, U: PartialEq<U>>(a: &Views<T>, b: &Views<U>, style: usize) -> (Result<Option<bool>, String>, &'static str) {
    macro_rules! eqs {
        ($l:expr, $r:expr, $n:literal) => {
            return (quiet(|| Some(if style % 2 == 0 { $l == $r } else { !($l != $r) })), $n)
        };
    }
    macro_rules! forms {
        ($l:expr, $r:expr, $n:literal) => {
            match style / 7 % 3 {
                0 => eqs!(*$l, *$r, $n),
                1 => eqs!(*$l, &*$r, $n),
                _ => eqs!(&*$l, *$r, $n),
            }
        };
    }
    match (&a.h, &a.f, &b.h, &b.f, style % 4) {
        (Some(l), _, Some(r), _, 0) => eqs!(*l, *r, "Hot == Hot"),
        (_, Some(l), _, Some(r), 0) => eqs!(*l, *r, "Frozen == Frozen"),
        (Some(l), _, _, Some(r), 0 | 1) => forms!(l, r, "Hot == Frozen"),
        (_, Some(l), Some(r), _, 0 | 1) => forms!(l, r, "Frozen == Hot"),
        (Some(l), _, _, _, 2) => forms!(l, &b.p, "Hot == Node"),
        (_, Some(l), _, _, 2) => forms!(l, &b.p, "Frozen == Node"),
        (_, _, Some(r), _, 3) => forms!(&a.p, r, "Node == Hot"),
        (_, _, _, Some(r), 3) => forms!(&a.p, r, "Node == Frozen"),
        _ => {}
    }
    if style % 5 < 3 {
        (quiet(|| a.p.try_eq(&b.p).ok()), "Node::try_eq")
    } else {
        (quiet(|| Some(if style % 2 == 0 { a.p == b.p } else { !(a.p != b.p) })), "Node == Node")
    }
}

fn compare(a: &Subject, b: &Subject, style: usize) -> (Result<Option<bool>, String>, &'static str, &'static str) {
    let roots = |p: bool| p && a.x == 1 && b.x == 1;
    match style / 31 % 4 {
        0 => {
            let (r, n) = mixed(&a.e, &b.w, style);
            (r, n, "different data types")
        }
        1 => {
            let (r, n) = mixed(&a.w, &b.e, style);
            (r, n, "different data types")
        }
        2 => {
            let (r, n) = same_type(&a.w, &b.w, roots(a.w.p.is_root() && b.w.p.is_root()), style);
            (r, n, "")
        }
        _ => {
            let (r, n) = same_type(&a.e, &b.e, roots(a.e.p.is_root() && b.e.p.is_root()), style);
            (r, n, "")
        }
    }
}

/// Builds all trees anew.
pub fn subjects(trees: &[&J], rng: &mut Rng) -> Vec<Subject> {
    let mut out = Vec::new();
    for (ti, t) in trees.iter().enumerate() {
        let par = t.get("par").us();
        let lab: Vec<i64> = t.get("lab").arr().iter().map(J::n).collect();
        let e = grow(&par, &|x| E(lab[x - 1]), &|| E(5), rng);
        let w = grow(&par, &|x| W(lab[x - 1], x as u8), &|| W(5, 0), rng);
        let kind = rng.below(3);
        let mut size = vec![1; par.len() + 1];
        for x in (2..=par.len()).rev() {
            size[par[x - 1]] += size[x];
        }
        for x in 1..=par.len() {
            out.push(Subject {
                tree: ti,
                x,
                size: size[x],
                code: t.get("code").at(x - 1).s().to_string(),
                odd: t.get("odd").at(x - 1).b(),
                kind,
                e: Views::new(&e[x - 1], kind),
                w: Views::new(&w[x - 1], kind),
            });
        }
    }
    out
}

fn describe(t: &J, s: &Subject) -> String {
    format!("node {} of {} ({} handle)", s.x, t.get("code").at(0).s(), KINDS[s.kind])
}

fn both(a: &Subject, b: &Subject) -> Rc<dyn Fn()> {
    let e = unchanged(vec![a.e.p.clone(), b.e.p.clone()], |d: &E| d.0 as u64);
    let w = unchanged(vec![a.w.p.clone(), b.w.p.clone()], |d: &W| d.0 as u64);
    Rc::new(move || {
        e();
        w();
    })
}

/// The left subject against all the others.
pub fn row(trees: &[&J], subs: &[Subject], li: usize, sample: usize, rng: &mut Rng, log: &mut Log) -> Result<usize, String> {
    log.tag("eq", &format!("left: {}", describe(trees[subs[li].tree], &subs[li])));
    let a = &subs[li];
    let mut n = 0;
    for b in subs {
        let selfcmp = a.tree == b.tree && a.x == b.x;
        // Of many, all that look the same or are parts of the same tree, and some others.
        if a.code != b.code && a.tree != b.tree && subs.len() > sample && rng.below(subs.len()) > sample {
            continue;
        }
        let truth = a.code == b.code && !a.odd;
        let style = rng.below(100_000);
        let (r, how, ty) = match n % 8 {
            // Data that look around when they are compared.
            0 => watching(both(a, b), || compare(a, b, style)),
            // Data that fail when they are compared.
            1 if style % 3 == 0 => {
                let left = Cell::new(rng.below(4));
                let fail = Rc::new(move || match left.get() {
                    0 => panic!("injected failure while comparing data"),
                    k => left.set(k - 1),
                });
                let (r, how, _) = watching(fail, || compare(a, b, style));
                if !(matches!(&r, Ok(Some(v)) if *v == truth || (selfcmp && a.odd)) || matches!(&r, Err(m) if m.starts_with("injected"))) {
                    return Err(format!("[eq] {how} between {} and {} gives {r:?} when comparing data panics, specification says {truth}", describe(trees[a.tree], a), describe(trees[b.tree], b)));
                }
                for s in [a, b] {
                    if s.e.p.try_borrow_data_mut().is_err() || s.w.p.try_borrow_data_mut().is_err() {
                        return Err(format!("[eq] the data of {} stay borrowed after a comparison that panicked", describe(trees[s.tree], s)));
                    }
                }
                compare(a, b, style)
            }
            _ => compare(a, b, style),
        };
        n += 1;
        let ok = match &r {
            Ok(Some(v)) => *v == truth || (selfcmp && a.odd),
            _ => false,
        };
        if !ok {
            return Err(format!(
                "[eq] {how} ({ty}) between {} and {} gives {r:?}, specification says {truth}",
                describe(trees[a.tree], a), describe(trees[b.tree], b)
            ));
        }
    }
    Ok(n)
}

/// Comparisons while the data of some nodes are borrowed.
pub fn borrowed(trees: &[&J], subs: &[Subject], rng: &mut Rng, log: &mut Log) -> Result<usize, String> {
    log.tag("eq", "data borrowed");
    let mut n = 0;
    for _ in 0..400 {
        let a = &subs[rng.below(subs.len())];
        // Mostly subtrees that are equal.
        let b = if rng.chance(2, 3) {
            let same: Vec<&Subject> = subs.iter().filter(|s| s.code == a.code).collect();
            same[rng.below(same.len())]
        } else {
            &subs[rng.below(subs.len())]
        };
        let z = match rng.below(5) {
            0 => &subs[rng.below(subs.len())],
            k => {
                // Somewhere in the trees of either.
                let t = if k < 3 { a.tree } else { b.tree };
                let of: Vec<&Subject> = subs.iter().filter(|s| s.tree == t).collect();
                of[rng.below(of.len())]
            }
        };
        let shared = rng.chance(1, 4);
        let inside = |s: &Subject| z.tree == s.tree && z.x >= s.x && z.x < s.x + s.size;
        let blind = !shared && (inside(a) || inside(b));
        let style = rng.below(100_000);
        let truth = a.code == b.code && !a.odd;
        let selfcmp = a.tree == b.tree && a.x == b.x;
        let (r, how, ty) = if shared {
            let _g = (z.e.p.borrow_data(), z.w.p.borrow_data());
            compare(a, b, style)
        } else {
            let _g = (z.e.p.borrow_data_mut(), z.w.p.borrow_data_mut());
            compare(a, b, style)
        };
        n += 1;
        let ok = match &r {
            Ok(Some(v)) => selfcmp || if blind { !*v && !truth } else { *v == truth },
            // Not readable: an error, or a panic.
            Ok(None) => blind,
            Err(_) => blind && !how.contains("try_eq"),
        };
        if !ok {
            return Err(format!(
                "[eq] {how} ({ty}) between {} and {} gives {r:?} while {} of {} is borrowed {}; truth is {truth}",
                describe(trees[a.tree], a), describe(trees[b.tree], b), z.x, trees[z.tree].get("code").at(0).s(),
                if shared { "shared" } else { "exclusively" }
            ));
        }
    }
    Ok(n)
}
