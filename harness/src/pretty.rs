//! Replays MCPretty: pictures of trees.
use crate::equal::grow;
use crate::json::J;
use crate::util::*;
use crate::Log;
use dendron::*;
use std::cell::Cell;
use std::fmt::{self, Write};
use std::rc::Rc;

thread_local! {
    /// Printing data fails when this becomes zero.
    static UNTIL_ERR: Cell<usize> = const { Cell::new(0) };
}

/// Data printed as given, in one of the four formats only.
pub struct Txt {
    tokens: Vec<String>,
    kind: usize,
    name: String,
}
impl Txt {
    fn put(&self, f: &mut fmt::Formatter<'_>, kind: usize) -> fmt::Result {
        if kind == 4 || kind != self.kind {
            return write!(f, "<{} not in format {}>", self.name, self.kind);
        }
        on_use();
        let left = UNTIL_ERR.with(|c| c.get());
        UNTIL_ERR.with(|c| c.set(left.saturating_sub(1)));
        if left == 1 {
            return Err(fmt::Error);
        }
        self.tokens.iter().enumerate().try_for_each(|(i, t)| match (i + self.kind) % 3 {
            0 => f.write_str(t),
            1 => t.chars().try_for_each(|c| f.write_char(c)),
            _ => write!(f, "{t}"),
        })
    }
}
impl fmt::Display for Txt {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.put(f, usize::from(f.alternate()))
    }
}
impl fmt::Debug for Txt {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.put(f, 2 + usize::from(f.alternate()))
    }
}

const FORMATS: [&str; 4] = ["{}", "{:#}", "{:?}", "{:#?}"];
fn show(x: &(impl fmt::Display + fmt::Debug), kind: usize) -> String {
    match kind {
        0 => format!("{x}"),
        1 => format!("{x:#}"),
        2 => format!("{x:?}"),
        _ => format!("{x:#?}"),
    }
}

/// The printed node, through one of the handles.
fn print(n: &Node<Txt>, kind: usize, how: usize) -> Result<(String, &'static str), String> {
    let (r, w) = match how {
        0 => (quiet(|| Some(show(&n.debug_pretty_print(), kind))), "Node"),
        1 => (
            quiet(|| {
                let h = n.clone().bundle_new_hierarchy_edit_grant().ok()?;
                let s = show(&h.debug_pretty_print(), kind);
                Some(s)
            }),
            "HotNode",
        ),
        2 => (
            quiet(|| {
                let h = n.clone().bundle_new_hierarchy_edit_prohibition().ok()?;
                let s = show(&h.debug_pretty_print(), kind);
                Some(s)
            }),
            "FrozenNode",
        ),
        _ => (quiet(|| Some(show(&n.tree().debug_pretty_print(), kind))), "Tree"),
    };
    match r {
        Ok(Some(s)) => Ok((s, w)),
        Ok(None) => Err(format!("[lock] no {w}")),
        Err(m) => Err(format!("[pretty] printing a {w} as {} panicked: {m}", FORMATS[kind])),
    }
}

/// Trailing spaces are left open in lines without text only.
fn matches(out: &str, lines: &[String], nl_end: bool) -> bool {
    let mut got: Vec<&str> = out.split('\n').collect();
    if nl_end && got.len() == lines.len() + 1 && got.last().map(|l| l.trim_end()) == Some("") {
        got.pop();
    }
    got.len() == lines.len()
        && got.iter().zip(lines).all(|(g, l)| *g == l || (g.trim_end() == l.trim_end() && (l.trim_end().is_empty() || l.trim_end().ends_with(['|', '-', '`']))))
}

/// A writer that fails after a number of bytes, or at one call only.
struct Limited {
    out: String,
    left: usize,
    calls: usize,
    bad: usize,
}
impl Limited {
    fn new(left: usize) -> Limited {
        Limited { out: String::new(), left, calls: 0, bad: 0 }
    }
}
impl fmt::Write for Limited {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.calls += 1;
        if s.len() > self.left || self.calls == self.bad {
            return Err(fmt::Error);
        }
        self.left -= s.len();
        self.out.push_str(s);
        Ok(())
    }
}

/// Printing to writers that fail, and data that look around or fail when they are printed.
fn failing(n: &Node<Txt>, all: &[Node<Txt>], kind: usize, rng: &mut Rng) -> Result<(), String> {
    let put = |w: &mut Limited| {
        let x = n.debug_pretty_print();
        match kind {
            0 => write!(w, "{x}"),
            1 => write!(w, "{x:#}"),
            2 => write!(w, "{x:?}"),
            _ => write!(w, "{x:#?}"),
        }
    };
    let (whole, _) = print(n, kind, 0)?;
    let left = rng.below(whole.len() + 2);
    let mut w = Limited::new(left);
    let r = quiet(|| put(&mut w)).map_err(|m| format!("[pretty] printing to a writer that fails panicked: {m}"))?;
    if r.is_ok() != (whole.len() <= left) || !whole.starts_with(&w.out) {
        return Err(format!("[pretty] printing to a writer that fails after {left} bytes gives {r:?} and writes\n{}\nof\n{whole}", w.out));
    }
    let mut w = Limited::new(whole.len());
    if put(&mut w).is_err() || w.out != whole {
        return Err("[pretty] printing to another writer differs".into());
    }
    let bad = 1 + rng.below(w.calls + 1);
    let mut w = Limited { bad, ..Limited::new(whole.len()) };
    let r = quiet(|| put(&mut w)).map_err(|m| format!("[pretty] printing to a writer that fails panicked: {m}"))?;
    if r.is_ok() != (w.calls < bad) {
        return Err(format!("[pretty] printing to a writer that fails at the {bad}th call only gives {r:?} and writes\n{}\nof\n{whole}", w.out));
    }
    let mut w = Limited::new(whole.len());
    let hook = unchanged(vec![n.clone()], |t: &Txt| t.name.len() as u64);
    let r = quiet(|| watching(hook, || put(&mut w))).map_err(|m| format!("[pretty] printing data that look around panicked: {m}"))?;
    if r.is_err() || w.out != whole {
        return Err(format!("[pretty] when data look around while they are printed, printing gives {r:?}"));
    }
    let uses = 1 + rng.below(3);
    UNTIL_ERR.with(|c| c.set(uses));
    let mut w = Limited::new(whole.len());
    let r = quiet(|| put(&mut w));
    let due = UNTIL_ERR.with(|c| c.replace(0)) == 0;
    if r != Ok(if due { Err(fmt::Error) } else { Ok(()) }) || !whole.starts_with(&w.out) {
        return Err(format!("[pretty] when printing data fails, printing gives {r:?} and writes\n{}\nof\n{whole}", w.out));
    }
    let free: Vec<bool> = all.iter().map(|n| n.try_borrow_data_mut().is_ok()).collect();
    let left = Cell::new(rng.below(3));
    let fail = Rc::new(move || match left.get() {
        0 => panic!("injected failure while printing data"),
        k => left.set(k - 1),
    });
    let mut w = Limited::new(whole.len());
    let r = quiet(|| watching(fail, || put(&mut w)));
    let ok = match &r {
        Ok(r) => r.is_ok() && w.out == whole,
        Err(m) => m.starts_with("injected") && whole.starts_with(&w.out),
    };
    if !ok {
        return Err(format!("[pretty] when printing data panics, printing gives {r:?} and writes\n{}\nof\n{whole}", w.out));
    }
    if all.iter().zip(free).any(|(n, f)| n.try_borrow_data_mut().is_ok() != f) {
        return Err("[pretty] data stay borrowed after printing panicked".into());
    }
    Ok(())
}

fn tokens(j: &J) -> Vec<String> {
    j.arr().iter().map(|t| t.s().to_string()).collect()
}

/// The other printers never panic. Their format is not stable, but what is printed of a subtree
/// nests its nodes, in order.
fn other_printers(n: &Node<Txt>, par: &[usize], pre: &[usize], excl: &[bool], kind: usize) -> Result<(), String> {
    let (subs, trees) = quiet(|| {
        let w = |x: &dyn fmt::Debug| if kind == 2 { format!("{x:#?}") } else { format!("{x:?}") };
        let (weak, tweak) = (n.downgrade(), n.tree().downgrade());
        let _ = format!("{n:?}{n:#?}{:?}{:?}{weak:?}{tweak:?}{:#?}", n.debug_print_local(), n.tree(), n.tree().debug_print_local());
        let gone = Node::new_tree(0_u8);
        let (weak, tweak) = (gone.downgrade(), gone.tree().downgrade());
        drop(gone);
        let _ = format!("{weak:?}{tweak:?}{:#?}{:#?}", weak.clone(), tweak.clone());
        let mut subs = vec![w(&n.debug_print_subtree())];
        if let Ok(h) = n.clone().bundle_new_hierarchy_edit_grant() {
            let _ = format!("{h:?}{:?}", h.debug_print_local());
            subs.push(w(&h.debug_print_subtree()));
        }
        if let Ok(h) = n.clone().bundle_new_hierarchy_edit_prohibition() {
            let _ = format!("{h:?}{:?}", h.debug_print_local());
            subs.push(w(&h.debug_print_subtree()));
        }
        // Traversals, also advanced ones, and builders and events.
        macro_rules! walk {
            ($($t:expr),*) => {$({
                let mut t = $t;
                while t.next().is_some() {
                    w(&t);
                }
                w(&t);
            })*};
        }
        walk!(n.depth_first_traverse(), n.depth_first_reverse_traverse(), n.siblings(), n.siblings_reverse(), n.children(), n.children_reverse(), n.ancestors(), n.ancestors_or_self());
        if let Ok(f) = n.clone().bundle_new_hierarchy_edit_prohibition() {
            walk!(f.depth_first_traverse_stable(), f.shallow_depth_first_traverse_stable(Some(2)), f.siblings_stable(), f.children_stable());
            walk!(f.allocating_breadth_first_traverse_stable(0), f.non_allocating_breadth_first_traverse_stable(0));
        }
        (subs, vec![w(&n.tree().debug_print())])
    })
    .map_err(|m| format!("[pretty] debug printing panicked: {m}"))?;
    let depth = |y: usize| std::iter::successors(Some(y), |y| Some(par[*y - 1]).filter(|p| *p != 0)).count();
    let root = n.is_root();
    for (i, s) in subs.iter().chain(&trees).enumerate() {
        if i == subs.len() && !root {
            continue;
        }
        let mut level = 0;
        let mut got = Vec::new();
        let mut rest = s.as_str();
        while let Some(c) = rest.chars().next() {
            match c {
                '[' | '{' | '(' => level += 1,
                ']' | '}' | ')' => level -= 1,
                '<' => {
                    if let Some((name, _)) = rest[1..].split_once(" not in format") {
                        if !name.contains(|c: char| !c.is_alphanumeric()) {
                            got.push((name.to_string(), level));
                        }
                    }
                }
                _ => {}
            }
            rest = &rest[c.len_utf8()..];
        }
        let want: Vec<usize> = pre.iter().copied().filter(|y| !excl[*y - 1]).collect();
        let names: Vec<String> = want.iter().map(|y| y.to_string()).collect();
        let order = got.iter().map(|g| &g.0).eq(names.iter());
        let nested = || got.iter().zip(&want).all(|(a, x)| got.iter().zip(&want).all(|(b, y)| a.1.cmp(&b.1) == depth(*x).cmp(&depth(*y))));
        if !order || !nested() {
            return Err(format!("[pretty] debug printing shows {s}, which does not nest the nodes {names:?}"));
        }
    }
    Ok(())
}

/// A picture given by the specification.
pub fn picture(t: &J, rng: &mut Rng, log: &mut Log) -> Result<usize, String> {
    let par = t.get("par").us();
    let x = t.get("x").u();
    let lines = tokens(t.get("lines"));
    let kind = rng.below(4);
    log.tag("pretty", &format!("{par:?} from {x}, texts {}", t.get("text")));
    let join = rng.chance(1, 2);
    let texts: Vec<Vec<String>> = t.get("text").arr().iter().map(|s| if join { vec![tokens(s).concat()] } else { tokens(s) }).collect();
    let hs = grow(&par, &|y| Txt { tokens: texts[y - 1].clone(), kind, name: y.to_string() }, &|| Txt { tokens: vec!["outside".into()], kind: 4, name: "outside".into() }, rng);
    let n = &hs[x - 1];
    let how = if n.is_root() { rng.below(4) } else { rng.below(3) };
    let (out, what) = print(n, kind, how)?;
    // The text printed last.
    let pre = last_of(&par, x);
    let nl_end = texts[pre - 1].concat().ends_with('\n');
    if !matches(&out, &lines, nl_end) {
        return Err(format!("[pretty] {what} as {} prints\n{out}\nspecification says\n{}", FORMATS[kind], lines.join("\n")));
    }
    Ok(1)
}

/// The last node of the subtree of x in preorder.
fn last_of(par: &[usize], x: usize) -> usize {
    let mut last = x;
    for y in x + 1..=par.len() {
        let mut a = y;
        while a > x {
            a = par[a - 1];
        }
        if a != x {
            break;
        }
        last = y;
    }
    last
}

const WORDS: [&str; 24] = ["a", "", "\n", "b c", "\n", " lead", "trail ", "\u{e9}\u{4e16}", "|-- x", "`-- y", "\n\n", "p\nq", "    ", "long text with words", "cr\r\n", "\r", "\t",
    "\u{b}", "\u{c}\u{85}", "\u{2028}x\u{2029}", "\0", "\u{1b}[1m", "\u{feff}e\u{301}\u{a0}", "\n\n\n"];

/// Now and then something long.
fn word(rng: &mut Rng) -> String {
    let w = WORDS[rng.below(WORDS.len())];
    if rng.chance(1, 150) {
        w.repeat([20, 100, 700, 3000][rng.below(4)])
    } else {
        w.to_string()
    }
}

/// Random texts and borrowed nodes; the marks are the specification's.
pub fn marks(t: &J, rng: &mut Rng, log: &mut Log) -> Result<usize, String> {
    let par = t.get("par").us();
    let x = t.get("x").u();
    let pre = t.get("pre").us();
    let (first, others) = (tokens(t.get("first")), tokens(t.get("others")));
    let mut n = 0;
    for _ in 0..3 {
        let kind = rng.below(4);
        let rich = rng.chance(1, 2);
        let texts: Vec<Vec<String>> = par.iter().enumerate().map(|(i, _)| {
            if rich {
                let k = rng.below(5);
                (0..k).map(|_| word(rng)).collect()
            } else {
                vec![format!("n{i}")]
            }
        }).collect();
        log.tag("pretty", &format!("{par:?} from {x}, texts {texts:?} as {}", FORMATS[kind]));
        let hs = grow(&par, &|y| Txt { tokens: texts[y - 1].clone(), kind, name: y.to_string() }, &|| Txt { tokens: vec!["outside".into()], kind: 4, name: "outside".into() }, rng);
        let excl: Vec<bool> = par.iter().map(|_| rng.chance(1, 5)).collect();
        log.note(&format!("exclusively borrowed: {excl:?}"));
        let guards: Vec<_> = hs.iter().zip(&excl).filter(|(_, e)| **e).map(|(h, _)| h.borrow_data_mut()).collect();
        let shared: Vec<_> = hs.iter().zip(&excl).filter(|(_, e)| !**e).map(|(h, _)| h.borrow_data()).collect();
        let mut lines = Vec::new();
        let mut text = String::new();
        for (i, y) in pre.iter().enumerate() {
            text = if excl[y - 1] { "(borrowed)".into() } else { texts[y - 1].concat() };
            let mut ls: Vec<&str> = text.split('\n').collect();
            if ls.len() > 1 && ls[ls.len() - 1].is_empty() {
                ls.pop();
            }
            for (k, l) in ls.iter().enumerate() {
                lines.push(format!("{}{l}", if k == 0 { &first[i] } else { &others[i] }));
            }
        }
        let h = &hs[x - 1];
        let hows = if h.is_root() { 4 } else { 3 };
        for how in 0..hows {
            let (out, what) = print(h, kind, how)?;
            if !matches(&out, &lines, text.ends_with('\n')) {
                return Err(format!("[pretty] {what} as {} prints\n{out}\nspecification says\n{}", FORMATS[kind], lines.join("\n")));
            }
            n += 1;
        }
        other_printers(h, &par, &pre, &excl, kind)?;
        failing(h, &hs, kind, rng)?;
        drop((guards, shared));
        failing(h, &hs, kind, rng)?;
    }
    Ok(n)
}
