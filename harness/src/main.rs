//! Conformance driver: executes behaviours of the TLA+ specification on the real library.
#![allow(deprecated, clippy::all)]
mod builder;
mod cursors;
mod data;
mod equal;
mod handles;
mod json;
mod literals;
mod lts;
mod pretty;
mod runner;
mod scale;
mod strct;
mod teardown;
mod trace;
mod trav;
mod util;
mod world;

pub use runner::Log;
use lts::Lts;
use runner::*;
use util::Rng;

fn main() {
    let args = Args::parse();
    util::install_panic_hook();
    let code = match args.suite.as_str() {
        "struct" => suite_struct(&args),
        "handles" => suite_handles(&args),
        "trav" => suite_trav(&args),
        "builder" => suite_builder(&args),
        "cursors" => suite_cursors(&args),
        "teardown" => suite_teardown(&args),
        "scale" => suite_scale(&args),
        "trace" => suite_trace(&args),
        "data" => suite_data(&args),
        "pretty" => suite_pretty(&args),
        "equal" => suite_equal(&args),
        s => {
            eprintln!("unknown suite {s}");
            2
        }
    };
    std::process::exit(code);
}

fn load(a: &Args, key: &str) -> Lts {
    let p = a.str(key);
    match Lts::load(p) {
        Ok(l) => l,
        Err(e) => {
            eprintln!("cannot load {p}: {e}");
            std::process::exit(2)
        }
    }
}

fn fixed(es: &[usize]) -> impl FnMut(usize, usize, &mut Rng) -> Option<usize> + '_ {
    move |_, i, _| es.get(i).copied()
}

/// Shortens a failing struct walk: replays only its end, from freshly built forests.
fn shrink_struct(lts: &Lts, edges: &[usize], seed: u64) -> Option<(Log, String)> {
    for k in 1..=edges.len().min(6) {
        let es = &edges[edges.len() - k..];
        for v in 0..60 {
            let mut rng = Rng::new(seed ^ (v * 7919));
            let pol = strct::Policy { keep: [10, 3, 0][v as usize % 3], hot: v % 5 == 4, mode: (v as usize / 3) % strct::MODES };
            let mut log = Log::new();
            if let Err(m) = strct::walk(lts, lts.edges[es[0]].src, pol, &mut rng, &mut log, fixed(es)) {
                return Some((log, m));
            }
        }
    }
    None
}

fn suite_struct(a: &Args) -> i32 {
    let lts = load(a, "lts");
    let variants = a.num("variants", 6) as usize;
    let pairs = a.num("pairs", 3) as usize;
    let walks = a.num("walks", 2000) as usize;
    let len = a.num("len", 30) as usize;
    let size = |s: usize| lts.obs[s].arr().len();
    run_sharded(a, |cx| {
        let mut used = vec![false; lts.edges.len()];
        // Every transition, from differently built forests and with different handles held.
        let mut idx = 0;
        for (ei, e) in lts.edges.iter().enumerate() {
            for v in 0..variants {
                idx += 1;
                if !cx.mine(idx) {
                    continue;
                }
                used[ei] = true;
                cx.walk(&format!("single/{ei}/{v}"), |rng, log| {
                    let pol = strct::Policy { keep: [10, 0, 4][v % 3], hot: v % 6 == 5, mode: (ei + v) % strct::MODES };
                    strct::walk(&lts, e.src, pol, rng, log, fixed(&[ei]))
                }, None);
            }
        }
        // Every pair of transitions out of the smaller forests.
        for (ei, e) in lts.edges.iter().enumerate() {
            if size(e.src) > pairs {
                continue;
            }
            for &e2 in &lts.out[e.dst] {
                idx += 1;
                if !cx.mine(idx) {
                    continue;
                }
                cx.walk(&format!("pair/{ei}/{e2}"), |rng, log| {
                    let pol = strct::Policy { keep: [10, 5, 2, 0][rng.below(4)], hot: rng.chance(1, 6), mode: rng.below(strct::MODES) };
                    strct::walk(&lts, e.src, pol, rng, log, fixed(&[ei, e2]))
                }, None);
            }
        }
        for k in 0..walks {
            idx += 1;
            if !cx.mine(idx) {
                continue;
            }
            let trail = std::cell::RefCell::new(Vec::<usize>::new());
            cx.walk(
                &format!("walk/{k}"),
                |rng, log| {
                    trail.borrow_mut().clear();
                    let mut start = rng.below(lts.keys.len());
                    while lts.out[start].is_empty() {
                        start = rng.below(lts.keys.len());
                    }
                    let pol = strct::Policy { keep: [10, 5, 2, 0][rng.below(4)], hot: rng.chance(1, 5), mode: rng.below(strct::MODES) };
                    let sizes = &size;
                    let l = &lts;
                    let tr = &trail;
                    strct::walk(&lts, start, pol, rng, log, move |s, i, rng| {
                        if i >= len {
                            return None;
                        }
                        // Prefer what stays within the explored forests.
                        for _ in 0..12 {
                            let o = &l.out[s];
                            if o.is_empty() {
                                return None;
                            }
                            let e = o[rng.below(o.len())];
                            let d = l.edges[e].dst;
                            let grow = sizes(d) > sizes(s);
                            let refused = l.edges[e].r != "ok";
                            if l.out[d].is_empty() || (grow && rng.chance(2, 5)) || (refused && rng.chance(2, 3)) {
                                continue;
                            }
                            tr.borrow_mut().push(e);
                            return Some(e);
                        }
                        None
                    })
                },
                Some(&|seed| shrink_struct(&lts, &trail.borrow(), seed)),
            );
        }
        cx.stat("edges", lts.edges.len() as u64);
        cx.stat("states", lts.keys.len() as u64);
        cx.add("edges_used", used.iter().filter(|u| **u).count() as u64);
    })
}

fn suite_handles(a: &Args) -> i32 {
    let lts = load(a, "lts");
    let len = a.num("len", 60) as usize;
    let rounds = a.num("rounds", 1) as usize;
    let via = lts.bfs(lts.init());
    run_sharded(a, |cx| {
        if cx.mine(0) {
            // Known finding: the handle of a tree that has been joined into another one.
            let mut bad = None;
            cx.walk("finding", |_, _| {
                use dendron::tree_node;
                let (a, b): (dendron::Node<i32>, dendron::Node<i32>) = (tree_node! { 1, [2] }, tree_node! { 3 });
                let (ta, tb) = (a.tree(), b.tree());
                let gb = tb.grant_hierarchy_edit().map_err(|e| format!("[lock] {e:?}"))?;
                let ga = ta.grant_hierarchy_edit().map_err(|e| format!("[lock] {e:?}"))?;
                let hot = b.bundle_new_hierarchy_edit_grant().map_err(|e| format!("[lock] {e:?}"))?;
                a.try_detach_insert_subtree(&ga, dendron::InsertAs::LastChildOf(&hot)).map_err(|e| format!("[result] {e}"))?;
                let r = ta.root();
                if !r.is_root() || !r.tree().ptr_eq(&ta) {
                    bad = Some("the handle of a tree that has been joined into another one names the moved node as its root");
                }
                drop(gb);
                Ok(1)
            }, None);
            if let Some(m) = bad {
                cx.finding("hollow-tree-handle", m);
            }
        }
        for round in 0..rounds {
            let mut rng = Rng::new(a.seed ^ ((round as u64) << 20) ^ cx.shard as u64);
            // Later rounds use differently cut, longer walks.
            let plans = handles::plan(&lts, (cx.shard + round) % cx.nshards, cx.nshards, len * (round + 1), &mut rng);
            for (k, es) in plans.iter().enumerate() {
                cx.walk(
                    &format!("plan/{round}/{}/{k}", cx.shard),
                    |rng, log| handles::walk(&lts, es, 0, rng, log),
                    Some(&|seed| {
                        // The failing transition is not known here: try growing suffixes of prefixes.
                        for end in 1..=es.len() {
                            for k in 1..=end.min(3) {
                                let mut w = lts.path(&via, lts.edges[es[end - k]].src);
                                let mark = w.len();
                                w.extend(&es[end - k..end]);
                                for v in 0..3 {
                                    let mut log = Log::new();
                                    let mut rng = Rng::new(seed ^ v);
                                    if let Err(m) = handles::walk(&lts, &w, mark, &mut rng, &mut log) {
                                        return Some((log, m));
                                    }
                                }
                            }
                        }
                        None
                    }),
                );
            }
        }
        cx.stat("edges", lts.edges.len() as u64);
        cx.stat("states", lts.keys.len() as u64);
        if cx.complete() {
            cx.add("edges_used", lts.edges.iter().enumerate().filter(|(i, _)| share(*i, cx.nshards) == cx.shard).count() as u64);
        }
    })
}

fn suite_trav(a: &Args) -> i32 {
    let lts = load(a, "lts");
    let budget = a.num("budget", 600) as usize;
    let randoms = a.num("randoms", 2) as usize;
    // The states of each case; cases of the same tree and start node together.
    let mut first: std::collections::BTreeMap<String, usize> = Default::default();
    let mut states: std::collections::BTreeMap<String, Vec<usize>> = Default::default();
    for s in 0..lts.keys.len() {
        let o = &lts.obs[s];
        if o.is_null() {
            continue;
        }
        let key = format!("{} {:03} {} {}", o.get("par"), o.get("x").u(), o.get("kind").s(), o.get("arg").n());
        if o.get("first").b() {
            first.insert(key.clone(), s);
        }
        states.entry(key).or_default().push(s);
    }
    let mut groups: std::collections::BTreeMap<String, Vec<(usize, Vec<usize>)>> = Default::default();
    for (k, s) in &first {
        let o = &lts.obs[*s];
        groups.entry(format!("{}/{}/{}", o.get("par"), o.get("x").u(), trav::props_of(o.get("kind").s()))).or_default().push((*s, states[k].clone()));
    }
    run_sharded(a, |cx| {
        for (i, (name, cases)) in groups.iter().enumerate() {
            if !cx.mine(i) {
                continue;
            }
            for rep in 0..a.num("reps", 1) {
                cx.walk(&format!("case/{i}/{rep}"), |rng, log| trav::case(&lts, cases, budget, randoms, rng, log),
                    Some(&|seed| {
                        // One traversal alone.
                        for c in cases {
                            let mut log = Log::new();
                            if let Err(m) = trav::case(&lts, std::slice::from_ref(c), budget, randoms, &mut Rng::new(seed), &mut log) {
                                return Some((log, m));
                            }
                        }
                        let _ = name;
                        None
                    }));
            }
        }
        cx.stat("edges", lts.edges.len() as u64);
        cx.stat("windows", lts.keys.len() as u64);
        cx.stat("cases", first.len() as u64);
    })
}

fn suite_cursors(a: &Args) -> i32 {
    let lts = load(a, "lts");
    let variants = a.num("variants", 2) as usize;
    let walks = a.num("walks", 4000) as usize;
    let len = a.num("len", 30) as usize;
    run_sharded(a, |cx| {
        let mut idx = 0;
        for (ei, e) in lts.edges.iter().enumerate() {
            for v in 0..variants {
                idx += 1;
                if cx.mine(idx) {
                    cx.walk(&format!("single/{ei}/{v}"), |rng, log| cursors::walk(&lts, e.src, (ei + v) % strct::MODES, rng, log, fixed(&[ei])), None);
                }
            }
        }
        for k in 0..walks {
            idx += 1;
            if !cx.mine(idx) {
                continue;
            }
            let trail = std::cell::RefCell::new(Vec::<usize>::new());
            cx.walk(
                &format!("walk/{k}"),
                |rng, log| {
                    trail.borrow_mut().clear();
                    let start = rng.below(lts.keys.len());
                    let mode = rng.below(strct::MODES);
                    let (l, tr) = (&lts, &trail);
                    cursors::walk(&lts, start, mode, rng, log, move |s, i, rng| {
                        if i >= len {
                            return None;
                        }
                        for _ in 0..12 {
                            let o = &l.out[s];
                            if o.is_empty() {
                                return None;
                            }
                            // Half of the steps are those of the traversal.
                            let steps: Vec<usize> = o.iter().copied().filter(|e| matches!(l.edges[*e].op.at(0).s(), "step" | "close" | "bopen" | "bclose")).collect();
                            let e = if !steps.is_empty() && rng.chance(2, 5) { steps[rng.below(steps.len())] } else { o[rng.below(o.len())] };
                            if l.out[l.edges[e].dst].is_empty() || (l.edges[e].r != "ok" && rng.chance(2, 3)) || (matches!(l.edges[e].op.at(0).s(), "free" | "bfinish") && rng.chance(3, 4)) {
                                continue;
                            }
                            tr.borrow_mut().push(e);
                            return Some(e);
                        }
                        None
                    })
                },
                Some(&|seed| {
                    let edges = trail.borrow();
                    for k in 1..=edges.len().min(5) {
                        let es = &edges[edges.len() - k..];
                        for v in 0..24_u64 {
                            let mut log = Log::new();
                            if let Err(m) = cursors::walk(&lts, lts.edges[es[0]].src, v as usize % strct::MODES, &mut Rng::new(seed ^ (v * 7919)), &mut log, fixed(es)) {
                                return Some((log, m));
                            }
                        }
                    }
                    None
                }),
            );
        }
        cx.stat("edges", lts.edges.len() as u64);
        cx.stat("states", lts.keys.len() as u64);
    })
}

fn suite_builder(a: &Args) -> i32 {
    let lts = load(a, "lts");
    let walks = a.num("walks", 4000) as usize;
    let reps = a.num("reps", 3) as usize;
    let inits: Vec<usize> = (0..lts.keys.len()).filter(|s| lts.obs[*s].get("init").b()).collect();
    // For each state, the edge that reaches it on a shortest way from an initial state.
    let mut via: Vec<Option<usize>> = vec![None; lts.keys.len()];
    let mut seen = vec![false; lts.keys.len()];
    let mut q: std::collections::VecDeque<usize> = inits.iter().copied().collect();
    inits.iter().for_each(|s| seen[*s] = true);
    while let Some(s) = q.pop_front() {
        for &e in &lts.out[s] {
            let d = lts.edges[e].dst;
            if !seen[d] {
                seen[d] = true;
                via[d] = Some(e);
                q.push_back(d);
            }
        }
    }
    run_sharded(a, |cx| {
        let mut idx = 0;
        for (k, t) in lts.other.iter().enumerate() {
            for r in 0..reps {
                idx += 1;
                if cx.mine(idx) {
                    cx.walk(&format!("tree/{k}/{r}"), |rng, log| builder::tree_case(t, rng, log), None);
                }
            }
        }
        for (ei, e) in lts.edges.iter().enumerate() {
            for r in 0..reps {
                idx += 1;
                if cx.mine(idx) {
                    let mut es = lts.path(&via, e.src);
                    let start = es.first().map_or(e.src, |f| lts.edges[*f].src);
                    es.push(ei);
                    cx.walk(&format!("single/{ei}/{r}"), |rng, log| builder::walk(&lts, start, rng, log, fixed(&es)), None);
                }
            }
        }
        for k in 0..walks {
            idx += 1;
            if !cx.mine(idx) {
                continue;
            }
            let start = inits[k % inits.len()];
            let l = &lts;
            cx.walk(&format!("walk/{k}"), |rng, log| builder::walk(&lts, start, rng, log, move |s, i, rng| {
                for _ in 0..20 {
                    if i > 40 || l.out[s].is_empty() {
                        return None;
                    }
                    let e = l.out[s][rng.below(l.out[s].len())];
                    // Mostly what is accepted.
                    if l.edges[e].r != "ok" && rng.chance(4, 5) {
                        continue;
                    }
                    return Some(e);
                }
                None
            }), None);
        }
        cx.stat("edges", lts.edges.len() as u64);
        cx.stat("states", lts.keys.len() as u64);
        cx.stat("subtrees", lts.other.len() as u64);
    })
}

fn suite_equal(a: &Args) -> i32 {
    let lts = load(a, "lts");
    let rounds = a.num("rounds", 1) as usize;
    let small: Vec<&json::J> = lts.other.iter().collect();
    run_sharded(a, |cx| {
        for round in 0..rounds {
            // All shards build the same subjects.
            let mut rng = Rng::new(a.seed ^ ((round as u64) << 20));
            let subs = match util::quiet(|| equal::subjects(&small, &mut rng)) {
                Ok(s) => std::mem::ManuallyDrop::new(s),
                Err(m) => {
                    cx.walk(&format!("build/{round}"), |_, log| {
                        log.tag("eq", "build the trees");
                        Err(format!("[init] building the trees panicked: {m}"))
                    }, None);
                    continue;
                }
            };
            for li in 0..subs.len() {
                if cx.mine(li) {
                    cx.walk(&format!("row/{round}/{li}"), |rng, log| equal::row(&small, &subs, li, a.num("sample", 3000) as usize, rng, log), None);
                }
            }
            for k in 0..a.num("borrows", 200) as usize {
                if cx.mine(k) {
                    cx.walk(&format!("borrowed/{round}/{k}"), |rng, log| equal::borrowed(&small, &subs, rng, log), None);
                }
            }
            if !cx.complete() {
                break;
            }
            drop(std::mem::ManuallyDrop::into_inner(subs));
        }
        cx.stat("labelled_trees", small.len() as u64);
    })
}

fn suite_pretty(a: &Args) -> i32 {
    let lts = load(a, "lts");
    let reps = a.num("reps", 10) as usize;
    run_sharded(a, |cx| {
        for (i, t) in lts.other.iter().enumerate() {
            if !cx.mine(i) {
                continue;
            }
            if t.get("k").s() == "P" {
                cx.walk(&format!("picture/{i}"), |rng, log| pretty::picture(t, rng, log), None);
            } else {
                for r in 0..reps {
                    cx.walk(&format!("marks/{i}/{r}"), |rng, log| pretty::marks(t, rng, log), None);
                }
            }
        }
        cx.stat("pictures", lts.other.len() as u64);
    })
}

fn suite_data(a: &Args) -> i32 {
    let lts = load(a, "lts");
    let variants = a.num("variants", 3) as usize;
    let walks = a.num("walks", 4000) as usize;
    let len = a.num("len", 30) as usize;
    run_sharded(a, |cx| {
        let mut idx = 0;
        for (ei, e) in lts.edges.iter().enumerate() {
            for v in 0..variants {
                idx += 1;
                if cx.mine(idx) {
                    cx.walk(&format!("single/{ei}/{v}"), |rng, log| {
                        let pol = strct::Policy { keep: [10, 0, 4][v % 3], hot: v % 3 == 2, mode: (ei + v) % strct::MODES };
                        data::walk(&lts, e.src, pol, rng, log, fixed(&[ei]))
                    }, None);
                }
            }
        }
        for k in 0..walks {
            idx += 1;
            if !cx.mine(idx) {
                continue;
            }
            let trail = std::cell::RefCell::new(Vec::<usize>::new());
            cx.walk(
                &format!("walk/{k}"),
                |rng, log| {
                    trail.borrow_mut().clear();
                    let mut start = rng.below(lts.keys.len());
                    while lts.out[start].is_empty() {
                        start = rng.below(lts.keys.len());
                    }
                    let pol = strct::Policy { keep: [10, 5, 2, 0][rng.below(4)], hot: rng.chance(1, 3), mode: rng.below(strct::MODES) };
                    let (l, tr) = (&lts, &trail);
                    data::walk(&lts, start, pol, rng, log, move |s, i, rng| {
                        if i >= len {
                            return None;
                        }
                        for _ in 0..20 {
                            let o = &l.out[s];
                            if o.is_empty() {
                                return None;
                            }
                            // A third of the steps are accesses to data.
                            let acc: Vec<usize> = o.iter().copied().filter(|e| matches!(l.edges[*e].op.at(0).s(), "read" | "write" | "unread" | "unwrite")).collect();
                            let e = if !acc.is_empty() && rng.chance(1, 3) { acc[rng.below(acc.len())] } else { o[rng.below(o.len())] };
                            let ed = &l.edges[e];
                            if l.out[ed.dst].is_empty() || (ed.r != "ok" && rng.chance(2, 3)) || (ed.op.at(0).s() == "droptree" && rng.chance(3, 4)) {
                                continue;
                            }
                            tr.borrow_mut().push(e);
                            return Some(e);
                        }
                        None
                    })
                },
                Some(&|seed| {
                    let edges = trail.borrow();
                    for k in 1..=edges.len().min(5) {
                        let es = &edges[edges.len() - k..];
                        for v in 0..24_u64 {
                            let mut log = Log::new();
                            let pol = strct::Policy { keep: [10, 3, 0][v as usize % 3], hot: v % 2 == 1, mode: v as usize % strct::MODES };
                            if let Err(m) = data::walk(&lts, lts.edges[es[0]].src, pol, &mut Rng::new(seed ^ (v * 7919)), &mut log, fixed(es)) {
                                return Some((log, m));
                            }
                        }
                    }
                    None
                }),
            );
        }
        cx.stat("edges", lts.edges.len() as u64);
        cx.stat("states", lts.keys.len() as u64);
    })
}

fn suite_teardown(a: &Args) -> i32 {
    let lts = load(a, "lts");
    let variants = a.num("variants", 6) as usize;
    let walks = a.num("walks", 4000) as usize;
    let starts: Vec<usize> = (0..lts.keys.len()).filter(|s| lts.obs[*s].get("st").arr().is_empty() && !lts.obs[*s].get("nodes").arr().is_empty()).collect();
    run_sharded(a, |cx| {
        let mut idx = 0;
        let pol = |v: usize, rng: &mut Rng| strct::Policy { keep: [10, 0, 4][v % 3], hot: v % 5 == 4, mode: rng.below(strct::MODES) };
        for &s in &starts {
            for &e in &lts.out[s] {
                if lts.edges[e].op.at(0).s() != "droptree" {
                    continue;
                }
                for v in 0..variants {
                    idx += 1;
                    if cx.mine(idx) {
                        cx.walk(&format!("single/{e}/{v}"), |rng, log| {
                            let p = pol(v, rng);
                            teardown::walk(&lts, s, Some(e), 0, p, rng, log)
                        }, None);
                    }
                }
            }
        }
        for k in 0..walks {
            idx += 1;
            if cx.mine(idx) {
                cx.walk(&format!("walk/{k}"), |rng, log| {
                    let p = pol(k, rng);
                    let s = starts[rng.below(starts.len())];
                    let len = 1 + rng.below(6);
                    teardown::walk(&lts, s, None, len, p, rng, log)
                }, None);
            }
        }
        cx.stat("edges", lts.edges.len() as u64);
        cx.stat("states", lts.keys.len() as u64);
    })
}

/// TLC's numbers are small: what is larger becomes 2000000000.
fn clamped(line: &str) -> String {
    let mut out = String::with_capacity(line.len());
    let mut digits = String::new();
    let mut quoted = false;
    let mut back = false;
    for c in line.chars().chain(['\0']) {
        if c.is_ascii_digit() && !quoted {
            digits.push(c);
            continue;
        }
        out.push_str(if digits.len() > 9 { "2000000000" } else { &digits });
        digits.clear();
        if c == '"' && !back {
            quoted = !quoted;
        }
        back = c == '\\' && !back;
        if c != '\0' {
            out.push(c);
        }
    }
    out
}

/// Deep and wide trees.
fn suite_scale(a: &Args) -> i32 {
    let lts = load(a, "lts");
    let walks = a.num("walks", 1500) as usize;
    let small = a.num("small", 1) as usize;
    let single = |s: usize| lts.obs[s].get("g").arr().iter().filter(|g| g.s() != "one").count() == 1;
    run_sharded(a, |cx| {
        let mut idx = 0;
        // Every transition, with smaller gadgets.
        for ei in 0..lts.edges.len() {
            for v in 0..small {
                idx += 1;
                if cx.mine(idx) {
                    cx.walk(&format!("single/{ei}/{v}"), |rng, log| {
                        let k = [2, 3, 5, 9, 17, 40][rng.below(6)];
                        scale::walk(&lts, &[ei], k, rng.below(5), 256 << 10, rng, log)
                    }, None);
                }
            }
        }
        // Some sequences of transitions, with gadgets of thousands of nodes.
        for w in 0..walks {
            idx += 1;
            if cx.mine(idx) {
                cx.walk(&format!("walk/{w}"), |rng, log| {
                    let mut s = rng.below(lts.keys.len());
                    while lts.out[s].is_empty() {
                        s = rng.below(lts.keys.len());
                    }
                    let mut k = [300, 2000, 4000, 7000][rng.below(4)];
                    if w % 25 == 0 {
                        while lts.out[s].is_empty() || !single(s) {
                            s = rng.below(lts.keys.len());
                        }
                        k = 66000 + rng.below(5000);
                    }
                    let mut es = Vec::new();
                    for _ in 0..1 + rng.below(3) {
                        if lts.out[s].is_empty() {
                            break;
                        }
                        let e = lts.out[s][rng.below(lts.out[s].len())];
                        es.push(e);
                        s = lts.edges[e].dst;
                    }
                    scale::walk(&lts, &es, k, rng.below(5), 128 << 10, rng, log)
                }, None);
            }
        }
        cx.stat("edges", lts.edges.len() as u64);
        cx.stat("states", lts.keys.len() as u64);
    })
}

fn suite_trace(a: &Args) -> i32 {
    let walks = a.num("walks", 400) as usize;
    let focus = a.str("focus").to_string();
    let deep = a.num("deep", 0) == 1;
    run_sharded(a, |cx| {
        use std::io::Write;
        let path = format!("{}.traces.{}", a.out, cx.shard);
        let mut f = std::io::BufWriter::new(std::fs::File::create(&path).expect("traces"));
        let mut n = 0;
        for k in 0..walks {
            if !cx.mine(k) {
                continue;
            }
            let id = format!("trace/{k}");
            let mut line = String::new();
            cx.walk(&id, |rng, log| {
                let p = trace::Profile::random(&focus, deep, rng);
                let (l, steps) = trace::record(&id, p, rng, log)?;
                line = l;
                Ok(steps)
            }, None);
            if !line.is_empty() {
                n += 1;
                f.write_all(clamped(&line).as_bytes()).expect("traces");
            }
        }
        f.flush().expect("traces");
        cx.add("histories", n);
    })
}
