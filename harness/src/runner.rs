//! Sharding over forked processes, progress records, watchdog, violation reports.
use crate::json::{esc, J};
use crate::util::{quiet, Rng};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::BTreeMap;
use std::fs::{File, OpenOptions};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
}

pub struct Args {
    pub suite: String,
    pub seed: u64,
    pub out: String,
    pub opts: BTreeMap<String, String>,
    pub start: Instant,
}
impl Args {
    pub fn parse() -> Args {
        let mut it = std::env::args().skip(1);
        let suite = it.next().unwrap_or_default();
        let mut opts = BTreeMap::new();
        while let Some(k) = it.next() {
            let v = it.next().unwrap_or_default();
            opts.insert(k.trim_start_matches("--").to_string(), v);
        }
        let seed = opts.get("seed").and_then(|s| s.parse().ok()).unwrap_or(1);
        let out = opts.get("out").cloned().unwrap_or_else(|| "conf-out".into());
        Args { suite, seed, out, opts, start: Instant::now() }
    }
    pub fn str(&self, k: &str) -> &str {
        self.opts.get(k).map_or("", |s| s)
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.opts.get(k).and_then(|s| s.parse().ok()).unwrap_or(d)
    }
}

/// The record of one walk: what was done, for reports and for attribution to properties.
#[derive(Default)]
pub struct Log {
    lines: Vec<String>,
    ops: Vec<String>,
    verbose: Option<File>,
}
impl Log {
    /// The memory it takes.
    fn size(&self) -> usize {
        let of = |v: &Vec<String>| v.capacity() * std::mem::size_of::<String>() + v.iter().map(|s| s.capacity()).sum::<usize>();
        of(&self.lines) + of(&self.ops)
    }
    pub fn new() -> Log {
        Log::default()
    }
    pub fn note(&mut self, s: &str) {
        if let Some(f) = &mut self.verbose {
            let _ = writeln!(f, "{s}");
        }
        self.lines.push(s.to_string());
    }
    pub fn step(&mut self, op: &J, r: &str) {
        let line = format!("{op} -> {r}");
        if let Some(f) = &mut self.verbose {
            let _ = writeln!(f, "{line}");
        }
        let tag = if op.at(0) == &J::Str("edit".into()) {
            format!("edit:{}:{}", op.at(1).at(0).s(), op.at(2).at(0).s())
        } else if let J::Str(s) = op.at(0) {
            s.clone()
        } else {
            String::from("?")
        };
        self.ops.push(if r == "ok" { tag } else { format!("{tag}!{r}") });
        self.lines.push(line);
    }
    /// A step that is not a specification tuple.
    pub fn tag(&mut self, tag: &str, line: &str) {
        self.ops.push(tag.to_string());
        self.note(line);
    }
    /// What came before only led to the interesting state.
    pub fn mark(&mut self) {
        self.ops.clear();
        self.lines.push("-- judged from here --".into());
    }
}

/// The system's allocator, counting.
struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as i64 - l.size() as i64, Ordering::Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOCATOR: Counting = Counting;
fn live() -> i64 {
    LIVE.load(Ordering::Relaxed)
}

static WALK_START: AtomicU64 = AtomicU64::new(0);

pub struct Cx<'a> {
    pub shard: usize,
    pub nshards: usize,
    args: &'a Args,
    only: Option<String>,
    progress: File,
    out: File,
    stats: BTreeMap<String, u64>,
    adds: BTreeMap<String, u64>,
    walks: u64,
    steps: u64,
    violations: u64,
    cut: bool,
    base: Instant,
    limit: Duration,
    verbose_path: Option<String>,
    /// One of how many walks is repeated.
    again: u64,
}

type Shrink<'s> = &'s dyn Fn(u64) -> Option<(Log, String)>;

fn hash(seed: u64, s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325 ^ seed.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    for b in s.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// Which shard does the work item `idx`: scattered, since neighbouring items are often alike.
pub fn share(idx: usize, nshards: usize) -> usize {
    ((idx as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40) as usize % nshards
}

impl Cx<'_> {
    pub fn mine(&self, idx: usize) -> bool {
        self.only.is_some() || share(idx, self.nshards) == self.shard
    }
    pub fn stat(&mut self, k: &str, v: u64) {
        self.stats.insert(k.into(), v);
    }
    pub fn add(&mut self, k: &str, v: u64) {
        *self.adds.entry(k.into()).or_default() += v;
    }
    pub fn complete(&self) -> bool {
        !self.cut
    }
    pub fn report(&mut self, id: &str, log: &Log, msg: &str, shrunk: bool) {
        let lines: Vec<String> = log.lines.iter().rev().take(200).rev().map(|l| esc(l)).collect();
        let ops: Vec<String> = log.ops.iter().map(|l| esc(l)).collect();
        let _ = writeln!(
            self.out,
            "{{\"k\":\"violation\",\"suite\":{},\"walk\":{},\"seed\":{},\"msg\":{},\"ops\":[{}],\"shrunk\":{shrunk},\"log\":[{}]}}",
            esc(&self.args.suite), esc(id), self.args.seed, esc(msg), ops.join(","), lines.join(",")
        );
        self.violations += 1;
    }
    /// Reports that a defect listed in known-findings.txt is still there.
    pub fn finding(&mut self, id: &str, msg: &str) {
        let _ = writeln!(
            self.out,
            "{{\"k\":\"violation\",\"suite\":{},\"walk\":{},\"seed\":{},\"msg\":{},\"ops\":[],\"finding\":{},\"shrunk\":false,\"log\":[]}}",
            esc(&self.args.suite), esc(&format!("finding/{id}")), self.args.seed, esc(msg), esc(id)
        );
    }
    /// The same once more (and more often if necessary): whatever memory it takes it must return,
    /// at least from the second time on.
    fn repeat(&mut self, id: &str, seed: u64, f: &mut dyn FnMut(&mut Rng, &mut Log) -> Result<usize, String>) {
        let mut last = Log::new();
        let mut grown = Vec::new();
        for _ in 0..4 {
            drop(std::mem::take(&mut last));
            let before = live();
            WALK_START.store(self.base.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
            crate::util::set_big(seed >> 7);
            let mut rng = Rng::new(seed);
            let mut log = Log::new();
            let r = quiet(|| f(&mut rng, &mut log));
            WALK_START.store(0, Ordering::Relaxed);
            let n = log.size();
            last = log;
            match r {
                Ok(Ok(_)) => {}
                Ok(Err(m)) | Err(m) => {
                    self.report(id, &last, &format!("{m} (only when repeated)"), false);
                    return;
                }
            }
            let after = live() - n as i64;
            if after <= before {
                self.add("repeated", 1);
                return;
            }
            grown.push(after - before);
        }
        last.tag("done", "drop everything");
        self.report(id, &last, &format!("[life] memory is not returned although everything is dropped: bytes more each time {grown:?}"), false);
    }
    pub fn walk(
        &mut self,
        id: &str,
        mut f: impl FnMut(&mut Rng, &mut Log) -> Result<usize, String>,
        shrink: Option<Shrink<'_>>,
    ) {
        if let Some(o) = &self.only {
            if o != id {
                return;
            }
        }
        if self.violations >= 12 {
            self.cut = true;
            return;
        }
        if self.args.start.elapsed() > self.limit {
            self.cut = true;
            return;
        }
        let mut rec = [b' '; 64];
        let n = id.len().min(64);
        rec[..n].copy_from_slice(&id.as_bytes()[..n]);
        let _ = self.progress.write_at(&rec, 0);
        WALK_START.store(self.base.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
        let seed = hash(self.args.seed, id);
        let mut rng = Rng::new(seed);
        crate::util::set_big(seed >> 7);
        let mut log = Log::new();
        if let Some(p) = &self.verbose_path {
            log.verbose = OpenOptions::new().create(true).append(true).open(p).ok();
        }
        let r = quiet(|| f(&mut rng, &mut log));
        WALK_START.store(0, Ordering::Relaxed);
        self.walks += 1;
        let msg = match r {
            Ok(Ok(n)) => {
                self.steps += n as u64;
                drop(log);
                if seed % self.again == 0 {
                    self.repeat(id, seed, &mut f);
                }
                return;
            }
            Ok(Err(m)) => m,
            Err(p) => format!("[panic] {p}"),
        };
        let small = if self.violations < 4 { shrink.and_then(|s| quiet(|| s(seed)).ok().flatten()) } else { None };
        match small {
            Some((l, m)) => self.report(id, &l, &m, true),
            None => self.report(id, &log, &msg, false),
        }
    }
}

fn child(a: &Args, shard: usize, nshards: usize, only: Option<String>, out: &str, progress: &str, verbose: Option<String>, body: &dyn Fn(&mut Cx<'_>)) -> ! {
    let gb = a.num("mem", 3);
    unsafe {
        setrlimit(9, &[gb << 30, gb << 30]); // RLIMIT_AS
        setrlimit(4, &[0, 0]); // RLIMIT_CORE
    }
    let base = Instant::now();
    let hang = a.num("hang", 40) * 1000;
    let outf = OpenOptions::new().create(true).append(true).open(out).expect("output file");
    let mut hung = outf.try_clone().expect("output file");
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(250));
        let s = WALK_START.load(Ordering::Relaxed);
        if s != 0 && base.elapsed().as_millis() as u64 > s + hang {
            let _ = writeln!(hung, "{{\"k\":\"hang\"}}");
            unsafe { _exit(4) }
        }
    });
    let mut cx = Cx {
        shard,
        nshards,
        args: a,
        only,
        progress: OpenOptions::new().create(true).truncate(true).write(true).open(progress).expect("progress file"),
        out: outf,
        stats: BTreeMap::new(),
        adds: BTreeMap::new(),
        walks: 0,
        steps: 0,
        violations: 0,
        cut: false,
        base,
        limit: Duration::from_secs(a.num("secs", 100_000)),
        verbose_path: verbose,
        again: a.num("again", 16),
    };
    body(&mut cx);
    let mut s = String::new();
    for (k, v) in &cx.stats {
        s += &format!(",\"{k}\":{v}");
    }
    let mut t = String::new();
    for (k, v) in &cx.adds {
        t += &format!("{}\"{k}\":{v}", if t.is_empty() { "" } else { "," });
    }
    let _ = writeln!(cx.out, "{{\"k\":\"stats\",\"walks\":{},\"steps\":{},\"cut\":{}{s},\"add\":{{{t}}}}}", cx.walks, cx.steps, cx.cut);
    unsafe { _exit(0) }
}

/// Runs `body` in forked shards. All results go to files `<out>.<shard>`; a crash or hang is
/// reported as a violation, after repeating the walk on its own to get its log.
pub fn run_sharded(a: &Args, body: impl Fn(&mut Cx<'_>)) -> i32 {
    let n = a.num("shards", 8) as usize;
    let only = a.opts.get("only").cloned();
    let n = if only.is_some() && !a.opts.contains_key("shards") { 1 } else { n };
    // A part of the shards only: another build of the driver does the rest.
    let (from, to) = if only.is_some() { (0, n) } else { (a.num("from", 0) as usize, (a.num("to", n as u64) as usize).min(n)) };
    let mut pids = Vec::new();
    for i in from..to {
        let out = format!("{}.{i}", a.out);
        let _ = std::fs::remove_file(&out);
        let prog = format!("{}.{i}.progress", a.out);
        let pid = unsafe { fork() };
        if pid == 0 {
            child(a, i, n, only.clone(), &out, &prog, None, &body);
        }
        assert!(pid > 0, "fork failed");
        pids.push((i, pid));
    }
    for (i, pid) in pids {
        let mut st = 0;
        unsafe { waitpid(pid, &mut st, 0) };
        if st == 0 {
            continue;
        }
        let out = format!("{}.{i}", a.out);
        let id = std::fs::read_to_string(format!("{}.{i}.progress", a.out)).unwrap_or_default().trim().to_string();
        let vlog = format!("{}.{i}.log", a.out);
        let _ = std::fs::remove_file(&vlog);
        let rerun = format!("{}.{i}.rerun", a.out);
        let _ = std::fs::remove_file(&rerun);
        let pid = unsafe { fork() };
        if pid == 0 {
            child(a, i, n, Some(id.clone()), &rerun, &format!("{rerun}.progress"), Some(vlog.clone()), &body);
        }
        let mut st2 = 0;
        let t0 = Instant::now();
        loop {
            let r = unsafe { waitpid(pid, &mut st2, 1) };
            if r != 0 {
                break;
            }
            if t0.elapsed() > Duration::from_secs(90) {
                unsafe { kill(pid, 9) };
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        let what = |st: i32| if st & 0x7f != 0 { format!("killed by signal {}", st & 0x7f) } else if st >> 8 == 4 { "does not terminate".to_string() } else { format!("exit status {}", st >> 8) };
        let log = std::fs::read_to_string(&vlog).unwrap_or_default();
        let lines: Vec<&str> = log.lines().collect();
        let esc_lines: Vec<String> = lines.iter().map(|l| esc(l)).collect();
        if let Ok(mut f) = OpenOptions::new().create(true).append(true).open(&out) {
            let _ = writeln!(
                f,
                "{{\"k\":\"violation\",\"suite\":{},\"walk\":{},\"seed\":{},\"msg\":{},\"ops\":[],\"crash\":true,\"shrunk\":false,\"log\":[{}]}}",
                esc(&a.suite), esc(&id), a.seed,
                esc(&format!("[crash] the process {} (repeated on its own: {})", what(st), if st2 == 0 { "no crash".to_string() } else { what(st2) })),
                esc_lines.join(",")
            );
        }
    }
    0
}
