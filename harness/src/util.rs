//! Random numbers, payloads with life-cycle tracking, and panic capture.
use dendron::traverse::DftEvent;
use dendron::Node;
use std::cell::{Cell, RefCell};
use std::fmt;
use std::rc::Rc;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
}

thread_local! {
    static NEXT: Cell<u64> = const { Cell::new(1) };
    static DROPS: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) };
    static FUSE: Cell<i64> = const { Cell::new(-1) };
    static ON_DROP: RefCell<Option<Rc<dyn Fn(u64)>>> = const { RefCell::new(None) };
    static TWO_LINES: Cell<bool> = const { Cell::new(false) };
    static BIG_AT: Cell<usize> = const { Cell::new(0) };
    static ON_USE: RefCell<Option<Rc<dyn Fn()>>> = const { RefCell::new(None) };
}

/// Node data whose drops are counted.
pub struct Payload {
    pub serial: u64,
    pub val: i64,
}

impl Payload {
    pub fn new(val: i64) -> Self {
        let serial = NEXT.with(|n| {
            let v = n.get();
            n.set(v + 1);
            v
        });
        Payload { serial, val }
    }
}
impl Drop for Payload {
    fn drop(&mut self) {
        DROPS.with(|d| {
            let mut d = d.borrow_mut();
            let i = self.serial as usize;
            if d.len() <= i {
                d.resize(i + 64, 0);
            }
            d[i] += 1;
        });
        let hook = ON_DROP.with(|h| h.borrow().clone());
        if let Some(hook) = hook {
            hook(self.serial);
        }
    }
}
impl Clone for Payload {
    fn clone(&self) -> Self {
        on_use();
        FUSE.with(|f| {
            let v = f.get();
            if v == 0 {
                f.set(-1);
                panic!("injected failure while cloning data");
            }
            if v > 0 {
                f.set(v - 1);
            }
        });
        Payload::new(self.val)
    }
}
impl PartialEq for Payload {
    fn eq(&self, o: &Self) -> bool {
        self.val == o.val
    }
}
impl Eq for Payload {}
impl fmt::Debug for Payload {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if TWO_LINES.with(|t| t.get()) {
            writeln!(f, "{}", self.val)?;
        }
        write!(f, "{}", self.val)
    }
}
impl fmt::Display for Payload {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if TWO_LINES.with(|t| t.get()) {
            writeln!(f, "{}", self.val)?;
        }
        write!(f, "{}", self.val)
    }
}

pub fn drops_of(serial: u64) -> u32 {
    DROPS.with(|d| d.borrow().get(serial as usize).copied().unwrap_or(0))
}
pub fn last_serial() -> u64 {
    NEXT.with(|n| n.get() - 1)
}
/// Numbers beyond any depth or count here, around the limits of narrower types.
pub const BIG: [usize; 10] = [
    usize::MAX - 1,
    1 << 32,
    (1 << 32) + 1,
    1 << 31,
    u32::MAX as usize,
    1 << 16,
    (1 << 16) + 1,
    i64::MAX as usize,
    1 << 63,
    (1 << 63) + 1,
];
/// One of them after the other; where to start is set for each walk.
pub fn big() -> usize {
    BIG_AT.with(|b| {
        b.set(b.get().wrapping_add(1));
        BIG[b.get() % BIG.len()]
    })
}
pub fn set_big(start: u64) {
    BIG_AT.with(|b| b.set(start as usize));
}
/// Forget the drop history (between walks, when nothing is alive).
pub fn reset_serials() {
    NEXT.with(|n| n.set(1));
    DROPS.with(|d| d.borrow_mut().clear());
}
/// The (n+1)-th clone from now on panics.
pub fn set_fuse(n: i64) {
    FUSE.with(|f| f.set(n));
}
/// Called by data that are being copied, compared or printed.
pub fn on_use() {
    let hook = ON_USE.with(|h| h.borrow().clone());
    if let Some(hook) = hook {
        hook();
    }
}
/// Runs `f`; whenever it copies, compares or prints data, `hook` is called.
pub fn watching<R>(hook: Rc<dyn Fn()>, f: impl FnOnce() -> R) -> R {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            ON_USE.with(|h| h.borrow_mut().take());
        }
    }
    ON_USE.with(|h| *h.borrow_mut() = Some(hook));
    let _reset = Reset;
    f()
}
/// What a traversal of the subtree shows, data that can be read included.
pub fn shape<T>(n: &Node<T>, id: &dyn Fn(&T) -> u64) -> Vec<(bool, Option<u64>, usize)> {
    n.depth_first_traverse()
        .map(|ev| {
            let x = ev.as_value();
            let d = x.try_borrow_data().ok().map(|d| id(&d));
            (matches!(ev, DftEvent::Open(_)), d, x.num_children())
        })
        .collect()
}
/// A hook that panics unless the subtrees look as they do now.
pub fn unchanged<T: 'static>(ns: Vec<Node<T>>, id: fn(&T) -> u64) -> Rc<dyn Fn()> {
    let before: Vec<_> = ns.iter().map(|n| shape(n, &id)).collect();
    let calls = Cell::new(0_usize);
    Rc::new(move || {
        calls.set(calls.get() + 1);
        if calls.get() > 8 && !calls.get().is_power_of_two() {
            return;
        }
        for (n, b) in ns.iter().zip(&before) {
            let now = shape(n, &id);
            assert!(now == *b, "seen from within the data that are used, the subtree is {now:?} instead of {b:?}");
        }
    })
}
/// Called (re-entrantly, if need be) whenever data is dropped.
pub fn set_on_drop(f: Option<Rc<dyn Fn(u64)>>) {
    ON_DROP.with(|h| *h.borrow_mut() = f);
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if std::env::var_os("SHOW_PANICS").is_some() {
            eprintln!("{msg} @ {loc}");
        }
        let _ = PANIC_MSG.try_with(|p| *p.borrow_mut() = format!("{msg} @ {loc}"));
    }));
}

pub fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC_MSG.with(|p| p.borrow().clone()))
}

/// A writer that keeps nothing.
pub struct Sink;
impl fmt::Write for Sink {
    fn write_str(&mut self, _: &str) -> fmt::Result {
        Ok(())
    }
}

/// Asks an error for everything it tells; that must not panic (the texts are left open).
pub fn explain(e: &(impl fmt::Display + fmt::Debug)) {
    use fmt::Write;
    let _ = write!(Sink, "{e}{e:?}{e:#?}");
}

/// Whether an error names a refused borrow as its source.
#[cfg(feature = "std")]
pub fn caused_by_borrow(e: &dyn std::error::Error) -> bool {
    e.source().is_some_and(|s| s.is::<std::cell::BorrowError>())
}

/// Whether data are printed twice, on lines of their own.
pub fn set_two_lines(two: bool) {
    TWO_LINES.with(|t| t.set(two));
}
