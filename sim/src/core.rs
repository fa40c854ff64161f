//! The simulation context: one seeded choice source, one event log, one virtual clock.
//!
//! Everything nondeterministic in a run is a `pick()`. A run is a function of its choice
//! sequence, so a recorded sequence is an exact replay and a shorter sequence a simpler run:
//! every `pick()` is arranged so that 0 is the simplest outcome (no fault, no preemption).

use std::cell::RefCell;
use std::collections::BTreeMap;

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.rotate_left(32) ^ 0x5851F42D4C957F2D);
    r.next();
    r.next() ^ b
}

#[derive(Clone, Debug)]
pub struct Viol {
    /// Stable class of the violation; the minimiser keeps it.
    pub class: String,
    pub msg: String,
}

pub type Check = Result<(), Viol>;

pub fn viol<T>(class: &str, msg: String) -> Result<T, Viol> {
    Err(Viol {
        class: class.to_string(),
        msg,
    })
}

#[macro_export]
macro_rules! fail {
    ($class:expr, $($arg:tt)*) => {
        return $crate::core::viol($class, format!($($arg)*))
    };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !($cond) {
            return $crate::core::viol($class, format!($($arg)*));
        }
    };
}

#[derive(Clone, Copy)]
pub struct Ev {
    pub kind: &'static str,
    pub a: u64,
    pub b: u64,
}

pub struct Ctx {
    rng: Option<Rng>,
    script: Vec<u32>,
    pos: usize,
    pub rec: Vec<u32>,
    pub log: Vec<Ev>,
    pub events: u64,
    pub hash: u64,
    pub sched_hash: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub now_ns: u64,
    pub io_ops: u64,
    pub io_limit: u64,
    pub weak: bool,
    pub runaway: bool,
}

const LOG_LIMIT: usize = 20_000;

thread_local! {
    static CTX: RefCell<Option<Ctx>> = const { RefCell::new(None) };
}

pub fn install(seed: Option<u64>, script: Vec<u32>) {
    CTX.with(|c| {
        *c.borrow_mut() = Some(Ctx {
            rng: seed.map(Rng::new),
            script,
            pos: 0,
            rec: Vec::new(),
            log: Vec::new(),
            events: 0,
            hash: 0xcbf29ce484222325,
            sched_hash: 0xcbf29ce484222325,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            now_ns: 1_000_000_000,
            io_ops: 0,
            io_limit: 4_000_000,
            weak: false,
            runaway: false,
        })
    });
}

pub fn take() -> Ctx {
    CTX.with(|c| c.borrow_mut().take().expect("context"))
}

pub fn active() -> bool {
    CTX.with(|c| c.try_borrow().map(|c| c.is_some()).unwrap_or(false))
}

fn with<T>(f: impl FnOnce(&mut Ctx) -> T) -> T {
    CTX.with(|c| f(c.borrow_mut().as_mut().expect("simulation context")))
}

/// Draw a value in `0..n`. 0 is always the simplest outcome.
pub fn pick(n: u64) -> u64 {
    if n <= 1 {
        return 0;
    }
    with(|c| {
        let v = match c.rng.as_mut() {
            Some(rng) => rng.below(n),
            None => {
                let v = c.script.get(c.pos).copied().unwrap_or(0) as u64;
                c.pos += 1;
                v.min(n - 1)
            }
        };
        c.rec.push(v as u32);
        v
    })
}

/// True with probability num/den; false is the simple outcome.
pub fn chance(num: u64, den: u64) -> bool {
    if num == 0 {
        return false;
    }
    pick(den) >= den - num
}

/// Inclusive range, biased to nothing; lo is the simple outcome.
pub fn range(lo: u64, hi: u64) -> u64 {
    lo + pick(hi - lo + 1)
}

/// Log-uniform countdown to the next occurrence of something. `None` (never) is simplest.
pub fn gap(bits: u64) -> Option<u64> {
    let v = pick(bits + 1);
    if v == 0 {
        return None;
    }
    let base = 1u64 << (v - 1);
    Some(base - 1 + pick(base))
}

/// A size, log-uniform in 0..2^bits.
pub fn logsize(bits: u64) -> u64 {
    gap(bits).unwrap_or(0)
}

pub fn ev(kind: &'static str, a: u64, b: u64) {
    with(|c| {
        c.events += 1;
        for byte in kind.as_bytes() {
            c.hash = (c.hash ^ *byte as u64).wrapping_mul(0x100000001b3);
        }
        c.hash = (c.hash ^ a).wrapping_mul(0x100000001b3);
        c.hash = (c.hash ^ b).wrapping_mul(0x100000001b3);
        if c.log.len() < LOG_LIMIT {
            c.log.push(Ev { kind, a, b });
        }
    })
}

/// The clock moved: part of the execution's hash, but not worth a line in the log.
pub fn tick(t: u64) {
    with(|c| {
        c.events += 1;
        c.hash = (c.hash ^ t).wrapping_mul(0x100000001b3);
    })
}

/// An event that distinguishes interleavings / fault placements (the stated measure).
pub fn sched(kind: &'static str, a: u64, b: u64) {
    with(|c| {
        for byte in kind.as_bytes() {
            c.sched_hash = (c.sched_hash ^ *byte as u64).wrapping_mul(0x100000001b3);
        }
        c.sched_hash = (c.sched_hash ^ a).wrapping_mul(0x100000001b3);
        c.sched_hash = (c.sched_hash ^ b).wrapping_mul(0x100000001b3);
    });
    ev(kind, a, b);
}

pub fn fault(kind: &'static str, at: u64) {
    with(|c| *c.faults.entry(kind).or_insert(0) += 1);
    sched(kind, at, 0);
}

/// Entities without a checksum may be generated from here on: damage to them is not detectable.
pub fn allow_weak() {
    with(|c| c.weak = true)
}

pub fn weak() -> bool {
    with(|c| c.weak)
}

pub fn probe(name: &'static str) {
    with(|c| *c.probes.entry(name).or_insert(0) += 1);
}

pub fn now() -> u64 {
    with(|c| c.now_ns)
}

pub fn set_now(ns: u64) {
    with(|c| c.now_ns = c.now_ns.max(ns))
}

/// Marker panic payload: the code under test performed an absurd number of I/O operations.
pub struct Runaway;

/// Counts one simulated I/O operation; a run that never ends is cut here.
pub fn io_op() -> u64 {
    let (n, over) = with(|c| {
        c.io_ops += 1;
        (c.io_ops, c.io_ops > c.io_limit)
    });
    if over {
        std::panic::panic_any(Runaway);
    }
    n
}

/// The same for callers that must not unwind: true if the run has to be cut.
pub fn io_op_ffi() -> bool {
    with(|c| {
        c.io_ops += 1;
        if c.io_ops > c.io_limit {
            c.runaway = true;
        }
        c.runaway
    })
}

pub fn set_io_limit(extra: u64) {
    with(|c| c.io_limit = c.io_ops + extra)
}

/// Random bytes whose content costs one choice.
pub fn bytes(len: usize) -> Vec<u8> {
    let seed = pick(1 << 16);
    let mut r = Rng::new(seed.wrapping_mul(0x2545F4914F6CDD1D));
    let mut out = Vec::with_capacity(len + 8);
    while out.len() < len {
        out.extend_from_slice(&r.next().to_le_bytes());
    }
    out.truncate(len);
    if seed == 0 {
        out.fill(0);
    }
    out
}

pub fn word() -> u64 {
    match pick(4) {
        0 => pick(8),
        1 => pick(1 << 16),
        2 => u64::MAX - pick(4),
        _ => {
            let mut r = Rng::new(pick(1 << 24));
            r.next()
        }
    }
}

pub fn hash_bytes(data: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in data {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
