//! FileStorage: the single-writer lock, over the simulated file system and clock.

use crate::core::*;
use crate::coro;
use crate::disk::*;
use crate::model::*;
use crate::props::storage::{Enc, fill, image, parse};
use crate::types::*;
use crate::vfs;
use crate::{ensure, fail};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::time::Duration;

const PATH: &str = "/simfs/data.brec";
const LOCK: &str = "/simfs/data.lock";

#[derive(Default)]
struct Shared {
    /// Task that holds an open storage, if any.
    holder: Cell<Option<usize>>,
    acked: RefCell<Vec<Enc>>,
    /// Unacknowledged insert per task.
    inflight: RefCell<Vec<Option<Enc>>>,
    /// Packets of killed processes that may be in the storage: (position, packet)
    maybe: RefCell<Vec<(usize, Enc)>>,
    viol: RefCell<Option<Viol>>,
    opened: Cell<u64>,
    refused: Cell<u64>,
    timed_out: Cell<u64>,
}

impl Shared {
    fn note(&self, c: Check) {
        if coro::dead() {
            return;
        }
        if let Err(v) = c {
            self.viol.borrow_mut().get_or_insert(v);
        }
    }
    fn bad(&self) -> bool {
        self.viol.borrow().is_some()
    }
    fn acquire(&self, me: usize) -> Check {
        if let Some(h) = self.holder.get() {
            fail!("two-writers", "process {me} opened the storage while process {h} has it open");
        }
        self.holder.set(Some(me));
        self.opened.set(self.opened.get() + 1);
        Ok(())
    }
    fn release(&self) {
        self.holder.set(None);
    }
}

/// Match the stored packets with the acknowledged ones; packets of killed processes are optional.
pub fn account(found: &[Vec<u8>], acked: &[Enc], maybe: &[(usize, Enc)]) -> Check {
    let mut m = maybe.to_vec();
    m.sort_by_key(|x| x.0);
    let mut k = 0;
    let mut mi = 0;
    for (i, f) in found.iter().enumerate() {
        // optional ones in front of acknowledged packet k
        let mut taken = false;
        while mi < m.len() && m[mi].0 <= k {
            if m[mi].0 == k && *f == *m[mi].1 {
                taken = true;
            }
            mi += 1;
            if taken {
                break;
            }
        }
        if taken {
            continue;
        }
        ensure!(k < acked.len(), "extra-packet", "packet {i} in the storage was never inserted");
        ensure!(
            *f == *acked[k],
            "lost-update",
            "packet {i} in the storage is not the acknowledged packet {k} of {}",
            acked.len()
        );
        k += 1;
    }
    ensure!(
        k == acked.len(),
        "lost-update",
        "{k} of {} acknowledged packets are in the storage ({} found)",
        acked.len(),
        found.len()
    );
    Ok(())
}

fn writer_life(sh: &Shared, me: usize, rounds: u64) -> Check {
    for round in 0..rounds {
        if sh.bad() {
            return Ok(());
        }
        let timeout = match pick(4) {
            0 => None,
            1 => Some(Duration::from_millis(pick(30))),
            _ => Some(Duration::from_millis(100 + pick(2000))),
        };
        let interval = match pick(3) {
            0 => None,
            1 => Some(Duration::from_millis(1 + pick(20))),
            _ => Some(Duration::from_micros(1 + pick(3000))),
        };
        let res: Result<FileStorage, brec::Error> = if chance(1, 2) {
            brec::FileWriterDef::new(PATH, timeout, interval)
        } else {
            let mut o = brec::FileStorageOptions::new(PATH);
            if let Some(t) = timeout {
                o = o.timeout(t);
            }
            if let Some(i) = interval {
                o = o.interval(i);
            }
            o.open()
        };
        if coro::dead() {
            return Ok(());
        }
        let mut w = match res {
            Ok(w) => w,
            Err(brec::Error::FileIsLocked(_)) => {
                ensure!(timeout.is_none(), "wrong-error", "FileIsLocked with a timeout");
                sh.refused.set(sh.refused.get() + 1);
                coro::sleep(1 + logsize(24));
                continue;
            }
            Err(brec::Error::TimeoutToWaitLockedFile(_)) => {
                ensure!(timeout.is_some(), "wrong-error", "TimeoutToWaitLockedFile without a timeout");
                sh.timed_out.set(sh.timed_out.get() + 1);
                continue;
            }
            Err(e) => fail!("unexpected-error", "process {me} cannot open the storage: {e}"),
        };
        sh.acquire(me)?;
        for i in 0..pick(5) {
            let s = if chance(1, 2) {
                small_spec(10_000_000 + me as u64 * 1_000_000 + round * 100 + i)
            } else {
                filler(20_000_000 + me as u64 * 1_000_000 + round * 100 + i)
            };
            let enc = Rc::new(s.enc());
            sh.inflight.borrow_mut()[me] = Some(enc.clone());
            let res = w.insert(s.packet());
            if coro::dead() {
                return Ok(());
            }
            if let Err(e) = res {
                fail!("unexpected-error", "process {me}: insert: {e}");
            }
            sh.inflight.borrow_mut()[me] = None;
            sh.acked.borrow_mut().push(enc);
            ev("acked", me as u64, sh.acked.borrow().len() as u64);
            if chance(1, 3) {
                coro::sleep(1 + logsize(24));
            }
        }
        sh.release();
        drop(w);
        if chance(1, 2) {
            coro::sleep(1 + logsize(22));
        }
    }
    Ok(())
}

pub fn c13_writers() -> Check {
    vfs::start();
    let n = match pick(5) {
        0 => None,
        1 => Some(497 + pick(4) as usize),
        2 => Some(0),
        _ => Some(pick(20) as usize),
    };
    let sh = Rc::new(Shared::default());
    if let Some(n) = n {
        let p = fill(n);
        vfs::put(PATH, image(&p));
        *sh.acked.borrow_mut() = p;
    }
    if chance(1, 3) {
        // left behind by a process that died long ago
        vfs::put(LOCK, vec![]);
    }
    let writers = range(2, 4) as usize;
    sh.inflight.borrow_mut().resize(writers, None);
    let mut tasks: Vec<Box<dyn FnOnce()>> = Vec::new();
    for me in 0..writers {
        let sh = sh.clone();
        let rounds = range(1, 4);
        tasks.push(Box::new(move || {
            let c = writer_life(&sh, me, rounds);
            sh.note(c);
        }));
    }
    let mut kills = vec![];
    if chance(1, 2) {
        for _ in 0..range(1, 2) {
            kills.push((pick(writers as u64) as usize, logsize(12)));
        }
    } else if chance(1, 2) {
        // short transfers only without kills: a half written table is C09's matter
        vfs::world(|w| {
            w.short_bits = 8;
            w.shorts = gap(8);
        });
    }
    if chance(1, 4) {
        vfs::jumps(ms(800));
    }
    let plan = coro::Plan { kills, stalls: vec![], bits: 2 + pick(11), max_rounds: 600_000 };
    let s2 = sh.clone();
    let exit = coro::run(tasks, plan, move |t| {
        if let Some(e) = s2.inflight.borrow_mut()[t].take() {
            s2.maybe.borrow_mut().push((s2.acked.borrow().len(), e));
        }
        if s2.holder.get() == Some(t) {
            s2.release();
            ev("holder_killed", t as u64, 0);
        }
        vfs::kill(t);
    });
    if let Some((_, p)) = exit.panic {
        std::panic::resume_unwind(p);
    }
    if let Some(v) = sh.viol.borrow().clone() {
        return Err(v);
    }
    ensure!(exit.finished.iter().all(|f| *f), "stuck", "a writer never finished");
    if sh.opened.get() > 1 {
        probe("several_owners");
    }
    if sh.refused.get() + sh.timed_out.get() > 0 {
        probe("contention");
    }
    ensure!(!vfs::locked(LOCK), "lock-leak", "everybody is gone, but the lock is still held");
    let found = match vfs::content(PATH) {
        None => vec![],
        Some(d) => match parse(&d) {
            Ok(f) => f,
            Err(e) => fail!("wrong-layout", "the storage is broken: {e}"),
        },
    };
    account(&found, &sh.acked.borrow(), &sh.maybe.borrow())?;
    // the next process opens it at once
    let w: Result<FileStorage, brec::Error> = brec::FileWriterDef::new(PATH, None, None);
    match w {
        Ok(_) => {}
        Err(e) => fail!("lock-leak", "the storage of the dead cannot be opened: {e}"),
    }
    let d = disk(vfs::content(PATH).unwrap_or_default());
    let env = Env::calm();
    env.quiet.set(true);
    match Reader::new(SFile::new(&d, &env)) {
        Ok(r) => ensure!(r.count() == found.len(), "wrong-count", "count() = {}, stored {}", r.count(), found.len()),
        Err(e) => fail!("unexpected-error", "reading the storage: {e}"),
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

fn ms(n: u64) -> u64 {
    n * 1_000_000
}

/// One waiter: is its answer right and in time?
fn waiter(sh: &Shared, me: usize, oversleep: u64) -> Check {
    if chance(1, 2) {
        coro::sleep(ms(pick(200)));
    }
    let timeout = match pick(5) {
        0 | 1 => None,
        2 => Some(pick(3)),
        3 => Some(pick(400)),
        _ => Some(pick(3000)),
    };
    let interval = match pick(4) {
        0 => None,
        1 => Some(1 + pick(10)),
        2 => Some(1 + pick(100)),
        _ => Some(1 + pick(700)),
    };
    let i_ns = ms(interval.unwrap_or(50));
    let began = now();
    let res: Result<FileStorage, brec::Error> = if chance(1, 2) || interval.is_none() {
        brec::FileWriterDef::new(PATH, timeout.map(Duration::from_millis), interval.map(Duration::from_millis))
    } else {
        let mut o = brec::FileStorageOptions::new(PATH);
        if let Some(t) = timeout {
            o = o.timeout(Duration::from_millis(t));
        }
        if let Some(i) = interval {
            o = o.interval(Duration::from_millis(i));
        }
        o.open()
    };
    if coro::dead() {
        return Ok(());
    }
    let took = now() - began;
    ev("answer", me as u64, took);
    let limit = timeout.map(ms).unwrap_or(0);
    let bound = limit + if timeout.is_some() { i_ns + oversleep } else { 0 };
    ensure!(
        took <= bound,
        "too-late",
        "answer after {took} ns; timeout {timeout:?} ms, interval {interval:?} ms, allowed {bound} ns"
    );
    match res {
        Ok(w) => {
            sh.acquire(me)?;
            if took > 0 {
                probe("got_it_after_waiting");
            }
            // whoever waits takes it at the first poll that can
            if let Some(idle) = vfs::idle_before(LOCK) {
                let idle = idle.min(took);
                ensure!(
                    idle <= i_ns + oversleep,
                    "too-late",
                    "took the lock {idle} ns after it had become free, polling every {i_ns} ns"
                );
            }
            coro::sleep(ms(pick(150)));
            if chance(1, 6) {
                probe("held_long");
                coro::sleep(ms(600));
            }
            sh.release();
            drop(w);
        }
        Err(brec::Error::FileIsLocked(p)) => {
            ensure!(timeout.is_none(), "wrong-error", "FileIsLocked though a timeout of {timeout:?} ms is set");
            ensure!(took == 0, "too-late", "no timeout is set, but the refusal took {took} ns");
            ensure!(p == PATH, "wrong-error", "the error names {p}");
            probe("refused_at_once");
        }
        Err(brec::Error::TimeoutToWaitLockedFile(p)) => {
            let Some(t) = timeout else { fail!("wrong-error", "timed out without a timeout") };
            ensure!(took >= ms(t), "too-early", "gave up after {took} ns of {t} ms");
            ensure!(p == PATH, "wrong-error", "the error names {p}");
            // a lock that was free for longer than a polling interval has to be taken
            if let Some(free) = vfs::free_since(LOCK) {
                let free = now() - free;
                ensure!(
                    free <= i_ns + oversleep,
                    "missed-lock",
                    "gave up although the storage was free for {free} ns, polling every {i_ns} ns"
                );
            }
            probe("timed_out");
        }
        Err(e) => fail!("unexpected-error", "{e}"),
    }
    Ok(())
}

/// A storage of another name has nothing to do with the one the others fight for.
fn unrelated(me: usize) -> Check {
    let path = match pick(4) {
        0 => format!("/simfs/other{me}.brec"),
        1 => format!("/simfs/data{me}.brec"),
        2 => format!("/simfs/data.{me}.brec"),
        _ => format!("/simfs/{me}.data.brec"),
    };
    let began = now();
    let r: Result<FileStorage, brec::Error> = brec::FileWriterDef::new(&path, None, None);
    let took = now() - began;
    if coro::dead() {
        return Ok(());
    }
    match r {
        Ok(w) => {
            ensure!(took == 0, "too-late", "{path} isn't locked, but opening it took {took} ns");
            if vfs::locked(LOCK) {
                probe("unrelated_storage");
            }
            coro::sleep(ms(pick(60)));
            drop(w);
            Ok(())
        }
        Err(e) => fail!("unrelated-lock", "nobody has {path} open, but it cannot be opened: {e}"),
    }
}

pub fn c14_waiting() -> Check {
    vfs::start();
    let sh = Rc::new(Shared::default());
    vfs::put(PATH, image(&fill(3)));
    let waiters = range(2, 4) as usize;
    let mut tasks: Vec<Box<dyn FnOnce()>> = Vec::new();
    let mut stalls = Vec::new();
    for me in 0..waiters {
        let over = if chance(1, 3) { ms(pick(40)) } else { 0 };
        if over > 0 {
            stalls.push((me, over));
        }
        let sh = sh.clone();
        let rounds = range(1, 3);
        tasks.push(Box::new(move || {
            for _ in 0..rounds {
                if !sh.bad() {
                    let c = if chance(1, 6) { unrelated(me) } else { waiter(&sh, me, over) };
                    sh.note(c);
                }
            }
        }));
    }
    if !stalls.is_empty() {
        fault("oversleeping_timer", stalls.len() as u64);
    }
    let kills = if chance(1, 3) {
        vec![(pick(waiters as u64) as usize, logsize(10))]
    } else {
        vec![]
    };
    if chance(1, 4) {
        vfs::jumps(ms(800));
    }
    let plan = coro::Plan { kills, stalls, bits: 2 + pick(10), max_rounds: 600_000 };
    let s2 = sh.clone();
    let exit = coro::run(tasks, plan, move |t| {
        if s2.holder.get() == Some(t) {
            s2.release();
        }
        vfs::kill(t);
    });
    if let Some((_, p)) = exit.panic {
        std::panic::resume_unwind(p);
    }
    if let Some(v) = sh.viol.borrow().clone() {
        return Err(v);
    }
    ensure!(exit.finished.iter().all(|f| *f), "stuck", "a process never got an answer");
    ensure!(!vfs::locked(LOCK), "lock-leak", "everybody is gone, but the lock is still held");
    Ok(())
}

/// Opening fails half way: the right error, and nobody else is locked out.
pub fn c14_failures() -> Check {
    vfs::start();
    let sh = Rc::new(Shared::default());
    let what = pick(7);
    let mut img = image(&fill(2));
    match what {
        0 => {
            let at = pick(SLOT as u64) as usize;
            img[at] ^= 1 << pick(8);
            fault("bit_flip", at as u64);
        }
        _ => {}
    }
    if what == 1 {
        vfs::mkdir(PATH);
    } else {
        vfs::put(PATH, img);
    }
    match what {
        2 => vfs::world(|w| w.fails.push(vfs::Fail { op: vfs::Op::Open, task: 0, suffix: ".brec", after: 0, errno: [libc::EMFILE, libc::EACCES, libc::EIO][pick(3) as usize] })),
        3 => vfs::world(|w| w.fails.push(vfs::Fail { op: vfs::Op::Open, task: 0, suffix: ".lock", after: 0, errno: [libc::EMFILE, libc::EACCES, libc::EIO][pick(3) as usize] })),
        4 => vfs::world(|w| w.fails.push(vfs::Fail { op: vfs::Op::Flock, task: 0, suffix: ".lock", after: 0, errno: [libc::ENOLCK, libc::EIO][pick(2) as usize] })),
        5 => {
            let after = pick(400);
            vfs::world(|w| w.fails.push(vfs::Fail { op: vfs::Op::Read, task: 0, suffix: ".brec", after, errno: libc::EIO }))
        }
        6 => {
            let after = pick(6);
            vfs::world(|w| w.fails.push(vfs::Fail { op: vfs::Op::Seek, task: 0, suffix: ".brec", after, errno: libc::EIO }))
        }
        _ => {}
    }
    let sure = matches!(what, 0..=5);
    let timeout = if chance(1, 2) { Some(Duration::from_millis(pick(100))) } else { None };
    let keep = Rc::new(RefCell::new(None::<Result<FileStorage<'static>, brec::Error>>));
    let s = sh.clone();
    let k2 = keep.clone();
    let exit = coro::run(
        vec![Box::new(move || {
            let began = now();
            let r = brec::FileWriterDef::new(PATH, timeout, None);
            let took = now() - began;
            let ok = match (&r, what) {
                (Err(brec::Error::DamagedSlot(_)), 0) => true,
                (Err(brec::Error::PathIsNotFile(p)), 1) => p == PATH,
                (Err(brec::Error::Io(_)), 2 | 5 | 6) => true,
                (Err(brec::Error::FailToLockFile(_)), 3 | 4) => true,
                (Ok(_), 6) => true,
                _ => false,
            };
            if !ok {
                s.note(viol(
                    "wrong-error",
                    format!("failure {what} was answered with {:?}", r.as_ref().err().map(|e| e.to_string())),
                ));
            }
            if took > 0 {
                s.note(viol("too-late", format!("failure {what} was answered after {took} ns")));
            }
            *k2.borrow_mut() = Some(r);
        })],
        coro::Plan { kills: vec![], stalls: vec![], bits: 0, max_rounds: 10_000 },
        |_| {},
    );
    if let Some((_, p)) = exit.panic {
        std::panic::resume_unwind(p);
    }
    if let Some(v) = sh.viol.borrow().clone() {
        return Err(v);
    }
    let failed = matches!(&*keep.borrow(), Some(Err(_)));
    if failed {
        probe("open_failed");
        ensure!(
            !vfs::locked(LOCK),
            "lock-leak",
            "opening failed (case {what}), but the lock is still held"
        );
        ensure!(vfs::open_of(0) == 0, "descriptor-leak", "opening failed, but files are still open");
        // someone else can have a go
        if what >= 2 {
            let r: Result<FileStorage, brec::Error> = brec::FileWriterDef::new(PATH, None, None);
            if let Err(e) = r {
                fail!("lock-leak", "after a failed open (case {what}) nobody else can open: {e}");
            }
        }
    } else {
        ensure!(!sure, "wrong-error", "case {what} went unnoticed");
    }
    drop(keep.borrow_mut().take());
    Ok(())
}
