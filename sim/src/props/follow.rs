//! The whole chain: locked writers, the change sensor and readers that follow its wakes.

use crate::core::*;
use crate::coro;
use crate::model::*;
use crate::props::lock::account;
use crate::props::storage::{Enc, fill, image, is_damage, parse, table};
use crate::props::watch::{Report, event, point, stalls};
use crate::types::*;
use crate::vfs;
use crate::{ensure, fail};
use std::cell::{Cell, RefCell};
use std::fs::File;
use std::path::Path;
use std::rc::Rc;
use std::time::Duration;

const PATH: &str = "/simfs/feed.brec";

#[derive(Default)]
struct Shared {
    acked: RefCell<Vec<Enc>>,
    /// What the writer is writing right now.
    inflight: RefCell<Vec<Option<Enc>>>,
    /// Packets of killed writers that may be in the storage.
    maybe: RefCell<Vec<(usize, Enc)>>,
    /// Writers inside of an operation, and operations begun.
    busy: Cell<u64>,
    ops: Cell<u64>,
    within: RefCell<Vec<bool>>,
    /// Writers that are not done yet.
    writers: Cell<usize>,
    alive: RefCell<Vec<bool>>,
    /// Every change is reported.
    drained: Cell<bool>,
    /// System calls of followers and watcher may fail.
    faulty: Cell<bool>,
    delivered: RefCell<Vec<Vec<Vec<u8>>>>,
    viol: RefCell<Option<Viol>>,
    followers: Cell<usize>,
}

impl Shared {
    fn note(&self, c: Check) {
        if coro::dead() {
            return;
        }
        if let Err(v) = c {
            self.viol.borrow_mut().get_or_insert(v);
        }
    }
    fn bad(&self) -> bool {
        self.viol.borrow().is_some()
    }
    fn enter(&self, me: usize) {
        self.busy.set(self.busy.get() + 1);
        self.ops.set(self.ops.get() + 1);
        self.within.borrow_mut()[me] = true;
    }
    fn leave(&self, me: usize) {
        if std::mem::take(&mut self.within.borrow_mut()[me]) {
            self.busy.set(self.busy.get() - 1);
        }
    }
    fn gone(&self, me: usize) {
        if std::mem::take(&mut self.alive.borrow_mut()[me]) {
            self.writers.set(self.writers.get() - 1);
        }
    }
}

/// A process that opens the storage, appends and closes it.
fn writer(sh: &Shared, me: usize, rounds: u64) -> Check {
    for round in 0..rounds {
        if sh.bad() {
            return Ok(());
        }
        sh.enter(me);
        let res: Result<FileStorage, brec::Error> =
            brec::FileWriterDef::new(PATH, Some(Duration::from_secs(3000)), Some(Duration::from_micros(1 + pick(5000))));
        if coro::dead() {
            return Ok(());
        }
        sh.leave(me);
        let mut w = match res {
            Ok(w) => w,
            Err(brec::Error::TimeoutToWaitLockedFile(_)) => continue,
            Err(e) => fail!("unexpected-error", "writer {me} cannot open the storage: {e}"),
        };
        for i in 0..pick(6) {
            let id = 30_000_000 + me as u64 * 1_000_000 + round * 100 + i;
            let s = if chance(1, 2) { small_spec(id) } else { filler(id) };
            let enc = Rc::new(s.enc());
            sh.inflight.borrow_mut()[me] = Some(enc.clone());
            sh.enter(me);
            let res = w.insert(s.packet());
            if coro::dead() {
                return Ok(());
            }
            sh.leave(me);
            if let Err(e) = res {
                fail!("unexpected-error", "writer {me}: insert: {e}");
            }
            sh.inflight.borrow_mut()[me] = None;
            sh.acked.borrow_mut().push(enc);
            ev("acked", me as u64, sh.acked.borrow().len() as u64);
            if chance(1, 2) {
                coro::sleep(1 + logsize(23));
            }
        }
        drop(w);
        coro::sleep(1 + logsize(22));
    }
    Ok(())
}

fn report(sh: &Shared, r: Report) {
    ev("report", r as u64, 0);
    brec::sim::deliver(Path::new(PATH), || event(PATH, r));
    if sh.faulty.get() {
        probe("report_while_faulty");
    }
}

/// The kernel's notifications: late, merged, doubled, replaced; but a change is reported at last.
fn watcher(sh: &Shared) {
    // the file as it was before anybody ran
    let mut seen = 0;
    loop {
        if sh.bad() || sh.followers.get() == 0 {
            break;
        }
        let v = vfs::version(PATH).map(|v| v.0).unwrap_or(0);
        if v != seen {
            sh.drained.set(false);
            coro::sleep(logsize(22));
            let now = vfs::version(PATH).map(|v| v.0).unwrap_or(0);
            if now > seen + 1 {
                fault("coalesced_report", now - seen);
            }
            seen = now;
            match pick(8) {
                1 => {
                    fault("report_queue_overflow", 0);
                    report(sh, Report::Rescan);
                }
                2 => {
                    fault("watcher_error", 0);
                    report(sh, Report::Error);
                    report(sh, Report::Data);
                }
                3 => {
                    fault("spurious_report", 0);
                    report(sh, Report::Access);
                    report(sh, Report::Data);
                }
                4 => {
                    fault("duplicated_report", 0);
                    report(sh, Report::Data);
                    coro::sleep(logsize(18));
                    report(sh, Report::Data);
                }
                _ => report(sh, Report::Data),
            }
        } else if sh.writers.get() == 0 {
            if sh.faulty.get() {
                // the faults are over: one more report
                vfs::world(|w| w.fails.clear());
                sh.faulty.set(false);
                report(sh, Report::Data);
            }
            sh.drained.set(true);
            coro::sleep(1_000_000);
        } else {
            coro::sleep(1 + logsize(18));
        }
    }
}

enum Look {
    /// Everything counted was read.
    Done,
    /// Something got in the way, look again.
    Again,
}

fn transient(sh: &Shared, e: &brec::Error) -> bool {
    sh.faulty.get() && matches!(e, brec::Error::Io(_))
}

/// Load what is new and take it.
fn catch_up(sh: &Shared, me: usize, r: &mut Option<Reader<'_, File>>, faulty: bool) -> Result<Look, Viol> {
    let (acked, ops, calm) = (sh.acked.borrow().len(), sh.ops.get(), sh.busy.get() == 0);
    let res = match r.as_mut() {
        None => match File::open(PATH) {
            Err(e) if faulty => {
                ev("open_failed", e.raw_os_error().unwrap_or(0) as u64, 0);
                return Ok(Look::Again);
            }
            Err(e) => return viol("unexpected-error", format!("opening the file: {e}")),
            Ok(f) => Reader::new(f).map(|n| {
                *r = Some(n);
                0
            }),
        },
        Some(r) => r.reload(),
    };
    if let Err(e) = res {
        if is_damage(&e) && !(calm && sh.busy.get() == 0 && sh.ops.get() == ops) {
            probe("half_written_table_seen");
            return Ok(Look::Again);
        }
        if faulty && matches!(e, brec::Error::Io(_)) {
            probe("failed_reload");
            return Ok(Look::Again);
        }
        return viol("unexpected-error", format!("follower {me} cannot load the storage: {e}"));
    }
    let r = r.as_mut().expect("reader");
    let n = r.count();
    let have = sh.delivered.borrow()[me].len();
    if n < acked || n < have {
        return viol(
            "wrong-count",
            format!("{n} packets after loading, {acked} were acknowledged and {have} delivered before"),
        );
    }
    let take = |p: Packet| {
        let e = enc_packet(&p);
        sh.delivered.borrow_mut()[me].push(e);
    };
    let stop = |e: brec::Error, i: usize| -> Result<Look, Viol> {
        if faulty && matches!(e, brec::Error::Io(_)) {
            probe("failed_query");
            return Ok(Look::Again);
        }
        viol("unexpected-error", format!("follower {me} cannot read packet {i} of {n}: {e}"))
    };
    if have == n {
        return Ok(Look::Done);
    }
    let all = |it: &mut dyn Iterator<Item = Result<Packet, brec::Error>>| -> Result<Look, Viol> {
        for p in it {
            match p {
                Ok(p) => take(p),
                Err(e) => return stop(e, sh.delivered.borrow()[me].len()),
            }
        }
        Ok(Look::Done)
    };
    let l = match pick(6) {
        0 | 1 => {
            let mut l = Look::Done;
            for i in have..n {
                match r.nth(i) {
                    Ok(Some(p)) => take(p),
                    Ok(None) => return viol("lost-packet", format!("packet {i} of {n} is not there")),
                    Err(e) => {
                        l = stop(e, i)?;
                        break;
                    }
                }
            }
            l
        }
        2 => match r.seek(have) {
            Ok(mut it) => all(&mut it)?,
            Err(e) => stop(e, have)?,
        },
        3 => all(&mut r.range_filtered(have, n - have))?,
        4 if have < 20 => {
            // no failing reads here: what is skipped has to be there
            let mut it = r.iter();
            let mut l = Look::Done;
            for i in 0..have {
                match it.next() {
                    Some(Ok(_)) => {}
                    Some(Err(e)) => {
                        l = stop(e, i)?;
                        break;
                    }
                    None => return viol("lost-packet", format!("iteration ends before packet {i} of {n}")),
                }
            }
            if matches!(l, Look::Done) { all(&mut it)? } else { l }
        }
        _ => all(&mut r.range(have, n - have))?,
    };
    ev("delivered", me as u64, sh.delivered.borrow()[me].len() as u64);
    if matches!(l, Look::Done) {
        let got = sh.delivered.borrow()[me].len();
        if got != n {
            return viol("lost-packet", format!("follower {me} was handed packets {have}..{got}, {n} are stored"));
        }
    }
    Ok(l)
}

/// Where the part of the file ends that belongs to the packets this follower has.
fn end_of(sh: &Shared, me: usize) -> u64 {
    let d = sh.delivered.borrow();
    let n = d[me].len();
    let mut end = d[me].iter().map(|e| e.len() as u64).sum::<u64>() + (n.div_ceil(CAP) * SLOT) as u64;
    if n % CAP == 0 && vfs::holds(PATH, end, &table(&[])) {
        end += SLOT as u64;
    }
    end
}

/// Everything written is delivered and nothing more can come.
fn complete(sh: &Shared, me: usize) -> bool {
    sh.writers.get() == 0
        && sh.drained.get()
        && match vfs::content(PATH) {
            None => true,
            Some(d) => parse(&d).map(|p| p.len() == sh.delivered.borrow()[me].len()).unwrap_or(true),
        }
}

fn follower(sh: &Shared, me: usize) -> Check {
    let mut patience = 300;
    let mut restarts = pick(4);
    'life: loop {
        if sh.bad() || complete(sh, me) {
            return Ok(());
        }
        let (sensor, rx) = match brec::Sensor::new(PATH) {
            Ok(s) => s,
            Err(brec::SensorError::NotFile(_)) if vfs::version(PATH).is_none() => {
                coro::sleep(1 + logsize(22));
                continue;
            }
            // the file came into being meanwhile, or a failing call hid it
            Err(brec::SensorError::NotFile(_) | brec::SensorError::Io(_)) => {
                patience -= 1;
                ensure!(patience > 0, "unexpected-error", "the storage cannot be watched");
                coro::sleep(1 + logsize(22));
                continue;
            }
            Err(e) => fail!("unexpected-error", "the storage cannot be watched: {e}"),
        };
        let mut r: Option<Reader<File>> = None;
        let mut look = true;
        loop {
            if sh.bad() || complete(sh, me) {
                return Ok(());
            }
            if !look {
                match rx.try_recv() {
                    Ok(w) => {
                        let size = vfs::version(PATH).map(|v| v.1).unwrap_or(0);
                        ev("wake", w.size, size);
                        ensure!(w.size <= size && w.size > 0, "wrong-size", "wake for {} bytes, the file has {size}", w.size);
                    }
                    Err(crossbeam::channel::TryRecvError::Disconnected) => fail!("disconnected", "the wake channel is closed"),
                    Err(crossbeam::channel::TryRecvError::Empty) => {
                        if sh.drained.get() && sh.writers.get() == 0 {
                            patience -= 1;
                            ensure!(
                                patience > 0,
                                "lost-wakeup",
                                "follower {me} has {} packets, the storage holds more, nothing is written any more and no wake comes",
                                sh.delivered.borrow()[me].len()
                            );
                        }
                        coro::sleep(20_000 + logsize(18));
                        continue;
                    }
                }
                if sh.drained.get() && sh.writers.get() == 0 {
                    patience -= 1;
                    ensure!(
                        patience > 0,
                        "no-progress",
                        "follower {me} has {} packets, the storage holds more, wakes come, but the packets do not",
                        sh.delivered.borrow()[me].len()
                    );
                }
                if chance(1, 3) {
                    coro::sleep(logsize(20));
                }
            }
            look = true;
            let faulty = sh.faulty.get();
            match catch_up(sh, me, &mut r, faulty)? {
                Look::Again => {
                    patience -= (!faulty) as i32;
                    ensure!(patience > 0, "no-progress", "follower {me} never gets to read the storage");
                    coro::sleep(1 + logsize(20));
                    continue;
                }
                Look::Done => {}
            }
            let end = end_of(sh, me);
            if chance(1, 2) {
                // what was handed over is worked on; much may happen meanwhile
                coro::sleep(logsize(24));
            }
            ev("ack", end, 0);
            match sensor.processed(end) {
                Ok(()) => look = false,
                Err(brec::SensorError::Io(_)) if faulty => {
                    probe("ack_failed");
                    coro::sleep(1 + logsize(20));
                    continue;
                }
                Err(e) => fail!("unexpected-error", "processed({end}): {e}"),
            }
            if restarts > 0 && chance(1, 8) {
                restarts -= 1;
                fault("follower_restarted", me as u64);
                coro::sleep(logsize(22));
                continue 'life;
            }
        }
    }
}

pub fn c21_follow() -> Check {
    vfs::start();
    brec::sim::reset();
    let sh = Rc::new(Shared::default());
    let n = match pick(6) {
        0 => None,
        1 | 2 => Some(495 + pick(6) as usize),
        3 => Some(0),
        _ => Some(pick(20) as usize),
    };
    if let Some(n) = n {
        let p = fill(n);
        let mut img = image(&p);
        if n % CAP == 0 && chance(1, 3) {
            img.extend(table(&[]));
        }
        vfs::put(PATH, img);
        *sh.acked.borrow_mut() = p;
    }
    let writers = range(1, 2) as usize;
    let followers = range(1, 2) as usize;
    sh.writers.set(writers);
    sh.followers.set(followers);
    sh.inflight.borrow_mut().resize(writers, None);
    sh.within.borrow_mut().resize(writers, false);
    sh.alive.borrow_mut().resize(writers, true);
    sh.delivered.borrow_mut().resize(followers, vec![]);
    let mut tasks: Vec<Box<dyn FnOnce()>> = Vec::new();
    for me in 0..writers {
        let sh = sh.clone();
        let rounds = range(1, 4);
        tasks.push(Box::new(move || {
            let c = writer(&sh, me, rounds);
            sh.note(c);
            if !coro::dead() {
                sh.leave(me);
                sh.gone(me);
            }
        }));
    }
    {
        let sh = sh.clone();
        tasks.push(Box::new(move || watcher(&sh)));
    }
    for me in 0..followers {
        let sh = sh.clone();
        tasks.push(Box::new(move || {
            let c = follower(&sh, me);
            sh.note(c);
            sh.followers.set(sh.followers.get() - 1);
        }));
    }
    let mut kills = vec![];
    match pick(4) {
        0 | 1 => {
            for _ in 0..range(1, 2) {
                kills.push((pick(writers as u64) as usize, logsize(11)));
            }
        }
        2 => {
            // a half written table of a dead writer is C09's matter
            vfs::world(|w| {
                w.short_bits = 8;
                w.shorts = gap(8);
            });
        }
        _ => {}
    }
    if chance(1, 3) {
        sh.faulty.set(true);
        for _ in 0..range(1, 3) {
            let task = writers + pick(1 + followers as u64) as usize;
            let op = [vfs::Op::Stat, vfs::Op::Read, vfs::Op::Seek][pick(3) as usize];
            let after = logsize(if op == vfs::Op::Read { 12 } else { 7 });
            vfs::world(|w| w.fails.push(vfs::Fail { op, task, suffix: ".brec", after, errno: libc::EIO }));
        }
    }
    stalls(7);
    brec::sim::set_point(Some(point));
    let plan = coro::Plan { kills, stalls: vec![], bits: 2 + pick(10), max_rounds: 400_000 };
    let s2 = sh.clone();
    let exit = coro::run(tasks, plan, move |t| {
        if t < writers {
            if let Some(e) = s2.inflight.borrow_mut()[t].take() {
                s2.maybe.borrow_mut().push((s2.acked.borrow().len(), e));
            }
            s2.leave(t);
            s2.gone(t);
        }
        vfs::kill(t);
    });
    brec::sim::reset();
    if let Some((_, p)) = exit.panic {
        std::panic::resume_unwind(p);
    }
    if let Some(v) = sh.viol.borrow().clone() {
        return Err(v);
    }
    ensure!(exit.finished.iter().all(|f| *f), "stuck", "a writer, the watcher or a follower never finished");
    let found = match vfs::content(PATH) {
        None => vec![],
        Some(d) => match parse(&d) {
            Ok(f) => f,
            Err(e) => fail!("wrong-layout", "the storage is broken: {e}"),
        },
    };
    account(&found, &sh.acked.borrow(), &sh.maybe.borrow())?;
    for (me, got) in sh.delivered.borrow().iter().enumerate() {
        for (i, (g, f)) in got.iter().zip(&found).enumerate() {
            ensure!(g == f, "wrong-packet", "follower {me} was handed something else than packet {i}");
        }
        ensure!(
            got.len() == found.len(),
            "lost-packet",
            "follower {me} was handed {} packets, {} are stored",
            got.len(),
            found.len()
        );
    }
    Ok(())
}
