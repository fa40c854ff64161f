//! The storage sensor: change reports, wakes and acknowledgements under a seeded schedule.

use crate::core::*;
use crate::coro;
use crate::vfs;
use crate::{ensure, fail};
use notify::{Event, EventKind, event};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::io::Write;
use std::path::Path;
use std::rc::Rc;

const PATH: &str = "/simfs/log.brec";

#[derive(Clone, Copy, PartialEq)]
pub enum Report {
    Data,
    Access,
    Rescan,
    Error,
}

#[derive(Default)]
struct Shared {
    size: Cell<u64>,
    acked: Cell<u64>,
    queue: RefCell<VecDeque<(u64, Report)>>,
    appended: Cell<bool>,
    drained: Cell<bool>,
    /// Deliveries begun and ended.
    begun: Cell<u64>,
    ended: Cell<u64>,
    /// Acknowledgements begun and ended.
    acks: Cell<(u64, u64)>,
    /// Nothing but the wake that is in the channel may be sent until the next acknowledgement.
    armed: Cell<bool>,
    viol: RefCell<Option<Viol>>,
}

impl Shared {
    fn note(&self, c: Check) {
        if let Err(v) = c {
            self.viol.borrow_mut().get_or_insert(v);
        }
    }
    fn bad(&self) -> bool {
        self.viol.borrow().is_some()
    }
}

pub fn event(path: &str, r: Report) -> notify::Result<Event> {
    match r {
        Report::Data => Ok(Event::new(EventKind::Modify(event::ModifyKind::Data(event::DataChange::Any)))
            .add_path(path.into())),
        Report::Access => {
            Ok(Event::new(EventKind::Access(event::AccessKind::Close(event::AccessMode::Write)))
                .add_path(path.into()))
        }
        Report::Rescan => Ok(Event::new(EventKind::Other).set_flag(event::Flag::Rescan)),
        Report::Error => Err(notify::Error::generic("simulated")),
    }
}

fn append(sh: &Shared, n: u64) {
    let mut f = std::fs::OpenOptions::new().append(true).open(PATH).expect("simulated file");
    f.write_all(&vec![7u8; n as usize]).expect("simulated write");
    sh.size.set(sh.size.get() + n);
    ev("appended", sh.size.get(), 0);
    let mut q = sh.queue.borrow_mut();
    let due = now() + logsize(22);
    match pick(8) {
        1 if !q.is_empty() => {
            // the kernel merges a report with an equal one that is still unread
            fault("coalesced_report", q.len() as u64);
        }
        2 if q.len() > 1 => {
            fault("report_queue_overflow", q.len() as u64);
            q.clear();
            q.push_back((due, Report::Rescan));
        }
        3 => {
            fault("spurious_report", 0);
            q.push_back((due, Report::Access));
            q.push_back((due, Report::Data));
        }
        4 => {
            fault("watcher_error", 0);
            q.push_back((due, Report::Error));
            q.push_back((due, Report::Data));
        }
        5 => {
            fault("duplicated_report", 0);
            q.push_back((due, Report::Data));
            q.push_back((due, Report::Data));
        }
        _ => q.push_back((due, Report::Data)),
    }
}

fn deliver(sh: &Shared, r: Report) {
    sh.begun.set(sh.begun.get() + 1);
    ev("report", sh.begun.get(), r as u64);
    let acks = sh.acks.get();
    let new = r != Report::Error && sh.size.get() > sh.acked.get() && acks.0 == acks.1;
    brec::sim::deliver(Path::new(PATH), || event(PATH, r));
    if new && sh.acks.get() == acks {
        sh.armed.set(true);
    }
    sh.ended.set(sh.ended.get() + 1);
}

fn notifier(sh: &Shared) {
    loop {
        if sh.bad() {
            return;
        }
        let head = sh.queue.borrow().front().copied();
        match head {
            Some((due, r)) => {
                if now() < due {
                    // the queue may be another one afterwards
                    coro::sleep(due - now());
                    continue;
                }
                sh.queue.borrow_mut().pop_front();
                deliver(sh, r);
            }
            None if sh.appended.get() => break,
            None => coro::sleep(1 + logsize(18)),
        }
    }
    sh.drained.set(true);
}

fn acknowledge(sh: &Shared, sensor: &brec::Sensor, until: u64) -> Result<(), brec::SensorError> {
    sh.acked.set(sh.acked.get().max(until));
    sh.armed.set(false);
    let (a, b) = sh.acks.get();
    sh.acks.set((a + 1, b));
    ev("ack", until, 0);
    let r = sensor.processed(until);
    sh.acks.set((a + 1, b + 1));
    r
}

/// The owner's loop: take a wake, read, acknowledge.
fn owner(
    sh: &Shared,
    sensor: &brec::Sensor,
    rx: &crossbeam::channel::Receiver<brec::Wake>,
    calm: bool,
    mut idle_left: u64,
) -> Check {
    let mut own = None::<(u64, u64)>;
    let mut stubborn = 0u64;
    // an acknowledgement that had to be repeated may acknowledge a wake it has not seen
    let mut repeated = false;
    let busy = chance(1, 3);
    let mut unasked = false;
    loop {
        if sh.bad() {
            return Ok(());
        }
        if busy && calm && chance(1, 6) {
            // the owner looks on its own account, whether or not a wake is on its way
            let none = rx.is_empty();
            let quiet = sh.begun.get() == sh.ended.get();
            let begun = sh.begun.get();
            let until = if chance(1, 2) { sh.size.get() } else { pick(sh.size.get() + 1) };
            probe("acknowledged_unasked");
            if let Err(e) = acknowledge(sh, sensor, until) {
                fail!("unexpected-error", "processed({until}): {e}");
            }
            unasked |= !(none && quiet && rx.is_empty());
            own = if none && quiet && !repeated { Some((begun, sh.acked.get())) } else { None };
            coro::sleep(logsize(18));
        }
        let wake = match rx.try_recv() {
            Ok(w) => w,
            Err(crossbeam::channel::TryRecvError::Disconnected) => fail!("disconnected", "the wake channel is closed"),
            Err(crossbeam::channel::TryRecvError::Empty) => {
                if sh.drained.get() {
                    if sh.acked.get() >= sh.size.get() {
                        return Ok(());
                    }
                    idle_left -= 1;
                    ensure!(
                        idle_left > 0,
                        "lost-wakeup",
                        "{} bytes are in the file, {} acknowledged, every change was reported, but no wake comes",
                        sh.size.get(),
                        sh.acked.get()
                    );
                }
                coro::sleep(20_000 + logsize(16));
                continue;
            }
        };
        ev("wake", wake.size, sh.acked.get());
        ensure!(
            wake.size <= sh.size.get() && wake.size > 0,
            "wrong-size",
            "wake for {} bytes, the file has {}",
            wake.size,
            sh.size.get()
        );
        if let Some((begun, acked)) = own
            && sh.begun.get() == begun
        {
            probe("wake_by_acknowledgement");
            ensure!(
                wake.size > acked,
                "needless-wake",
                "the acknowledgement of {acked} bytes woke its owner for {} bytes",
                wake.size
            );
        }
        if wake.size <= sh.acked.get() {
            probe("stale_wake");
        }
        // a wake that was in the channel when the owner acknowledged is an acknowledged one
        let loose = repeated || unasked && !sh.armed.get();
        unasked = false;
        // reading takes its time; nothing else may come meanwhile
        for _ in 0..pick(4) {
            coro::sleep(1 + logsize(20));
            ensure!(loose || rx.is_empty(), "second-wake", "a second wake before the first one was acknowledged");
        }
        let until = match pick(4) {
            0 | 3 => wake.size,
            // also more than there is
            1 => sh.size.get() + if chance(1, 4) { 1 + pick(20) } else { 0 },
            _ => {
                stubborn += 1;
                if stubborn < 4 { wake.size - pick(wake.size + 1) } else { sh.size.get() }
            }
        };
        ensure!(loose || rx.is_empty(), "second-wake", "a second wake before the first one was acknowledged");
        loop {
            // a wake that is in the channel already is not one of this acknowledgement's
            let none = rx.is_empty();
            let quiet = sh.begun.get() == sh.ended.get();
            let begun = sh.begun.get();
            match acknowledge(sh, sensor, until) {
                Ok(()) => {
                    own = if none && quiet && !repeated { Some((begun, sh.acked.get())) } else { None };
                    unasked = loose && !(none && quiet && rx.is_empty());
                    break;
                }
                Err(brec::SensorError::Io(_)) => {
                    ensure!(!calm, "unexpected-error", "processed({until}) failed without a reason");
                    probe("ack_failed");
                    // a failed acknowledgement may be repeated; but a wake may have come meanwhile
                    own = None;
                    if !rx.is_empty() {
                        break;
                    }
                    coro::sleep(1 + logsize(18));
                    repeated = true;
                }
                Err(e) => fail!("unexpected-error", "processed({until}): {e}"),
            }
        }
    }
}

/// Arm the stalls.
pub fn stalls(bits: u64) {
    STALL.with(|s| s.set(gap(bits)));
}

thread_local! {
    static STALL: Cell<Option<u64>> = const { Cell::new(None) };
}

/// A scheduling point in front of an atomic operation; now and then the thread is not
/// scheduled again for a long time.
pub fn point() {
    match STALL.with(|s| s.get()) {
        Some(0) => {
            STALL.with(|s| s.set(gap(6)));
            if coro::in_task() {
                fault("stalled_thread", coro::current() as u64);
                coro::sleep(logsize(24));
            }
        }
        n => {
            STALL.with(|s| s.set(n.map(|n| n - 1)));
            coro::step();
        }
    }
}

pub fn c15_wakes() -> Check {
    vfs::start();
    brec::sim::reset();
    let sh = Rc::new(Shared::default());
    let initial = pick(3) * pick(200);
    vfs::put(PATH, vec![1; initial as usize]);
    sh.size.set(initial);
    let (sensor, rx) = match brec::Sensor::new(PATH) {
        Ok(s) => s,
        Err(e) => fail!("unexpected-error", "new: {e}"),
    };
    if initial > 0 {
        // what the owner has read of the data that was there before
        let read = if chance(1, 2) { initial } else { pick(initial) };
        sh.acked.set(read);
        if read == 0 && chance(1, 2) {
            deliver(&sh, Report::Data);
        } else if let Err(e) = sensor.processed(read) {
            fail!("unexpected-error", "processed: {e}");
        }
        if read == initial {
            ensure!(rx.is_empty(), "needless-wake", "everything is acknowledged, but a wake comes");
        } else {
            probe("found_unread");
            ensure!(
                !rx.is_empty(),
                "lost-wakeup",
                "the file has {initial} bytes, {read} are acknowledged, and nobody is woken"
            );
        }
    }
    let mut calm = true;
    if chance(1, 3) {
        for _ in 0..range(1, 3) {
            calm = false;
            let task = 1 + pick(2) as usize;
            let after = logsize(5);
            let errno = [libc::EIO, libc::EACCES, libc::ENOENT][pick(3) as usize];
            vfs::world(|w| w.fails.push(vfs::Fail { op: vfs::Op::Stat, task, suffix: ".brec", after, errno }));
        }
    }
    stalls(6);
    brec::sim::set_point(Some(point));
    let appends = range(1, 12);
    let bits = 1 + pick(8);
    let sensor = Rc::new(sensor);
    let rx = Rc::new(rx);
    let (a, b, c) = (sh.clone(), sh.clone(), sh.clone());
    let (s2, r2) = (sensor.clone(), rx.clone());
    let tasks: Vec<Box<dyn FnOnce()>> = vec![
        Box::new(move || {
            for _ in 0..appends {
                append(&a, 1 + logsize(6));
                if chance(1, 2) {
                    coro::sleep(1 + logsize(20));
                }
            }
            a.appended.set(true);
        }),
        Box::new(move || {
            notifier(&b);
            if !calm && !b.bad() {
                // the faults are over: one more report
                vfs::world(|w| w.fails.clear());
                b.drained.set(false);
                deliver(&b, Report::Data);
                b.drained.set(true);
            }
        }),
        Box::new(move || {
            let r = owner(&c, &s2, &r2, calm, 400);
            c.note(r);
        }),
    ];
    let exit = coro::run(
        tasks,
        coro::Plan { kills: vec![], stalls: vec![], bits, max_rounds: 200_000 },
        |_| {},
    );
    brec::sim::set_point(None);
    if let Some((_, p)) = exit.panic {
        std::panic::resume_unwind(p);
    }
    if let Some(v) = sh.viol.borrow().clone() {
        return Err(v);
    }
    ensure!(exit.finished.iter().all(|f| *f), "stuck", "the owner or the watcher never finished");
    // everything is read and acknowledged: a late report wakes nobody
    while rx.try_recv().is_ok() {
        if sensor.processed(sh.size.get()).is_err() {
            fail!("unexpected-error", "processed: late");
        }
    }
    deliver(&sh, Report::Data);
    ensure!(rx.is_empty(), "needless-wake", "everything is acknowledged, but a report wakes the owner");
    Ok(())
}

/// One acknowledgement of a team; it must not wake anybody if it covers the file and nothing else was going on.
fn team_ack(sh: &Shared, sensor: &brec::Sensor, rx: &crossbeam::channel::Receiver<brec::Wake>, until: u64) -> Check {
    let (none, size) = (rx.is_empty(), sh.size.get());
    let (begun, ended, acks) = (sh.begun.get(), sh.ended.get(), sh.acks.get());
    sh.acked.set(sh.acked.get().max(until));
    sh.acks.set((acks.0 + 1, acks.1));
    ev("ack", until, 0);
    let r = sensor.processed(until);
    let after = sh.acks.get();
    sh.acks.set((after.0, after.1 + 1));
    if let Err(e) = r {
        fail!("unexpected-error", "processed({until}): {e}");
    }
    let alone = begun == ended && acks.0 == acks.1 && sh.begun.get() == begun && after == (acks.0 + 1, acks.1);
    if none && alone && sh.size.get() == size && sh.acked.get() >= size {
        probe("acknowledged_alone");
        ensure!(
            rx.is_empty(),
            "needless-wake",
            "{} bytes are acknowledged, the file has {size}, and the acknowledgement of {until} wakes the owner",
            sh.acked.get()
        );
    }
    Ok(())
}

/// Several threads of the owner share the sensor: wakes are taken by one and acknowledged by all of them.
pub fn c15_team() -> Check {
    vfs::start();
    brec::sim::reset();
    let sh = Rc::new(Shared::default());
    vfs::put(PATH, vec![]);
    let (sensor, rx) = match brec::Sensor::new(PATH) {
        Ok(s) => s,
        Err(e) => fail!("unexpected-error", "new: {e}"),
    };
    stalls(6);
    brec::sim::set_point(Some(point));
    let appends = range(1, 8);
    let bits = 1 + pick(8);
    let sensor = Rc::new(sensor);
    let rx = Rc::new(rx);
    type Jobs = Rc<RefCell<VecDeque<u64>>>;
    let jobs: Jobs = Rc::default();
    let done = Rc::new(Cell::new(false));
    let busy = Rc::new(Cell::new(0u32));
    let helpers = range(2, 3);
    let mut tasks: Vec<Box<dyn FnOnce()>> = Vec::new();
    let a = sh.clone();
    tasks.push(Box::new(move || {
        for _ in 0..appends {
            append(&a, 1 + logsize(6));
            if chance(1, 2) {
                coro::sleep(1 + logsize(20));
            }
        }
        a.appended.set(true);
    }));
    let b = sh.clone();
    tasks.push(Box::new(move || notifier(&b)));
    let (c, s2, r2, j, d, bz) = (sh.clone(), sensor.clone(), rx.clone(), jobs.clone(), done.clone(), busy.clone());
    tasks.push(Box::new(move || {
        let mut idle_left = 400;
        let mut idle_acks = 0;
        while !c.bad() {
            let free = j.borrow().is_empty() && bz.get() == 0;
            match r2.try_recv() {
                Ok(w) => {
                    ev("wake", w.size, c.acked.get());
                    if w.size > c.size.get() || w.size == 0 {
                        c.note(viol("wrong-size", format!("wake for {} bytes, the file has {}", w.size, c.size.get())));
                        break;
                    }
                    let mut parts = vec![w.size];
                    for _ in 0..pick(3) {
                        parts.push(pick(w.size + 1));
                    }
                    if chance(1, 2) {
                        parts.reverse();
                    }
                    if w.size <= c.acked.get() && chance(2, 3) {
                        // read already: nothing new to acknowledge
                        probe("stale_wake");
                        let r = team_ack(&c, &s2, &r2, pick(w.size + 1));
                        c.note(r);
                    } else {
                        j.borrow_mut().extend(parts);
                    }
                }
                Err(_) if c.drained.get() && free => {
                    if c.acked.get() >= c.size.get() {
                        // looked at all of it: saying so again must not wake anybody
                        if idle_acks == 2 {
                            break;
                        }
                        idle_acks += 1;
                        let r = team_ack(&c, &s2, &r2, pick(c.size.get() + 1));
                        c.note(r);
                        continue;
                    }
                    idle_left -= 1;
                    if idle_left == 0 {
                        c.note(viol(
                            "lost-wakeup",
                            format!("{} bytes are in the file, {} acknowledged, but no wake comes", c.size.get(), c.acked.get()),
                        ));
                        break;
                    }
                    coro::sleep(20_000 + logsize(16));
                }
                Err(_) => coro::sleep(1 + logsize(18)),
            }
        }
        d.set(true);
    }));
    for _ in 0..helpers {
        let (c, s, r, j, d, bz) = (sh.clone(), sensor.clone(), rx.clone(), jobs.clone(), done.clone(), busy.clone());
        tasks.push(Box::new(move || {
            while !d.get() && !c.bad() {
                let job = j.borrow_mut().pop_front();
                let Some(until) = job else {
                    coro::sleep(1 + logsize(14));
                    continue;
                };
                bz.set(bz.get() + 1);
                let res = team_ack(&c, &s, &r, until);
                c.note(res);
                bz.set(bz.get() - 1);
            }
        }));
    }
    let exit = coro::run(
        tasks,
        coro::Plan { kills: vec![], stalls: vec![], bits, max_rounds: 200_000 },
        |_| {},
    );
    brec::sim::set_point(None);
    if let Some((_, p)) = exit.panic {
        std::panic::resume_unwind(p);
    }
    if let Some(v) = sh.viol.borrow().clone() {
        return Err(v);
    }
    ensure!(exit.finished.iter().all(|f| *f), "stuck", "the team or the watcher never finished");
    Ok(())
}

/// Construction errors, and the end of either side.
pub fn c15_ends() -> Check {
    vfs::start();
    brec::sim::reset();
    match pick(5) {
        1 => {
            vfs::mkdir(PATH);
            let r = brec::Sensor::new(PATH);
            ensure!(matches!(r, Err(brec::SensorError::NotFile(_))), "wrong-error", "a directory is watched");
        }
        2 => {
            let r = brec::Sensor::new(PATH);
            ensure!(matches!(r, Err(brec::SensorError::NotFile(_))), "wrong-error", "a missing file is watched");
        }
        3 => {
            vfs::put(PATH, vec![]);
            brec::sim::fail_watch(true);
            fault("watch_failed", 0);
            let r = brec::Sensor::new(PATH);
            ensure!(matches!(r, Err(brec::SensorError::NotifyError(_))), "wrong-error", "watch() failed unnoticed");
        }
        4 => {
            // the sensor is gone: its channel closes behind the last wake
            vfs::put(PATH, vec![]);
            let (sensor, rx) = match brec::Sensor::new(PATH) {
                Ok(s) => s,
                Err(e) => fail!("unexpected-error", "new: {e}"),
            };
            let sh = Shared::default();
            append(&sh, 1 + pick(9));
            let woken = chance(1, 2);
            if woken {
                deliver(&sh, Report::Data);
            }
            fault("sensor_dropped", 0);
            drop(sensor);
            deliver(&sh, Report::Data);
            ensure!(rx.try_recv().is_ok() == woken, "lost-wakeup", "the last wake of a dropped sensor (expected {woken})");
            ensure!(
                matches!(rx.try_recv(), Err(crossbeam::channel::TryRecvError::Disconnected)),
                "not-closed",
                "the channel of a dropped sensor stays open"
            );
        }
        _ => {
            // the receiver is gone
            vfs::put(PATH, vec![]);
            let (sensor, rx) = match brec::Sensor::new(PATH) {
                Ok(s) => s,
                Err(e) => fail!("unexpected-error", "new: {e}"),
            };
            let sh = Shared::default();
            if chance(1, 2) {
                append(&sh, 1 + pick(9));
                deliver(&sh, Report::Data);
            }
            fault("receiver_dropped", 0);
            drop(rx);
            append(&sh, 1 + pick(9));
            deliver(&sh, Report::Data);
            ensure!(
                matches!(sensor.processed(0), Err(brec::SensorError::Disconnected)),
                "wrong-error",
                "nobody listens, but processed() succeeds"
            );
        }
    }
    brec::sim::reset();
    Ok(())
}
