//! The slot storage: Writer and Reader over a simulated medium.

use crate::core::*;
use crate::coro;
use crate::disk::*;
use crate::model::*;
use crate::types::*;
use crate::{ensure, fail};
use std::cell::{Cell, RefCell};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::rc::Rc;

pub type Enc = Rc<Vec<u8>>;

thread_local! {
    static FILL: RefCell<Vec<Enc>> = const { RefCell::new(Vec::new()) };
}

/// The first `n` packets of the pre-filled part of a storage.
pub fn fill(n: usize) -> Vec<Enc> {
    FILL.with(|f| {
        let mut f = f.borrow_mut();
        while f.len() < n {
            let id = f.len() as u64;
            f.push(Rc::new(filler(id).enc()));
        }
        f[..n].to_vec()
    })
}

pub fn table(lens: &[u64]) -> Vec<u8> {
    let mut v = SSIG.to_vec();
    let mut body = (CAP as u64).to_le_bytes().to_vec();
    for i in 0..CAP {
        body.extend(lens.get(i).copied().unwrap_or(0).to_le_bytes());
    }
    v.extend(&body);
    v.extend(crc32(&body).to_le_bytes());
    v
}

/// Reference image of a storage.
pub fn image(p: &[Enc]) -> Vec<u8> {
    let mut v = Vec::new();
    for c in p.chunks(CAP) {
        v.extend(table(&c.iter().map(|e| e.len() as u64).collect::<Vec<_>>()));
        for e in c {
            v.extend(e.iter());
        }
    }
    v
}

/// Byte ranges of the slot tables of a storage with these packets (and of the one to come).
pub fn zones(p: &[Enc]) -> Vec<(u64, u64)> {
    let mut z = Vec::new();
    let mut at = 0u64;
    for c in p.chunks(CAP) {
        z.push((at, at + SLOT as u64));
        at += SLOT as u64 + c.iter().map(|e| e.len() as u64).sum::<u64>();
        if c.len() == CAP {
            continue;
        }
    }
    if p.len() % CAP == 0 {
        z.push((at, at + SLOT as u64));
    }
    z
}

fn overlaps(a: &[(u64, u64)], b: &[(u64, u64)]) -> bool {
    a.iter().any(|(s, e)| b.iter().any(|(x, y)| s < y && x < e))
}

/// Parse an image by the documented layout.
pub fn parse(data: &[u8]) -> Result<Vec<Vec<u8>>, String> {
    let mut out = Vec::new();
    let mut at = 0usize;
    loop {
        if data.len() < at + SLOT {
            return Ok(out);
        }
        let t = &data[at..at + SLOT];
        if t[..8] != SSIG {
            return Err(format!("no slot signature at {at}"));
        }
        if crc32(&t[8..SLOT - 4]).to_le_bytes() != t[SLOT - 4..] {
            return Err(format!("bad slot checksum at {at}"));
        }
        if t[8..16] != (CAP as u64).to_le_bytes() {
            return Err(format!("bad slot capacity at {at}"));
        }
        at += SLOT;
        for i in 0..CAP {
            let l = u64::from_le_bytes(t[16 + i * 8..24 + i * 8].try_into().expect("8")) as usize;
            if l == 0 {
                return Ok(out);
            }
            if data.len() < at + l {
                return Err(format!("packet {} reaches behind the end", out.len()));
            }
            out.push(data[at..at + l].to_vec());
            at += l;
        }
    }
}

/// A number of packets around the interesting boundaries.
fn start_count() -> usize {
    match pick(8) {
        0 => 0,
        1 => pick(6) as usize,
        2 | 3 => 488 + pick(13) as usize,
        4 => 500,
        5 => 988 + pick(16) as usize,
        6 => pick(1100) as usize,
        _ => 490 + pick(20) as usize,
    }
}

const BENIGN: &[Fault] = &[Fault::ShortRead, Fault::IntrRead, Fault::ShortWrite, Fault::IntrWrite];

fn benign() -> Rc<Env> {
    let e = if chance(1, 2) {
        let max = 1 + logsize(5);
        Env::with(Inject::new(BENIGN.to_vec(), 1 + pick(9), max))
    } else {
        Env::calm()
    };
    e.quiet.set(true);
    e
}

fn calm() -> Rc<Env> {
    let e = Env::calm();
    e.quiet.set(true);
    e
}

fn same(got: &Packet, want: &Enc, what: &str, i: usize) -> Check {
    let got = enc_packet(got);
    ensure!(
        got == **want,
        "wrong-packet",
        "{what} returned {} bytes #{:08x} for packet {i}, stored were {} bytes #{:08x}",
        got.len(),
        hash_bytes(&got) as u32,
        want.len(),
        hash_bytes(want) as u32
    );
    Ok(())
}

/// Drain an iterator that has to produce exactly `exp[from..to]`.
fn drain(
    it: impl Iterator<Item = Result<Packet, brec::Error>>,
    exp: &[Enc],
    from: usize,
    to: usize,
    what: &str,
) -> Check {
    let mut i = from;
    for p in it {
        match p {
            Ok(p) => {
                ensure!(i < to, "extra-packet", "{what} yields more than packets {from}..{to}");
                same(&p, &exp[i], what, i)?;
            }
            Err(e) => fail!("unexpected-error", "{what} at packet {i} of {from}..{to}: {e}"),
        }
        i += 1;
    }
    ensure!(i == to, "lost-packet", "{what} ended at packet {i}, expected {from}..{to}");
    Ok(())
}

fn edge(n: usize) -> usize {
    let i = match pick(6) {
        0 => 0,
        1 => n.saturating_sub(1 + pick(4) as usize),
        2 => n + pick(3) as usize,
        3 => pick(n as u64 + 2) as usize,
        4 => 498 + pick(5) as usize,
        _ => 998 + pick(5) as usize,
    };
    i
}

/// Compare a reader with the model through one randomly chosen access path.
pub fn query(r: &mut Reader<SFile>, exp: &[Enc]) -> Check {
    let n = exp.len();
    match pick(8) {
        0 => {
            ensure!(r.count() == n, "wrong-count", "count() = {}, stored {n}", r.count());
        }
        1 => {
            let i = edge(n);
            match r.nth(i) {
                Ok(Some(p)) => {
                    ensure!(i < n, "extra-packet", "nth({i}) of {n} returned a packet");
                    same(&p, &exp[i], "nth", i)?;
                }
                Ok(None) => ensure!(i >= n, "lost-packet", "nth({i}) of {n} returned nothing"),
                Err(e) => fail!("unexpected-error", "nth({i}) of {n}: {e}"),
            }
        }
        2 => drain(r.iter(), exp, 0, n, "iter")?,
        3 => {
            let i = edge(n);
            match r.seek(i) {
                Ok(it) => {
                    ensure!(i < n, "extra-packet", "seek({i}) of {n} succeeded");
                    drain(it, exp, i, n, "seek")?;
                }
                Err(e) => ensure!(i >= n, "unexpected-error", "seek({i}) of {n}: {e}"),
            }
        }
        4 => {
            let (f, l) = (edge(n), edge(n));
            let to = (f + l).min(n);
            drain(r.range(f, l), exp, f.min(to), to, "range")?;
        }
        5 => {
            let (f, l) = (edge(n), edge(n));
            let to = (f + l).min(n);
            drain(r.range_filtered(f, l), exp, f.min(to), to, "range_filtered")?;
        }
        6 => drain(r.filtered(), exp, 0, n, "filtered")?,
        _ => {
            // read around the slot boundaries by index
            for i in [0usize, 498, 499, 500, 501, 999, 1000, 1001, n.saturating_sub(1)] {
                if i < n {
                    match r.nth(i) {
                        Ok(Some(p)) => same(&p, &exp[i], "nth", i)?,
                        Ok(None) => fail!("lost-packet", "nth({i}) of {n} returned nothing"),
                        Err(e) => fail!("unexpected-error", "nth({i}) of {n}: {e}"),
                    }
                }
            }
        }
    }
    Ok(())
}

fn open_reader<'a>(d: &Rc<RefCell<Disk>>, e: &Rc<Env>) -> Result<Reader<'a, SFile>, Viol> {
    match Reader::new(SFile::new(d, e)) {
        Ok(r) => Ok(r),
        Err(err) => viol("unexpected-error", format!("a healthy storage does not open for reading: {err}")),
    }
}

fn open_writer<'a>(d: &Rc<RefCell<Disk>>, e: &Rc<Env>) -> Result<Writer<'a, SFile>, Viol> {
    match Writer::new(SFile::new(d, e)) {
        Ok(r) => Ok(r),
        Err(err) => viol("unexpected-error", format!("a healthy storage does not open for writing: {err}")),
    }
}

fn on_disk(d: &Rc<RefCell<Disk>>, exp: &[Enc]) -> Check {
    let d = d.borrow();
    match parse(&d.data) {
        Err(e) => fail!("wrong-layout", "the stored bytes do not follow the slot layout: {e}"),
        Ok(got) => {
            ensure!(
                got.len() == exp.len(),
                "wrong-layout",
                "{} packets in the stored index, {} were inserted",
                got.len(),
                exp.len()
            );
            for (i, (g, w)) in got.iter().zip(exp).enumerate() {
                ensure!(g == &**w, "wrong-layout", "stored bytes of packet {i} differ from the packet");
            }
        }
    }
    Ok(())
}

/// A new packet for an insert: mostly small, sometimes large.
fn fresh(id: u64) -> Spec {
    if chance(1, 400) {
        return huge_spec(id);
    }
    if chance(1, 12) { gen_spec(14, 6, true) } else { small_spec(id) }
}

// ---------------------------------------------------------------- C08: append-only list

pub fn c08_list() -> Check {
    allow_weak();
    let n = start_count();
    let mut exp = fill(n);
    let d = disk(image(&exp));
    let env = benign();
    let mut writer: Option<Writer<SFile>> = None;
    let mut id = 1_000_000u64;
    let ops = range(1, 10);
    for _ in 0..ops {
        match pick(6) {
            0 | 1 | 2 => {
                if writer.is_none() {
                    writer = Some(open_writer(&d, &env)?);
                }
                let w = writer.as_mut().expect("writer");
                for _ in 0..range(1, 12) {
                    id += 1;
                    let s = fresh(id);
                    let enc = Rc::new(s.enc());
                    if let Err(e) = w.insert(s.packet()) {
                        fail!("unexpected-error", "insert of packet {}: {e}", exp.len());
                    }
                    exp.push(enc);
                    ev("insert", exp.len() as u64, 0);
                }
                if exp.len() / CAP != n / CAP {
                    probe("slot_boundary_crossed");
                }
            }
            3 => {
                writer = None;
                sched("reopen_writer", exp.len() as u64, 0);
            }
            _ => {
                let mut r = open_reader(&d, &env)?;
                for _ in 0..range(1, 4) {
                    query(&mut r, &exp)?;
                }
            }
        }
    }
    let e = calm();
    let mut r = open_reader(&d, &e)?;
    ensure!(r.count() == exp.len(), "wrong-count", "count() = {}, stored {}", r.count(), exp.len());
    query(&mut r, &exp)?;
    query(&mut r, &exp)?;
    on_disk(&d, &exp)
}

/// A storage of many gigabytes: some packets are as large as the format allows, and only their
/// place matters. Every other packet is found, and new ones are put behind the last one.
pub fn c08_vast() -> Check {
    let pages: Rc<RefCell<Pages>> = Rc::default();
    let verdict = vast(&pages);
    if pages.borrow().gave_up {
        // somebody wanted to read one of the packets that are not there
        probe("gave_up");
        return Ok(());
    }
    verdict
}

fn vast(pages: &Rc<RefCell<Pages>>) -> Check {
    let n = match pick(6) {
        0 | 1 => 1 + pick(8) as usize,
        2 | 3 => 496 + pick(8) as usize,
        4 => 996 + pick(8) as usize,
        _ => 1 + pick(40) as usize,
    };
    // length of the packet, and its bytes if they are of interest
    let mut items: Vec<(u64, Option<Enc>)> = fill(n).into_iter().map(|e| (e.len() as u64, Some(e))).collect();
    let most = (1 << 32) + 48 - 1;
    let vast = range(1, 5);
    for _ in 0..vast {
        let i = pick(n as u64) as usize;
        let len = match pick(6) {
            0 => most,
            1 => (1 << 31) - 50 + pick(100),
            2 => (1 << 32) - 70 + pick(100),
            3 => 1 << 30,
            4 => (1 << 16) * (1 + pick(60_000)),
            _ => (1 << 28) + pick(1 << 31),
        };
        items[i] = (len, None);
        fault("vast_packet", len);
    }
    let place = |items: &[(u64, Option<Enc>)]| {
        let mut at = 0;
        let mut tables = vec![];
        let mut spots = vec![];
        for c in items.chunks(CAP) {
            tables.push((at, table(&c.iter().map(|i| i.0).collect::<Vec<_>>())));
            at += SLOT as u64;
            for (len, _) in c {
                spots.push(at);
                at += len;
            }
        }
        (tables, spots, at)
    };
    {
        let (tables, spots, end) = place(&items);
        let mut p = pages.borrow_mut();
        for (at, t) in &tables {
            p.put(*at, t);
        }
        for ((len, e), at) in items.iter().zip(&spots) {
            match e {
                Some(e) => p.put(*at, e),
                None => {
                    let size = len - HDR as u64;
                    p.put(*at, &header(size, 0, true));
                    let mut h = vec![4];
                    h.extend(crc32(b"Vec<u8>").to_le_bytes());
                    h.push(4);
                    h.extend([1, 2, 3, 4]);
                    h.extend((size as u32).wrapping_sub(14).to_le_bytes());
                    p.put(at + HDR as u64, &h);
                }
            }
        }
        p.len = end;
    }
    let env = benign();
    let file = || Vast { pages: pages.clone(), pos: 0, env: env.clone() };
    let mut r: Reader<Vast> = match Reader::new(file()) {
        Ok(r) => r,
        Err(e) => fail!("unexpected-error", "a vast storage does not open for reading: {e}"),
    };
    let mut w: Option<Writer<Vast>> = None;
    let mut id = 9_000_000;
    for _ in 0..range(2, 8) {
        if chance(1, 2) {
            if w.is_none() || chance(1, 3) {
                drop(w.take());
                w = match Writer::new(file()) {
                    Ok(w) => Some(w),
                    Err(e) => fail!("unexpected-error", "a vast storage does not open for writing: {e}"),
                };
            }
            let before = items.len();
            for _ in 0..range(1, 6) {
                id += 1;
                let s = small_spec(id);
                let e = Rc::new(s.enc());
                if let Err(e) = w.as_mut().expect("writer").insert(s.packet()) {
                    fail!("unexpected-error", "insert into a vast storage: {e}");
                }
                items.push((e.len() as u64, Some(e)));
            }
            match r.reload() {
                Ok(k) => ensure!(
                    k == items.len() - before,
                    "wrong-growth",
                    "reload() returned {k} after {} inserts",
                    items.len() - before
                ),
                Err(e) => fail!("unexpected-error", "reload of a vast storage: {e}"),
            }
        }
        let n = items.len();
        ensure!(r.count() == n, "wrong-count", "count() = {}, stored {n}", r.count());
        // a run of packets that are small enough to be read
        let mut from = pick(n as u64) as usize;
        if chance(1, 2) {
            from = n - 1 - pick(n.min(4) as u64) as usize;
        }
        let run: Vec<Enc> = items[from..].iter().map_while(|i| i.1.clone()).collect();
        let len = run.len().min(1 + pick(12) as usize);
        if len == 0 {
            continue;
        }
        let last = from + run.len() == n;
        // iteration may load a slot as a whole
        let light = items[from / CAP * CAP..].iter().all(|i| i.1.is_some());
        match pick(if light { 3 } else { 2 }) {
            0 => {
                for i in 0..len {
                    match r.nth(from + i) {
                        Ok(Some(p)) => same(&p, &run[i], "nth of a vast storage", from + i)?,
                        Ok(None) => fail!("lost-packet", "nth({}) of {n} returned nothing", from + i),
                        Err(e) => fail!("unexpected-error", "nth({}) of {n}: {e}", from + i),
                    }
                }
            }
            1 => {
                let mut got = 0;
                for (i, p) in r.range(from, len).enumerate() {
                    match p {
                        Ok(p) if i < len => same(&p, &run[i], "range of a vast storage", from + i)?,
                        Ok(_) => fail!("extra-packet", "range({from}, {len}) of {n} goes on"),
                        Err(e) => fail!("unexpected-error", "range({from}, {len}) of {n}, packet {i}: {e}"),
                    }
                    got += 1;
                }
                ensure!(got == len, "lost-packet", "range({from}, {len}) of {n} delivered {got}");
            }
            _ => match r.seek(from) {
                Ok(it) => {
                    let mut got = 0;
                    for p in it.take(if last { usize::MAX } else { len }) {
                        match p {
                            Ok(p) if got < run.len() => same(&p, &run[got], "seek in a vast storage", from + got)?,
                            Ok(_) => fail!("extra-packet", "iteration from {from} of {n} goes on"),
                            Err(e) => fail!("unexpected-error", "iteration from {from} of {n}, packet {got}: {e}"),
                        }
                        got += 1;
                    }
                    let want = if last { run.len() } else { len };
                    ensure!(got == want, "lost-packet", "iteration from {from} of {n} delivered {got} of {want}");
                }
                Err(e) => fail!("unexpected-error", "seek({from}) of {n}: {e}"),
            },
        }
    }
    // everything is where the layout says
    let (tables, spots, end) = place(&items);
    let p = pages.borrow();
    let spare = p.len - end.min(p.len);
    ensure!(
        spare == 0 || items.len() % CAP == 0 && spare == SLOT as u64,
        "wrong-layout",
        "the medium ends at {}, the storage at {end}",
        p.len
    );
    for (at, t) in &tables {
        let mut b = vec![0; SLOT];
        p.get(*at, &mut b);
        ensure!(b == *t, "wrong-layout", "the slot at {at} is not the documented one");
    }
    for ((len, e), at) in items.iter().zip(&spots).rev().take(8) {
        let Some(e) = e else { continue };
        let mut b = vec![0; *len as usize];
        p.get(*at, &mut b);
        ensure!(b == **e, "wrong-layout", "the packet at {at} is not the one written");
    }
    if end > 1 << 32 {
        probe("beyond_4_gib");
    }
    Ok(())
}

// ---------------------------------------------------------------- C09: crashes

/// All packets a stream reader finds in the raw bytes.
fn scan(data: &[u8]) -> Vec<Vec<u8>> {
    let mut src = data;
    let mut r = PacketBufReader::new(&mut src);
    let mut out = Vec::new();
    for _ in 0..data.len() + 64 {
        match r.read() {
            Ok(NextPacket::Found(p)) => out.push(enc_packet(&p)),
            Ok(NextPacket::NoData) => break,
            Ok(_) | Err(_) => {}
        }
    }
    out
}

fn subsequence(all: &[Enc], got: &[Vec<u8>]) -> Option<usize> {
    let mut it = got.iter();
    for (i, w) in all.iter().enumerate() {
        if !it.any(|g| g == &**w) {
            return Some(i);
        }
    }
    None
}

fn recoverable(data: &[u8], acked: &[Enc]) -> Check {
    probe("damage_reported_then_scanned");
    let got = scan(data);
    if let Some(i) = subsequence(acked, &got) {
        fail!(
            "lost-acked",
            "packet {i} of {} acknowledged ones is not even found by a stream scan of the damaged file ({} found)",
            acked.len(),
            got.len()
        );
    }
    Ok(())
}

pub fn is_damage(e: &brec::Error) -> bool {
    matches!(e, brec::Error::DamagedSlot(_))
}

/// What an observer finds after the process is gone: all of `acked`, then possibly one of `maybe`.
/// Ok(Some(packets)): what is in the storage. Ok(None): damage reported (and allowed).
fn audit(
    d: &Rc<RefCell<Disk>>,
    acked: &[Enc],
    maybe: &[Enc],
    may_be_damaged: bool,
    why: &str,
) -> Result<Option<Vec<Enc>>, Viol> {
    let env = calm();
    let mut r = match Reader::new(SFile::new(d, &env)) {
        Ok(r) => r,
        Err(e) => {
            if !is_damage(&e) {
                return viol("unexpected-error", format!("{why}: the storage does not open: {e}"));
            }
            if !may_be_damaged {
                return viol("unopenable", format!("{why}: the storage does not open though no slot table was cut: {e}"));
            }
            let data = d.borrow().data.clone();
            recoverable(&data, acked)?;
            return Ok(None);
        }
    };
    let n = r.count();
    let mut exp = acked.to_vec();
    if n == acked.len() + 1 {
        // which of the unacknowledged ones is it?
        match (r.nth(n - 1), maybe.first()) {
            (_, None) => return viol("extra-packet", format!("{why}: {n} packets found, {} acknowledged", acked.len())),
            (Ok(Some(p)), Some(first)) => {
                let got = enc_packet(&p);
                exp.push(maybe.iter().find(|m| ***m == got).unwrap_or(first).clone());
            }
            (_, Some(first)) => exp.push(first.clone()),
        }
    }
    if n != exp.len() {
        return viol(
            if n < exp.len() { "lost-acked" } else { "extra-packet" },
            format!("{why}: {n} packets found, {} acknowledged", acked.len()),
        );
    }
    // the tail by index, everything by iteration
    for i in (0..n).rev().take(3) {
        match r.nth(i) {
            Ok(Some(p)) => same(&p, &exp[i], why, i)?,
            Ok(None) => return viol("lost-acked", format!("{why}: nth({i}) of {n} is missing")),
            Err(e) => return viol("unreadable", format!("{why}: nth({i}) of {n} ({} acknowledged): {e}", acked.len())),
        }
    }
    if chance(1, 3) {
        drain(r.filtered(), &exp, 0, n, why)?;
    } else {
        drain(r.iter(), &exp, 0, n, why)?;
    }
    if let Err(e) = Writer::new(SFile::new(d, &env)) as Result<Writer<SFile>, brec::Error> {
        return viol("unexpected-error", format!("{why}: opens for reading but not for writing: {e}"));
    }
    Ok(Some(exp))
}

/// Slot tables of the storage with none or one of the unacknowledged packets.
fn risky(acked: &[Enc], maybe: &[Enc]) -> Vec<(u64, u64)> {
    let mut z = zones(acked);
    for m in maybe {
        let mut more = acked.to_vec();
        more.push(m.clone());
        z.extend(zones(&more));
    }
    z
}

fn crash(power: bool) -> Check {
    let n = start_count();
    let mut acked = fill(n);
    let mut d = disk(image(&acked));
    let mut id = 2_000_000u64;
    for epoch in 0..range(1, 3) {
        let env = benign();
        if power {
            d.borrow_mut().track();
        }
        env.crash_in.set(Some(logsize(7)));
        let faulty = chance(1, 4);
        // not acknowledged since the last acknowledgement: in flight or refused with an error
        let maybe: RefCell<Vec<Enc>> = RefCell::new(vec![]);
        let done = RefCell::new(Vec::<Enc>::new());
        let budget = range(1, 16);
        let next = Cell::new(id);
        let res = catch_unwind(AssertUnwindSafe(|| -> Check {
            let mut w = open_writer(&d, &env)?;
            if faulty {
                let kinds = vec![Fault::ErrWrite, Fault::NoSpace, Fault::ErrFlush, Fault::ErrSeek];
                env.set(Inject::new(kinds, 4, 3));
            }
            for _ in 0..budget {
                next.set(next.get() + 1);
                let s = fresh(next.get());
                let enc = Rc::new(s.enc());
                maybe.borrow_mut().push(enc.clone());
                if let Err(e) = w.insert(s.packet()) {
                    ensure!(env.errors.get() > 0, "unexpected-error", "insert: {e}");
                    probe("insert_failed_before_crash");
                    continue;
                }
                maybe.borrow_mut().clear();
                env.torn.borrow_mut().clear();
                done.borrow_mut().push(enc);
                ev("acked", done.borrow().len() as u64, 0);
            }
            Ok(())
        }));
        id = next.get();
        match res {
            Ok(r) => {
                r?;
                // dies idle, after the last acknowledgement
                fault("crash_idle", env.ops.get());
            }
            Err(p) if p.is::<CrashNow>() => {}
            Err(p) => std::panic::resume_unwind(p),
        }
        acked.extend(done.borrow().iter().cloned());
        let maybe = maybe.into_inner();
        let z = risky(&acked, &maybe);
        let cut;
        if power {
            let at_risk = d.borrow().unflushed();
            cut = overlaps(&at_risk, &z) || overlaps(&env.torn.borrow(), &z);
            let data = d.borrow_mut().power_loss();
            fault("power_loss", data.len() as u64);
            d = disk(data);
        } else {
            cut = overlaps(&env.torn.borrow(), &z);
            let data = d.borrow().data.clone();
            fault("process_kill", data.len() as u64);
            d = disk(data);
        }
        let why = format!("after crash {epoch}");
        match audit(&d, &acked, &maybe, cut, &why)? {
            None => return Ok(()),
            Some(found) => {
                if found.len() > acked.len() {
                    probe("in_flight_survived");
                } else if !maybe.is_empty() {
                    probe("in_flight_lost");
                }
                acked = found;
            }
        }
    }
    // life goes on
    let env = calm();
    let mut w = open_writer(&d, &env)?;
    for _ in 0..range(1, 14) {
        id += 1;
        let s = small_spec(id);
        acked.push(Rc::new(s.enc()));
        if let Err(e) = w.insert(s.packet()) {
            fail!("unexpected-error", "insert after recovery: {e}");
        }
    }
    drop(w);
    audit(&d, &acked, &[], false, "after recovery")?;
    Ok(())
}

pub fn c09_kill() -> Check {
    crash(false)
}

pub fn c09_power() -> Check {
    crash(true)
}

// ---------------------------------------------------------------- C10: failed inserts

/// A reader that was open before an insert failed, and stays open: it is reloaded while the medium
/// of the writer is in trouble (its own is not) and has to see what was acknowledged.
fn bystander(r: &mut Reader<SFile>, acked: &[Enc], failed: &[Enc], cut: bool, why: &str) -> Check {
    let before = r.count();
    match r.reload() {
        Ok(k) => {
            let n = r.count();
            let most = acked.len() + !failed.is_empty() as usize;
            ensure!(
                n >= acked.len() && n <= most,
                "reader-count",
                "{why}: a reader counts {n} packets (before: {before}), {} are acknowledged, {} failed",
                acked.len(),
                failed.len()
            );
            ensure!(
                k == n.saturating_sub(before),
                "wrong-growth",
                "{why}: reload() returned {k}, but count() went from {before} to {n}"
            );
            if n > acked.len() {
                probe("failed_packet_seen");
            }
            for i in (0..n).rev().take(2) {
                match (r.nth(i), acked.get(i)) {
                    (Ok(Some(p)), Some(want)) => same(&p, want, why, i)?,
                    (Ok(Some(p)), None) => {
                        let got = enc_packet(&p);
                        ensure!(
                            failed.iter().any(|f| **f == got),
                            "wrong-packet",
                            "{why}: packet {i} is none that was inserted"
                        );
                    }
                    (Ok(None), _) => fail!("lost-acked", "{why}: nth({i}) of {n} is missing for a reader"),
                    (Err(e), _) => fail!("unreadable", "{why}: nth({i}) of {n} for a reader: {e}"),
                }
            }
        }
        Err(e) => {
            ensure!(cut && is_damage(&e), "unexpected-error", "{why}: reload of a reader: {e}");
            ensure!(
                r.count() == before,
                "state-lost",
                "{why}: a failed reload changed count() from {before} to {}",
                r.count()
            );
            probe("reload_met_cut_table");
        }
    }
    Ok(())
}

pub fn c10_failed() -> Check {
    let n = start_count();
    let mut acked = fill(n);
    let d = disk(image(&acked));
    let env = calm();
    let mut w = open_writer(&d, &env)?;
    let kinds = match pick(5) {
        0 => vec![Fault::ErrWrite],
        1 => vec![Fault::NoSpace],
        2 => vec![Fault::ErrFlush],
        3 => vec![Fault::ErrSeek],
        _ => vec![
            Fault::ErrWrite,
            Fault::NoSpace,
            Fault::ErrFlush,
            Fault::ErrSeek,
            Fault::ZeroWrite,
            Fault::ShortWrite,
            Fault::IntrWrite,
        ],
    };
    let bits = 1 + pick(6);
    let max = 1 + logsize(4);
    env.set(Inject::new(kinds, bits, max));
    let mut id = 3_000_000u64;
    let mut retry: Option<Spec> = None;
    let mut failed: Vec<Enc> = vec![];
    let mut reader = open_reader(&d, &calm())?;
    let attentive = [0, 1, 1, 2][pick(4) as usize];
    for _ in 0..range(2, 16) {
        if chance(attentive, 2) {
            let cut = overlaps(&env.torn.borrow(), &risky(&acked, &failed));
            bystander(&mut reader, &acked, &failed, cut, "between inserts")?;
        }
        let mut broken = false;
        let s = match retry.take() {
            Some(s) => s,
            None if chance(1, 8) => {
                broken = true;
                unwritable()
            }
            None => {
                id += 1;
                fresh(id)
            }
        };
        let enc = Rc::new(s.enc());
        let errors = env.errors.get();
        match w.insert(s.packet()) {
            Ok(()) => {
                ensure!(!broken, "unwritable-written", "a packet that cannot be read back was inserted");
                env.torn.borrow_mut().clear();
                failed.clear();
                acked.push(enc);
                if chance(1, 4) {
                    audit(&d, &acked, &[], false, "after a successful insert")?;
                }
            }
            Err(_) if broken => {
                // refused; whether before or behind a failing call of the medium
                probe("unwritable_refused");
                if env.errors.get() == errors && failed.is_empty() {
                    audit(&d, &acked, &[], false, "after a refused insert")?;
                }
            }
            Err(e) => {
                ensure!(
                    env.errors.get() > errors,
                    "unexpected-error",
                    "insert failed without any fault: {e}"
                );
                probe("insert_failed");
                failed.push(enc.clone());
                let z = risky(&acked, &failed);
                let cut = overlaps(&env.torn.borrow(), &z);
                if chance(1, 4) {
                    let state = audit(&d, &acked, &failed, cut, "after a failed insert")?;
                    if chance(1, 2) {
                        // the process gives up; another one takes over
                        match state {
                            None => return Ok(()),
                            Some(found) => {
                                acked = found;
                                failed.clear();
                                env.torn.borrow_mut().clear();
                                env.set(Inject::none());
                                d.borrow_mut().enospc = false;
                                w = open_writer(&d, &env)?;
                                probe("writer_replaced_after_failure");
                                continue;
                            }
                        }
                    }
                }
                if chance(1, 2) {
                    retry = Some(s);
                    probe("retried");
                }
            }
        }
    }
    // faults stop; the same writer has to work
    env.set(Inject::none());
    d.borrow_mut().enospc = false;
    for _ in 0..range(1, 4) {
        id += 1;
        let s = small_spec(id);
        let enc = Rc::new(s.enc());
        if let Err(e) = w.insert(s.packet()) {
            fail!("stuck-writer", "insert still fails after the faults stopped: {e}");
        }
        acked.push(enc);
    }
    audit(&d, &acked, &[], false, "after the faults stopped")?;
    bystander(&mut reader, &acked, &[], false, "after the faults stopped")?;
    if chance(1, 3) {
        query(&mut reader, &acked)?;
    }
    on_disk(&d, &acked)
}

// ---------------------------------------------------------------- C11: tailing reader

/// Another process appends by the documented layout; the reader follows.
pub fn c11_steps() -> Check {
    let n = start_count();
    let mut exp = fill(n);
    let d = disk(image(&exp));
    // full slots may be followed by an already created empty one
    let mut trailing = n % CAP == 0 && chance(1, 4);
    if trailing {
        d.borrow_mut().data.extend(table(&[]));
    }
    let env = benign();
    let mut r = open_reader(&d, &env)?;
    for _ in 0..range(1, 6) {
        let grow = match pick(6) {
            0 => 0,
            1 => 1 + pick(5) as usize,
            2 => CAP - exp.len() % CAP,
            3 => pick(30) as usize,
            4 => pick(1200) as usize,
            _ => CAP,
        };
        let m = (exp.len() + grow).min(2600);
        let before = r.count();
        if m > exp.len() {
            trailing = false;
        }
        exp = fill(m);
        d.borrow_mut().data = image(&exp);
        if m % CAP == 0 && (trailing || chance(1, 3)) {
            trailing = true;
            d.borrow_mut().data.extend(table(&[]));
        }
        sched("grow", m as u64, 0);
        match r.reload() {
            Ok(k) => {
                ensure!(
                    r.count() == m,
                    "wrong-count",
                    "after reload count() = {}, stored {m} (before: {before})",
                    r.count()
                );
                ensure!(
                    k == m - before,
                    "wrong-growth",
                    "reload() returned {k}, but the storage grew from {before} to {m}"
                );
            }
            Err(e) => fail!("unexpected-error", "reload of a healthy storage ({before} -> {m}): {e}"),
        }
        for _ in 0..range(1, 2) {
            query(&mut r, &exp)?;
        }
    }
    Ok(())
}

#[derive(Default)]
struct Shared {
    planned: RefCell<Vec<Enc>>,
    started: Cell<usize>,
    acked: Cell<usize>,
    over: Cell<bool>,
    viol: RefCell<Option<Viol>>,
    torn_seen: Cell<u64>,
    reloads: Cell<u64>,
}

impl Shared {
    fn note(&self, c: Check) -> bool {
        if let Err(v) = c {
            self.viol.borrow_mut().get_or_insert(v);
            self.over.set(true);
            return false;
        }
        true
    }
}

fn follow(sh: &Shared, d: &Rc<RefCell<Disk>>, env: Rc<Env>, rounds: u64) -> Check {
    let mut r: Option<Reader<SFile>> = None;
    for round in 0..rounds + 1 {
        let last = round == rounds;
        if last {
            while !sh.over.get() {
                coro::sleep(1000);
            }
        }
        if sh.viol.borrow().is_some() {
            return Ok(());
        }
        let acked = sh.acked.get();
        let began = sh.started.get();
        let quiet = |sh: &Shared| began == acked && sh.started.get() == began;
        // the writer is gone: what it left is all there will be, whole or not
        let left = if sh.over.get() { parse(&d.borrow().data).ok() } else { None };
        let before = r.as_ref().map(|r| r.count());
        let fresh = r.is_none();
        let res = match r.as_mut() {
            None => match Reader::new(SFile::new(d, &env)) {
                Ok(n) => {
                    r = Some(n);
                    Ok(0)
                }
                Err(e) => Err(e),
            },
            Some(r) => r.reload(),
        };
        sh.reloads.set(sh.reloads.get() + 1);
        match res {
            Err(e) => {
                ensure!(is_damage(&e), "unexpected-error", "reload beside a writer: {e}");
                // a table being rewritten may be seen half done, nothing else may
                ensure!(
                    !quiet(sh),
                    "unexpected-error",
                    "reload fails though the writer did nothing meanwhile: {e}"
                );
                ensure!(
                    left.is_none(),
                    "unexpected-error",
                    "reload fails though the writer died and left every slot table intact: {e}"
                );
                sh.torn_seen.set(sh.torn_seen.get() + 1);
                if let Some(r) = r.as_mut() {
                    ensure!(
                        Some(r.count()) == before,
                        "state-lost",
                        "a failed reload changed count() from {before:?} to {}",
                        r.count()
                    );
                }
            }
            Ok(k) => {
                let rd = r.as_mut().expect("reader");
                let n = rd.count();
                let started = sh.started.get();
                ensure!(
                    n >= acked && n <= started,
                    "wrong-count",
                    "count() = {n} after reload; {acked} were acknowledged before it, {started} started by now"
                );
                if let Some(left) = &left {
                    ensure!(
                        n == left.len(),
                        "wrong-count",
                        "count() = {n} after the writer died and left {}",
                        left.len()
                    );
                    if began > acked {
                        probe("reload_behind_dead_writer");
                    }
                }
                if let Some(b) = before {
                    ensure!(
                        !fresh && k + b == n,
                        "wrong-growth",
                        "reload() returned {k}, but count() went from {b} to {n}"
                    );
                }
            }
        }
        if let Some(r) = r.as_mut() {
            let n = r.count();
            let exp = sh.planned.borrow()[..n].to_vec();
            query(r, &exp)?;
        }
        if last {
            return Ok(());
        }
        if chance(1, 2) {
            coro::sleep(1 + logsize(12));
        } else {
            coro::relax();
        }
    }
    Ok(())
}

pub fn c11_tail() -> Check {
    let n = start_count();
    let exp = fill(n);
    let d = disk(image(&exp));
    let sh = Rc::new(Shared::default());
    *sh.planned.borrow_mut() = exp.clone();
    sh.started.set(n);
    sh.acked.set(n);
    let count = range(1, 14);
    let mut specs = Vec::new();
    for i in 0..count {
        let s = small_spec(4_000_000 + i);
        sh.planned.borrow_mut().push(Rc::new(s.enc()));
        specs.push(s);
    }
    // a table write becomes visible in several pieces
    let wenv = if chance(2, 3) {
        let max = 1 + logsize(6);
        Env::with(Inject::new(vec![Fault::ShortWrite, Fault::IntrWrite], 1 + pick(4), max))
    } else {
        Env::calm()
    };
    wenv.quiet.set(true);
    let readers = range(1, 2) as usize;
    let mut tasks: Vec<Box<dyn FnOnce()>> = Vec::new();
    {
        let (sh, d, wenv) = (sh.clone(), d.clone(), wenv.clone());
        tasks.push(Box::new(move || {
            let mut w = match open_writer(&d, &wenv) {
                Ok(w) => w,
                Err(v) => {
                    sh.note(Err(v));
                    return;
                }
            };
            for s in specs {
                coro::step();
                sh.started.set(sh.started.get() + 1);
                match w.insert(s.packet()) {
                    Ok(()) => {
                        sh.acked.set(sh.acked.get() + 1);
                        ev("acked", sh.acked.get() as u64, 0);
                    }
                    Err(e) => {
                        sh.note(viol("unexpected-error", format!("insert beside a reader: {e}")));
                        return;
                    }
                }
                if chance(1, 3) {
                    coro::sleep(1 + logsize(10));
                }
            }
            sh.over.set(true);
        }));
    }
    for _ in 0..readers {
        let (sh, d) = (sh.clone(), d.clone());
        let rounds = range(1, 12);
        let renv = benign();
        tasks.push(Box::new(move || {
            let c = follow(&sh, &d, renv, rounds);
            sh.note(c);
        }));
    }
    let kills = if chance(1, 5) { vec![(0usize, logsize(8))] } else { vec![] };
    let plan = coro::Plan {
        kills,
        stalls: vec![],
        bits: 3 + pick(10),
        max_rounds: 400_000,
    };
    let s2 = sh.clone();
    let exit = coro::run(tasks, plan, move |t| {
        if t == 0 {
            s2.over.set(true);
        }
    });
    if let Some((_, p)) = exit.panic {
        std::panic::resume_unwind(p);
    }
    if let Some(v) = sh.viol.borrow().clone() {
        return Err(v);
    }
    if sh.torn_seen.get() > 0 {
        probe("half_written_table_seen");
    }
    ensure!(exit.finished.iter().all(|f| *f), "stuck", "a reader or writer never finished");
    Ok(())
}

// ---------------------------------------------------------------- C12: damage

pub fn c12_damage() -> Check {
    // a storage of real packets; the tail ones have more structure
    let n = match pick(5) {
        0 => pick(8) as usize + 1,
        1 => 490 + pick(20) as usize,
        2 => 995 + pick(20) as usize,
        _ => 1 + pick(60) as usize,
    };
    let special = (1 + pick(6) as usize).min(n);
    let mut exp = fill(n - special);
    let mut embed = false;
    let mut aliens: Vec<usize> = vec![];
    for i in 0..special {
        let mut s = if chance(1, 3) {
            embed = true;
            Spec { blocks: vec![], payload: Some(gen_pay(10, true)) }
        } else {
            small_spec(5_000_000 + i as u64)
        };
        if chance(1, 900) {
            s = huge_spec(5_000_000 + i as u64);
        }
        if exp.iter().any(|e| **e == s.enc()) {
            // every packet has to be recognisable
            s.blocks.push(Blk::Tag(Tag { id: 6_000_000 + i as u64 }));
        }
        if chance(1, 12) {
            // written by a program that speaks another version of the protocol
            aliens.push(exp.len());
            exp.push(Rc::new(alien()));
            fault("alien_packet", exp.len() as u64);
            continue;
        }
        exp.push(Rc::new(s.enc()));
    }
    let good = image(&exp);
    // spans of packets and tables
    let mut spans = Vec::new();
    let mut tables = Vec::new();
    let mut at = 0usize;
    for c in exp.chunks(CAP) {
        tables.push((at, at + SLOT));
        at += SLOT;
        for e in c {
            spans.push((at, at + e.len()));
            at += e.len();
        }
    }
    let mut bad = good.clone();
    let what = pick(5);
    let hits = 1 + pick(3);
    for _ in 0..hits {
        let (lo, hi) = match what {
            0 | 1 => spans[if chance(1, 2) {
                n - 1 - pick(special as u64) as usize
            } else {
                pick(n as u64) as usize
            }],
            2 => tables[pick(tables.len() as u64) as usize],
            _ => (0, good.len()),
        };
        let pos = match pick(3) {
            // headers are the sensitive part
            0 => lo + pick(((hi - lo).min(HDR)) as u64) as usize,
            _ => lo + pick((hi - lo) as u64) as usize,
        };
        match pick(5) {
            0 => {
                bad[pos] ^= 1 << pick(8);
                fault("bit_flip", pos as u64);
            }
            1 => {
                if chance(1, 3) {
                    relen(&mut bad[..hi], pos);
                } else {
                    bad[pos] = pick(256) as u8;
                }
                fault("byte_damage", pos as u64);
            }
            2 => {
                let end = (pos + 1 + logsize(7) as usize).min(hi);
                bad[pos..end].fill(if chance(1, 2) { 0 } else { 0xff });
                fault("zeroed_range", pos as u64);
            }
            3 => {
                let end = (pos + 1 + logsize(6) as usize).min(hi);
                let b = bytes(end - pos);
                bad[pos..end].copy_from_slice(&b);
                fault("overwritten_range", pos as u64);
            }
            _ => {
                // a few bytes in a row are shifted
                let len = (2 + logsize(5) as usize).min(hi - pos);
                bad[pos..pos + len].rotate_left(1);
                fault("shifted_range", pos as u64);
            }
        }
    }
    let cutoff = if chance(1, 4) {
        let t = pick(good.len() as u64 + 1) as usize;
        fault("truncated", t as u64);
        t
    } else {
        good.len()
    };
    bad.truncate(cutoff);
    let hurt = |(s, e): (usize, usize)| e > bad.len() || bad[s..e] != good[s..e];
    let intact: Vec<bool> = spans.iter().enumerate().map(|(i, s)| !hurt(*s) && !aliens.contains(&i)).collect();
    // the first table that is damaged (bytes present, but different)
    let bad_table = tables.iter().position(|(s, e)| {
        let (s, e) = (*s, (*e).min(bad.len()));
        s < e && bad[s..e] != good[s..e]
    });
    let cut_table = tables.iter().position(|(_, e)| *e > bad.len());
    let d = disk(bad.clone());
    let env = calm();
    let reader = Reader::new(SFile::new(&d, &env));
    let writer: Result<Writer<SFile>, brec::Error> = Writer::new(SFile::new(&d, &env));
    let first = match (bad_table, cut_table) {
        (Some(b), Some(c)) if b >= c => {
            // damaged and cut: both answers are right, only nothing wrong may be shown
            None
        }
        (Some(b), _) => Some(b),
        _ => None,
    };
    if let Some(b) = first {
        probe("table_damaged");
        match &reader {
            Ok(r) => fail!("silent-damage", "table of slot {b} is damaged, but the storage opens with {} of {n} packets", r.count()),
            Err(e) => ensure!(is_damage(e), "wrong-report", "damage of table {b} reported as: {e}"),
        }
        match &writer {
            Ok(_) => fail!("silent-damage", "table of slot {b} is damaged, but the storage opens for writing"),
            Err(e) => ensure!(is_damage(e), "wrong-report", "damage of table {b} reported as: {e}"),
        }
    }
    // whatever happened to the index, the packets are still in there
    if !embed && chance(1, 3) {
        let keep: Vec<Enc> = exp.iter().zip(&intact).filter(|(_, k)| **k).map(|(e, _)| e.clone()).collect();
        let got = scan(&bad);
        // an undamaged packet right behind a cut one may be hidden by it only if that one claims it
        let header_ok = spans.iter().zip(&intact).all(|((s, e), k)| {
            *k || *e > bad.len() || bad[*s..(*s + HDR).min(*e)] == good[*s..(*s + HDR).min(*e)] || valid_headers(&bad[*s..*e]).is_empty()
        });
        let foreign = valid_headers(&bad).iter().any(|h| !spans.iter().any(|(s, _)| s == h));
        if header_ok && !foreign {
            if let Some(i) = subsequence(&keep, &got) {
                fail!("lost-packet", "undamaged packet ({i} of {}) not recovered by a stream scan", keep.len());
            }
        }
    }
    let mut r = match reader {
        Ok(r) => r,
        Err(e) => {
            ensure!(is_damage(&e), "wrong-report", "damage reported as: {e}");
            ensure!(bad_table.is_some(), "unopenable", "all tables are intact, but the storage does not open: {e}");
            return Ok(());
        }
    };
    // tables readable up to the cut
    let listed = match cut_table {
        Some(c) => (c * CAP).min(n),
        None => n,
    };
    ensure!(r.count() == listed, "wrong-count", "count() = {}, the intact tables list {listed}", r.count());
    let mut tries: Vec<usize> = (0..listed).filter(|i| !intact[*i]).take(4).collect();
    for _ in 0..4 {
        tries.push(pick(n as u64) as usize);
    }
    tries.push(n - 1);
    for i in tries {
        let res = if chance(1, 3) {
            match r.range_filtered(i, 1).next() {
                Some(Ok(p)) => Ok(Some(p)),
                Some(Err(e)) => Err(e),
                None => Ok(None),
            }
        } else {
            r.nth(i)
        };
        match res {
            Ok(Some(p)) => same(&p, &exp[i], "by index", i)?,
            Ok(None) => ensure!(i >= listed, "lost-packet", "nth({i}) of {listed} is missing"),
            Err(e) => ensure!(
                i < listed && !intact[i],
                "lost-packet",
                "nth({i}): {e}, but this packet is undamaged"
            ),
        }
    }
    // iteration: every undamaged packet, in order, nothing else, an error for each damaged
    // one in between, and it ends
    let from = if chance(1, 2) { pick(listed as u64 + 1) as usize } else { 0 };
    let mut at = from;
    let mut items = 0usize;
    let mut errs = 0usize;
    let mut step = |p: Result<Packet, brec::Error>| -> Check {
        items += 1;
        ensure!(items <= bad.len() + 16, "runaway", "iteration does not end");
        match p {
            Ok(p) => {
                let got = enc_packet(&p);
                let mut k = at;
                while k < listed && got != **exp[k] {
                    ensure!(
                        !intact[k],
                        if exp.iter().any(|e| **e == got) { "lost-packet" } else { "foreign-packet" },
                        "iteration yields something else than the undamaged packet {k} (at {}, from {from}, is {:?})", at, exp.iter().position(|e| **e == got)
                    );
                    k += 1;
                }
                ensure!(k < listed, "foreign-packet", "iteration yields a packet that was never stored (or again)");
                ensure!(errs == k - at, "silent-damage", "{errs} errors for {} damaged packets before packet {k}", k - at);
                errs = 0;
                at = k + 1;
            }
            Err(_) => errs += 1,
        }
        Ok(())
    };
    let mut until = listed;
    match pick(3) {
        0 => {
            // a range asks for one packet after the other
            let len = if chance(1, 2) { listed } else { pick(listed as u64 + 1) as usize };
            until = (from + len).min(listed);
            for p in r.range(from, len) {
                step(p)?;
            }
        }
        1 if chance(1, 2) => {
            // enough for everything, errors do not use it up
            for p in r.range_filtered(from, listed) {
                step(p)?;
            }
        }
        _ if from > 0 => match r.seek(from) {
            Ok(it) => {
                for p in it {
                    step(p)?;
                }
            }
            Err(e) => ensure!(from >= listed, "unexpected-error", "seek({from}) of {listed}: {e}"),
        },
        1 => {
            for p in r.filtered() {
                step(p)?;
            }
        }
        _ => {
            for p in r.iter() {
                step(p)?;
            }
        }
    }
    ensure!(at >= until || errs > 0, "silent-damage", "iteration ended at packet {at} of {until} without an error");
    let listed = until;
    for k in at..listed {
        ensure!(!intact[k], "lost-packet", "iteration ended before the undamaged packet {k} of {listed}");
    }
    Ok(())
}

// ---------------------------------------------------------------- C20: failing medium

/// What a query may do while reads and seeks fail: every packet it returns is the right one, and
/// whatever it does not return it reported an error for.
fn tolerant(r: &mut Reader<SFile>, exp: &[Enc], env: &Rc<Env>) -> Check {
    let n = exp.len();
    let before = env.errors.get();
    let failing = || env.errors.get() > before;
    match pick(7) {
        0 => ensure!(r.count() == n, "wrong-count", "count() = {} while the medium fails, stored {n}", r.count()),
        1 | 2 => {
            for _ in 0..range(1, 6) {
                let i = edge(n);
                let before = env.errors.get();
                match r.nth(i) {
                    Ok(Some(p)) => {
                        ensure!(i < n, "extra-packet", "nth({i}) of {n} returned a packet");
                        same(&p, &exp[i], "nth", i)?;
                    }
                    Ok(None) => ensure!(i >= n, "error-hidden", "nth({i}) of {n} returned nothing while the medium fails"),
                    Err(e) => ensure!(env.errors.get() > before, "unexpected-error", "nth({i}) of {n}: {e}"),
                }
            }
        }
        3 => survive(r.iter(), exp, 0, n, true, usize::MAX, env, "iter")?,
        4 => {
            let i = edge(n);
            match r.seek(i) {
                Ok(it) => {
                    ensure!(i < n, "extra-packet", "seek({i}) of {n} succeeded");
                    survive(it, exp, i, n, true, usize::MAX, env, "seek")?;
                }
                Err(e) => ensure!(i >= n || failing(), "unexpected-error", "seek({i}) of {n}: {e}"),
            }
        }
        5 => survive(r.filtered(), exp, 0, n, true, usize::MAX, env, "filtered")?,
        _ => {
            let (f, l) = (edge(n), edge(n));
            let to = (f + l).min(n);
            if chance(1, 2) {
                survive(r.range(f, l), exp, f.min(to), to, false, usize::MAX, env, "range")?
            } else {
                // packets that failed do not count towards the length that was asked for
                survive(r.range_filtered(f, l), exp, f.min(n), n, false, l, env, "range_filtered")?
            }
        }
    }
    Ok(())
}

/// Drain an iterator while the medium fails. An error may cost the packets up to the end of its
/// slot (`slots`: the data of a slot is loaded at once) or one packet. At most `len` packets come.
fn survive(
    it: impl Iterator<Item = Result<Packet, brec::Error>>,
    exp: &[Enc],
    from: usize,
    to: usize,
    slots: bool,
    len: usize,
    env: &Rc<Env>,
    what: &str,
) -> Check {
    let mut i = from;
    let mut errs = 0usize;
    let mut seen = env.errors.get();
    let mut calls = 0usize;
    let mut got = 0usize;
    for p in it {
        calls += 1;
        ensure!(calls <= to - from + 4, "endless", "{what} yields more items than {from}..{to} has packets");
        let failed = env.errors.get() > seen;
        seen = env.errors.get();
        match p {
            Ok(p) => {
                got += 1;
                ensure!(got <= len, "extra-packet", "{what} yields more than {len} packets");
                let e = enc_packet(&p);
                if i < to && e == *exp[i] {
                    i += 1;
                    continue;
                }
                // nothing may be missing without an error
                match exp[i.min(to)..to].iter().position(|x| **x == e) {
                    None => fail!("wrong-packet", "{what} returned a packet that does not follow packet {i}"),
                    Some(d) => fail!("error-hidden", "{what} skipped packets {i}..{} without an error", i + d),
                }
            }
            Err(e) => {
                ensure!(failed, "unexpected-error", "{what} at packet {i} of {from}..{to}: {e}");
                errs += 1;
                i = if slots { (i / 500 + 1) * 500 } else { i + 1 };
                i = i.min(to);
            }
        }
    }
    ensure!(i == to || got == len, "error-hidden", "{what} ended at packet {i} of {from}..{to} after {errs} errors");
    if errs > 0 {
        probe("query_failed");
        if got > 0 {
            probe("query_failed_in_part");
        }
    }
    Ok(())
}

pub fn c20_flaky() -> Check {
    let n = start_count();
    let mut exp = fill(n);
    let d = disk(image(&exp));
    let calm = calm();
    let env = Env::calm();
    env.quiet.set(true);
    let kinds = match pick(4) {
        0 => vec![Fault::ErrRead],
        1 => vec![Fault::ErrSeek],
        2 => vec![Fault::ErrRead, Fault::ErrSeek],
        _ => vec![Fault::ErrRead, Fault::ErrSeek, Fault::ShortRead, Fault::IntrRead],
    };
    // a slot is read entry by entry: reaching a later one takes over 500 calls
    let bits = 1 + pick(12);
    let more = || {
        let max = 1 + logsize(5);
        env.set(Inject::new(kinds.clone(), bits, max));
    };
    more();
    let mut id = 7_000_000u64;
    // opening fails or has everything
    let mut r = None;
    for _ in 0..4 {
        let before = env.errors.get();
        match Reader::new(SFile::new(&d, &env)) {
            Ok(x) => {
                r = Some(x);
                break;
            }
            Err(e) => {
                ensure!(env.errors.get() > before, "unexpected-error", "a healthy storage does not open: {e}");
                probe("open_failed");
            }
        }
    }
    let mut r = match r {
        Some(r) => r,
        None => {
            env.set(Inject::none());
            open_reader(&d, &env)?
        }
    };
    ensure!(r.count() == n, "wrong-count", "a reader opened on a failing medium counts {} of {n} packets", r.count());
    let mut known = n;
    for _ in 0..range(1, 8) {
        if chance(1, 3) {
            more();
        }
        match pick(5) {
            0 => {
                // the storage grows; the reader is told
                let mut w = open_writer(&d, &calm)?;
                for _ in 0..range(0, 3) {
                    id += 1;
                    let s = fresh(id);
                    if let Err(e) = w.insert(s.packet()) {
                        fail!("unexpected-error", "insert into a healthy storage: {e}");
                    }
                    exp.push(Rc::new(s.enc()));
                }
                let before = env.errors.get();
                match r.reload() {
                    Ok(k) => {
                        ensure!(
                            r.count() == exp.len() && k == exp.len() - known,
                            "wrong-count",
                            "reload on a failing medium reports {k} new packets, the reader counts {} of {} (before: {known})",
                            r.count(),
                            exp.len()
                        );
                        known = exp.len();
                    }
                    Err(e) => {
                        ensure!(env.errors.get() > before, "unexpected-error", "reload of a healthy storage: {e}");
                        ensure!(
                            r.count() == known,
                            "wrong-count",
                            "a failed reload changed the count from {known} to {}",
                            r.count()
                        );
                        probe("reload_failed");
                    }
                }
            }
            1 => {
                // a writer opens on the failing medium: it fails without effect, or goes on behind
                // the last packet
                let before = env.errors.get();
                let image = hash_bytes(&d.borrow().data);
                match Writer::new(SFile::new(&d, &env)) {
                    Ok(mut w) => {
                        env.set(Inject::none());
                        id += 1;
                        let s = fresh(id);
                        if let Err(e) = w.insert(s.packet()) {
                            fail!("unexpected-error", "insert after a healthy opening: {e}");
                        }
                        exp.push(Rc::new(s.enc()));
                        on_disk(&d, &exp)?;
                        probe("writer_opened");
                    }
                    Err(e) => {
                        ensure!(env.errors.get() > before, "unexpected-error", "a healthy storage does not open for writing: {e}");
                        ensure!(hash_bytes(&d.borrow().data) == image, "changed-by-failure", "a failed opening changed the storage");
                        probe("writer_open_failed");
                    }
                }
            }
            _ => tolerant(&mut r, &exp[..known], &env)?,
        }
    }
    // the faults stop: the same reader knows everything again
    env.set(Inject::none());
    query(&mut r, &exp[..known])?;
    match r.reload() {
        Ok(k) => ensure!(k == exp.len() - known, "wrong-count", "reload reports {k} new packets, expected {}", exp.len() - known),
        Err(e) => fail!("stuck-reader", "reload still fails after the faults stopped: {e}"),
    }
    for _ in 0..range(1, 3) {
        query(&mut r, &exp)?;
    }
    Ok(())
}
