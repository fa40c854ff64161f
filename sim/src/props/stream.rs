//! Stream extraction: PacketBufReader over a simulated byte source.

use crate::core::*;
use crate::disk::*;
use crate::model::*;
use crate::types::*;
use crate::{ensure, fail};
use std::io::ErrorKind;
use std::sync::{Arc, Mutex};

/// What one `read()` of the stream reader produced.
pub enum Step {
    Found(Vec<u8>),
    Skipped,
    Nothing,
    End,
    Io,
    Err(String),
}

/// Classify one step; the packet is reduced to its reference encoding.
pub fn step_of(r: Result<NextPacket<Block, Payload, Payload>, brec::Error>) -> Step {
    match r {
        Ok(NextPacket::Found(p)) => Step::Found(enc_packet(&p)),
        Ok(NextPacket::Skipped) => Step::Skipped,
        Ok(NextPacket::NotEnoughData(_)) | Ok(NextPacket::NotFound) => Step::Nothing,
        Ok(NextPacket::NoData) => Step::End,
        Err(brec::Error::Io(e))
            if matches!(
                e.kind(),
                ErrorKind::Interrupted | ErrorKind::WouldBlock | ErrorKind::TimedOut | ErrorKind::ConnectionReset
            ) =>
        {
            Step::Io
        }
        Err(e) => Step::Err(e.to_string()),
    }
}

pub enum Part {
    Junk(Vec<u8>),
    Packet(Vec<u8>),
}

pub struct Stream {
    pub parts: Vec<Part>,
    pub data: Vec<u8>,
    /// (start, end) of every packet in `data`
    pub spans: Vec<(usize, usize)>,
}

impl Stream {
    pub fn packets(&self) -> Vec<&Vec<u8>> {
        self.parts
            .iter()
            .filter_map(|p| match p {
                Part::Packet(v) => Some(v),
                _ => None,
            })
            .collect()
    }
    /// Junk bytes in front of packet `n` (n = number of packets: all junk).
    pub fn junk_before(&self, n: usize) -> Vec<u8> {
        let mut out = Vec::new();
        let mut k = 0;
        for p in &self.parts {
            match p {
                Part::Junk(j) => out.extend(j),
                Part::Packet(_) => {
                    if k == n {
                        return out;
                    }
                    k += 1;
                }
            }
        }
        out
    }
    pub fn cuts(&self) -> Vec<usize> {
        // boundaries of packets, headers, signatures and the reader's own buffer, shifted a little
        let mut c = Vec::new();
        let shift = pick(5) as i64 - 2;
        let what = pick(8);
        for (s, e) in &self.spans {
            let mut push = |x: i64| {
                if x > 0 && (x as usize) < self.data.len() {
                    c.push(x as usize)
                }
            };
            let s = *s as i64;
            match what {
                0 => push(s + shift),
                1 => push(s + 8 + shift),
                2 => push(s + HDR as i64 + shift),
                3 => push(*e as i64 + shift),
                4 => {
                    push(s + pick(9) as i64);
                    push(s + HDR as i64 + shift);
                }
                5 => {
                    push(s + HDR as i64);
                    push(*e as i64 - 1);
                }
                6 => push(s + pick((*e as i64 - s) as u64 + 1) as i64),
                _ => {
                    push(s + 1);
                    push(s + HDR as i64 - 1);
                    push(*e as i64 - 1);
                }
            }
        }
        c.sort_unstable();
        c.dedup();
        c
    }
}

/// A mixed stream of packets and foreign bytes with no checksum-valid header outside the packets
/// (other than inside packet payloads).
pub fn gen_stream(max_packets: u64, with_junk: bool, embed: bool) -> Stream {
    let n = pick(max_packets + 1);
    let style = if with_junk { pick(4) } else { 0 };
    let mut s = Stream {
        parts: vec![],
        data: vec![],
        spans: vec![],
    };
    let put_junk = |s: &mut Stream| {
        let j = junk();
        if j.is_empty() {
            return;
        }
        s.data.extend(&j);
        s.parts.push(Part::Junk(j));
    };
    let giant = if chance(1, 250) { pick(8) } else { 99 };
    for i in 0..n {
        if style == 3 || (style == 2 && chance(1, 2)) || (style == 1 && chance(1, 6)) {
            put_junk(&mut s);
            if giant == i {
                let j = junk_plain(logsize(18) as usize);
                s.data.extend(&j);
                s.parts.push(Part::Junk(j));
            }
        }
        let bits = match pick(8) {
            0..=4 => 7,
            5 | 6 => 11,
            _ => 15,
        };
        let e = if giant == i { huge_spec(i) } else { gen_spec(bits, 4, embed) }.enc();
        let at = s.data.len();
        s.data.extend(&e);
        s.spans.push((at, s.data.len()));
        s.parts.push(Part::Packet(e));
    }
    if style == 3 || (style == 2 && chance(1, 2)) {
        put_junk(&mut s);
    }
    // Foreign bytes must not, together with what follows them, form a valid header.
    let valid = valid_headers(&s.data);
    let inside = |h: usize| s.spans.iter().any(|(a, b)| h >= *a && h + HDR <= *b);
    if valid.iter().any(|h| !inside(*h)) {
        // cannot happen short of a checksum collision; keep the oracle exact anyway
        return gen_stream(0, false, false);
    }
    s
}

pub fn source(s: &Stream) -> Source {
    let mode = Source::pick_mode();
    // single bytes over a huge stream only cost time
    let least = match s.data.len() {
        0..=20_000 => 1,
        n @ 20_001..=60_000 => (n / 1000).min(37),
        n => n / 1500,
    };
    let mode = match mode {
        Delivery::Fixed(n) => Delivery::Fixed(n.max(least)),
        Delivery::Random if least > 100 => Delivery::Fixed(least * 2 + pick(4096) as usize),
        m => m,
    };
    let cuts = if mode == Delivery::Cuts { s.cuts() } else { vec![] };
    Source::new(s.data.clone(), mode, cuts)
}

pub fn call_bound(data: usize, reads: u64) -> u64 {
    4 * data as u64 + 4 * reads + 64
}

type Ign = Arc<Mutex<Vec<u8>>>;

pub fn ignored_rule(to: &Ign) -> Rule {
    let to = to.clone();
    Rule::Ignored(RuleFnDef::Dynamic(Box::new(move |b: &[u8]| {
        to.lock().unwrap().extend_from_slice(b)
    })))
}

fn short(v: &[u8]) -> String {
    format!("{} bytes #{:08x}", v.len(), hash_bytes(v) as u32)
}

/// A source that is at its end now and then, and goes on afterwards.
struct Growing<'a> {
    inner: &'a mut Source,
    /// where the ends are, the next one last
    ends: Vec<usize>,
    rest: &'a std::cell::Cell<usize>,
}

impl std::io::Read for Growing<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let mut most = buf.len();
        if let Some(end) = self.ends.last() {
            if *end == self.inner.pos {
                fault("end_of_data", *end as u64);
                self.ends.pop();
                return Ok(0);
            }
            most = most.min(end - self.inner.pos);
        }
        let n = self.inner.read(&mut buf[..most])?;
        self.rest.set(self.inner.data.len() - self.inner.pos);
        Ok(n)
    }
}

/// Places where the data may seem to end; not inside of a packet header, where it's an end for good.
fn ends(s: &Stream) -> Vec<usize> {
    let len = s.data.len();
    let mut at = Vec::new();
    for _ in 0..1 + pick(5) {
        at.push(if s.spans.is_empty() || chance(1, 4) {
            pick(len as u64 + 1) as usize
        } else {
            let (a, b) = s.spans[pick(s.spans.len() as u64) as usize];
            match pick(6) {
                0 => a,
                1 => a + HDR,
                2 => b - 1,
                3 => b,
                _ => a + HDR + pick((b - a - HDR) as u64 + 1) as usize,
            }
        });
    }
    at.retain(|x| *x < len && !s.spans.iter().any(|(a, _)| a < x && *x < a + HDR));
    at.sort_unstable_by(|a, b| b.cmp(a));
    at.dedup();
    at
}

/// Exact extraction; `check_junk` also compares what the Ignored rule received.
fn exact(transient: bool, check_junk: bool) -> Check {
    allow_weak();
    let s = gen_stream(8, true, true);
    let mut src = source(&s);
    if transient {
        let kinds = vec![
            ErrorKind::Interrupted,
            ErrorKind::WouldBlock,
            ErrorKind::TimedOut,
            ErrorKind::ConnectionReset,
        ];
        src = src.with_errors(kinds, range(1, 12), 6);
    }
    let ign: Ign = Arc::default();
    let want: Vec<Vec<u8>> = s.packets().into_iter().cloned().collect();
    let mut got = 0usize;
    let bound = call_bound(s.data.len(), 64);
    let mut calls = 0u64;
    let mut ended = false;
    let rest = std::cell::Cell::new(s.data.len());
    let ends = if chance(1, 4) { ends(&s) } else { vec![] };
    let mut growing = Growing { inner: &mut src, ends, rest: &rest };
    let mut reader = PacketBufReader::new(&mut growing);
    if check_junk || chance(1, 2) {
        if let Err(e) = reader.add_rule(ignored_rule(&ign)) {
            fail!("add-rule", "first Ignored rule refused: {e}");
        }
    }
    while calls < bound {
        calls += 1;
        match step_of(reader.read()) {
            Step::Found(p) => {
                ev("found", got as u64, p.len() as u64);
                ensure!(
                    got < want.len(),
                    "extra-packet",
                    "packet {got} delivered, the stream holds only {}",
                    want.len()
                );
                ensure!(
                    p == want[got],
                    "wrong-packet",
                    "packet {got}: expected {}, got {}",
                    short(&want[got]),
                    short(&p)
                );
                if check_junk {
                    let j = s.junk_before(got);
                    let seen = ign.lock().unwrap().clone();
                    ensure!(
                        seen == j,
                        "ignored-at-packet",
                        "before packet {got} the Ignored rule saw {} instead of {}",
                        short(&seen),
                        short(&j)
                    );
                }
                got += 1;
            }
            Step::Skipped => fail!("skipped", "packet skipped without any filter"),
            Step::Nothing => {}
            Step::End if rest.get() > 0 => probe("went_on_behind_an_end"),
            Step::End => {
                ended = true;
                break;
            }
            Step::Io => {
                ensure!(transient, "unexpected-error", "I/O error from an error-free source");
                probe("transient_error_surfaced");
            }
            Step::Err(e) => fail!("unexpected-error", "error on an undamaged stream: {e}"),
        }
    }
    ensure!(
        ended,
        "no-end",
        "no NoData after {calls} calls on {} bytes ({got}/{} packets)",
        s.data.len(),
        want.len()
    );
    ensure!(
        got == want.len(),
        "lost-packet",
        "{got} of {} packets delivered at the end of the stream",
        want.len()
    );
    if check_junk {
        let j = s.junk_before(usize::MAX);
        let seen = ign.lock().unwrap().clone();
        ensure!(
            seen == j,
            "ignored-total",
            "at the end the Ignored rule saw {} instead of {}",
            short(&seen),
            short(&j)
        );
        if !j.is_empty() {
            probe("junk_reported");
        }
    }
    if want.len() > 1 {
        probe("several_packets");
    }
    drop(reader);
    if src.errors > 0 {
        probe("with_transient_errors");
    }
    Ok(())
}

pub fn c01_mixed() -> Check {
    exact(false, false)
}

pub fn c02_ignored() -> Check {
    exact(false, true)
}

pub fn c05_transient() -> Check {
    exact(true, chance(1, 2))
}

/// A source that tells how much was fetched from it.
struct Counted<'a>(Source, &'a std::cell::Cell<usize>);

impl std::io::Read for Counted<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.0.read(buf)?;
        self.1.set(self.1.get() + n);
        Ok(n)
    }
}

pub fn c01_pure() -> Check {
    allow_weak();
    // only packets, larger counts, across the reader's internal buffer
    let n = range(1, 60);
    let mut data = Vec::new();
    let mut want = Vec::new();
    let mut spans = Vec::new();
    let giant = if chance(1, 300) { pick(n) } else { n };
    for i in 0..n {
        let e = if i == giant { huge_spec(i) } else { small_spec(i) }.enc();
        spans.push((data.len(), data.len() + e.len()));
        data.extend(&e);
        want.push(e);
    }
    let s = Stream {
        parts: vec![],
        data,
        spans,
    };
    let fetched = std::cell::Cell::new(0);
    let mut src = Counted(source(&s), &fetched);
    let mut reader = PacketBufReader::new(&mut src);
    let bound = call_bound(s.data.len(), 64);
    let mut got = 0;
    for _ in 0..bound {
        let r = reader.read();
        if let Ok(NextPacket::NotEnoughData(n)) = r {
            // what the caller is told to wait for is a part of the packet that is on its way
            ensure!(
                n == 0 || got < want.len() && fetched.get() + n <= s.spans[got].1,
                "demand",
                "{n} more bytes are asked for after {} of {}, packet {got} of {}",
                fetched.get(),
                s.data.len(),
                want.len()
            );
        }
        match step_of(r) {
            Step::Found(p) => {
                ensure!(
                    got < want.len() && p == want[got],
                    "wrong-packet",
                    "packet {got} of {} is not the one written",
                    want.len()
                );
                got += 1;
            }
            Step::Skipped => fail!("skipped", "packet skipped without any filter"),
            Step::Nothing => {}
            Step::End => {
                ensure!(
                    got == want.len(),
                    "lost-packet",
                    "{got} of {} packets delivered",
                    want.len()
                );
                return Ok(());
            }
            Step::Io => fail!("unexpected-error", "I/O error from an error-free source"),
            Step::Err(e) => fail!("unexpected-error", "error on an undamaged stream: {e}"),
        }
    }
    fail!("no-end", "no NoData on {} bytes", s.data.len());
}

/// A live source: what has not arrived yet is WouldBlock.
struct Gated<'a>(Source, &'a std::cell::Cell<usize>);

impl std::io::Read for Gated<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let most = buf.len().min(self.1.get() - self.0.pos);
        if most == 0 {
            if self.0.pos == self.0.data.len() {
                return Ok(0);
            }
            return Err(ErrorKind::WouldBlock.into());
        }
        self.0.read(&mut buf[..most])
    }
}

/// Bytes arrive bit by bit from a live peer that may stay silent for ever after any of them: what
/// has arrived completely must be delivered, whatever comes later.
pub fn c01_prompt() -> Check {
    allow_weak();
    let s = gen_stream(8, true, true);
    let want: Vec<Vec<u8>> = s.packets().into_iter().cloned().collect();
    let len = s.data.len();
    let mut stops: Vec<usize> = vec![len];
    for _ in 0..1 + pick(6) {
        stops.push(if s.spans.is_empty() || chance(1, 4) {
            pick(len as u64 + 1) as usize
        } else {
            let (a, b) = s.spans[pick(s.spans.len() as u64) as usize];
            match pick(8) {
                0..=3 => b,
                4 => (b + 1 + pick(12) as usize).min(len),
                5 => b - 1,
                6 => a + HDR,
                _ => a + pick((b - a) as u64) as usize,
            }
        });
    }
    stops.sort_unstable();
    stops.dedup();
    let limit = std::cell::Cell::new(0);
    let mut src = Gated(source(&s), &limit);
    let mut reader = PacketBufReader::new(&mut src);
    let mut got = 0;
    for at in stops {
        limit.set(at);
        ev("arrived", at as u64, got as u64);
        let mut quiet = false;
        for _ in 0..call_bound(len, 64) {
            match step_of(reader.read()) {
                Step::Found(p) => {
                    ensure!(
                        got < want.len() && p == want[got],
                        "wrong-packet",
                        "packet {got} of {} is not the one written",
                        want.len()
                    );
                    got += 1;
                }
                Step::Nothing => {}
                Step::Io | Step::End => {
                    quiet = true;
                    break;
                }
                Step::Skipped => fail!("skipped", "packet skipped without any filter"),
                Step::Err(e) => fail!("unexpected-error", "error on an undamaged stream: {e}"),
            }
        }
        ensure!(quiet, "no-end", "the reader is still busy with {at} of {len} bytes");
        let due = s.spans.iter().filter(|x| x.1 <= at).count();
        ensure!(
            got >= due,
            "late",
            "{due} packets arrived completely with the first {at} bytes, {got} were delivered"
        );
        if due > 0 && at < len {
            probe("delivered_from_a_live_source");
        }
    }
    ensure!(got == want.len(), "lost-packet", "{got} of {} packets delivered", want.len());
    Ok(())
}

/// Blocking reads of whole packets from a stream (ReadFrom), under short reads and EINTR.
pub fn c01_blocking() -> Check {
    allow_weak();
    let n = range(1, 12);
    let mut data = Vec::new();
    let mut want = Vec::new();
    let giant = if chance(1, 300) { pick(n) } else { n };
    for i in 0..n {
        let e = if i == giant { huge_spec(i) } else { gen_spec(10, 4, true) }.enc();
        data.extend(&e);
        want.push(e);
    }
    let s = Stream {
        parts: vec![],
        data,
        spans: vec![],
    };
    let mut src = source(&s).with_errors(vec![ErrorKind::Interrupted], pick(6), 6);
    for (i, w) in want.iter().enumerate() {
        match <Packet as ReadFrom>::read(&mut src) {
            Ok(p) => {
                let e = enc_packet(&p);
                ensure!(
                    e == *w,
                    "wrong-packet",
                    "packet {i}: expected {}, got {}",
                    short(w),
                    short(&e)
                );
            }
            Err(e) => fail!("unexpected-error", "packet {i}: {e}"),
        }
    }
    ensure!(
        src.pos == src.data.len(),
        "over-read",
        "{} bytes left unread",
        src.data.len() - src.pos
    );
    Ok(())
}

// ---------------------------------------------------------------- damage

struct Damaged {
    data: Vec<u8>,
    /// (start, end, packet) of the packets left intact, in the damaged stream
    intact: Vec<(usize, usize, usize)>,
    /// extents claimed by headers that survived in packets whose body was damaged
    claims: Vec<(usize, usize)>,
    all: Vec<Vec<u8>>,
}

fn damage_stream() -> Damaged {
    let s = gen_stream(8, true, false);
    let mut d = Damaged {
        data: vec![],
        intact: vec![],
        claims: vec![],
        all: vec![],
    };
    let last = s.parts.len();
    for (pi, part) in s.parts.iter().enumerate() {
        match part {
            Part::Junk(j) => d.data.extend(j),
            Part::Packet(p) => {
                let id = d.all.len();
                d.all.push(p.clone());
                if !chance(1, 3) {
                    d.intact.push((d.data.len(), d.data.len() + p.len(), id));
                    d.data.extend(p);
                    continue;
                }
                let mut b = p.clone();
                let at = pick(b.len() as u64) as usize;
                match pick(9) {
                    8 => {
                        fault("length_damage", (d.data.len() + at) as u64);
                        relen(&mut b, at);
                    }
                    7 => {
                        fault("alien_packet", d.data.len() as u64);
                        b = alien();
                    }
                    0 => {
                        fault("bit_flip", (d.data.len() + at) as u64);
                        b[at] ^= 1 << pick(8);
                    }
                    1 => {
                        // inside the header
                        let at = pick(HDR as u64) as usize;
                        fault("header_flip", (d.data.len() + at) as u64);
                        b[at] ^= 1 << pick(8);
                    }
                    2 => {
                        let len = 1 + logsize(8) as usize;
                        let end = (at + len).min(b.len());
                        fault("zero_range", (d.data.len() + at) as u64);
                        b[at..end].fill(0);
                    }
                    3 => {
                        let len = 1 + logsize(8) as usize;
                        let end = (at + len).min(b.len());
                        fault("garbage_range", (d.data.len() + at) as u64);
                        let g = junk_plain(end - at);
                        b[at..end].copy_from_slice(&g);
                    }
                    4 => {
                        fault("lost_tail", (d.data.len() + at) as u64);
                        b.truncate(at);
                    }
                    5 => {
                        let end = (at + 1 + pick(20) as usize).min(b.len());
                        fault("lost_middle", (d.data.len() + at) as u64);
                        b.drain(at..end);
                    }
                    _ => {
                        fault("inserted_bytes", (d.data.len() + at) as u64);
                        let g = junk_plain(1 + pick(20) as usize);
                        b.splice(at..at, g);
                    }
                }
                if b == *p {
                    d.intact.push((d.data.len(), d.data.len() + p.len(), id));
                    d.data.extend(p);
                    continue;
                }
                d.data.extend(&b);
                let _ = pi == last;
            }
        }
    }
    if chance(1, 3) && !d.data.is_empty() {
        let cut = pick(d.data.len() as u64) as usize;
        fault("stream_cut", cut as u64);
        d.data.truncate(cut);
        d.intact.retain(|i| i.1 <= cut);
    }
    // every checksum-valid header outside an intact packet claims an extent
    for h in valid_headers(&d.data) {
        if d.intact.iter().any(|i| h >= i.0 && h < i.1) {
            continue;
        }
        let size = u64::from_le_bytes(d.data[h + 8..h + 16].try_into().unwrap());
        d.claims.push((h, h.saturating_add(HDR).saturating_add(size as usize)));
    }
    d
}

pub fn c03_damage() -> Check {
    let d = damage_stream();
    let st = Stream {
        parts: vec![],
        data: d.data.clone(),
        spans: d.intact.iter().map(|i| (i.0, i.1)).collect(),
    };
    let mut src = source(&st);
    let ign: Ign = Arc::default();
    let mut reader = PacketBufReader::new(&mut src);
    if chance(1, 2) {
        let _ = reader.add_rule(ignored_rule(&ign));
    }
    let bound = call_bound(d.data.len(), 64);
    let mut found: Vec<usize> = Vec::new();
    let mut errors = 0;
    let mut ended = false;
    for _ in 0..bound {
        match step_of(reader.read()) {
            Step::Found(p) => {
                // must be one of the packets written, later than the previous one
                let from = found.last().map(|l| l + 1).unwrap_or(0);
                match (from..d.all.len()).find(|i| d.all[*i] == p) {
                    Some(i) => found.push(i),
                    None => fail!(
                        "foreign-packet",
                        "a packet was delivered ({}) that was not written at or after position {from}",
                        short(&p)
                    ),
                }
            }
            Step::Skipped => fail!("skipped", "packet skipped without any filter"),
            Step::Nothing => {}
            Step::End => {
                ended = true;
                break;
            }
            Step::Io | Step::Err(_) => errors += 1,
        }
    }
    ensure!(
        ended,
        "no-end",
        "no NoData after {bound} calls on {} damaged bytes ({errors} errors)",
        d.data.len()
    );
    // equal packets are interchangeable: compare by content in order
    let must: Vec<usize> = d
        .intact
        .iter()
        .filter(|i| !d.claims.iter().any(|c| c.0 < i.1 && i.0 < c.1))
        .map(|i| i.2)
        .collect();
    let mut k = 0;
    for m in &must {
        let mut ok = false;
        while k < found.len() {
            let f = found[k];
            k += 1;
            if d.all[f] == d.all[*m] {
                ok = true;
                break;
            }
        }
        ensure!(
            ok,
            "lost-neighbour",
            "intact packet {m} was not delivered (delivered {found:?} of {}, must {must:?})",
            d.all.len()
        );
    }
    if errors > 0 {
        probe("damage_reported");
    }
    if !must.is_empty() && must.len() < d.all.len() {
        probe("intact_beside_damaged");
    }
    Ok(())
}

// ---------------------------------------------------------------- termination

fn hostile() -> Vec<u8> {
    let mut data = Vec::new();
    for _ in 0..range(1, 6) {
        match pick(10) {
            0 => data.extend(gen_spec(9, 3, true).enc()),
            1 => data.extend(junk()),
            2 => {
                // a checksum-valid header with arbitrary numbers
                let size = match pick(5) {
                    0 => pick(64),
                    1 => word(),
                    2 => u64::MAX - pick(64),
                    3 => (1 << 32) + pick(64),
                    _ => 9000 + pick(64),
                };
                let bl = match pick(5) {
                    0 => pick(64),
                    1 => size,
                    2 => word(),
                    3 => u64::MAX - pick(64),
                    _ => size.wrapping_add(pick(4)),
                };
                data.extend(header(size, bl, chance(1, 2)));
                data.extend(junk_plain(pick(120) as usize));
            }
            3 => {
                let mut p = gen_spec(9, 3, true).enc();
                let at = pick(p.len() as u64) as usize;
                p.truncate(at);
                data.extend(p);
            }
            4 => {
                let mut p = gen_spec(9, 3, true).enc();
                for _ in 0..range(1, 4) {
                    let at = pick(p.len() as u64) as usize;
                    p[at] ^= 1 << pick(8);
                }
                data.extend(p);
            }
            5 => {
                // valid header over a damaged body of the right length
                let s = gen_spec(9, 3, true);
                let mut p = s.enc();
                if p.len() > HDR {
                    let at = HDR + pick((p.len() - HDR) as u64) as usize;
                    p[at] = pick(256) as u8;
                }
                data.extend(p);
            }
            6 => data.extend(bytes(logsize(12) as usize)),
            7 => {
                // more blocks than a packet may hold
                let one = enc_blk(&Blk::Bit(Bit { v: true }));
                let n = range(250, 600) as usize;
                data.extend(header((one.len() * n) as u64, (one.len() * n) as u64, false));
                for _ in 0..n {
                    data.extend(&one);
                }
            }
            8 => {
                // a payload header whose length field lies
                let body = bytes(pick(40) as usize);
                let mut p = enc_pay(&Pay::Bytes(body));
                let lie = word() as u32;
                p[10..14].copy_from_slice(&lie.to_le_bytes());
                if chance(1, 2) {
                    p[0] = pick(256) as u8;
                }
                data.extend(header(p.len() as u64, 0, true));
                data.extend(p);
            }
            _ => {
                for _ in 0..pick(40) {
                    data.extend(PSIG);
                }
            }
        }
    }
    data
}

/// Memory a reader may hold: some constant (buffers, the harness' own records), and a multiple
/// of the bytes that exist.
fn memory_budget(data: usize) -> u64 {
    (4 << 20) + 32 * data as u64
}

fn within_memory(data: usize, f: impl FnOnce() -> Check) -> Check {
    let (r, top) = crate::alloc::peak(f);
    r?;
    let max = memory_budget(data);
    ensure!(
        top <= max,
        "memory",
        "{top} bytes of memory were held at once for {data} bytes of input"
    );
    Ok(())
}

pub fn c04_progress() -> Check {
    let data = hostile();
    let n = data.len();
    within_memory(n, move || c04_progress_of(data))
}

fn c04_progress_of(data: Vec<u8>) -> Check {
    let spans: Vec<(usize, usize)> = valid_headers(&data)
        .into_iter()
        .map(|h| (h, (h + 60).min(data.len())))
        .collect();
    let st = Stream {
        parts: vec![],
        data: data.clone(),
        spans,
    };
    let mut src = source(&st);
    if chance(1, 3) {
        src = src.with_errors(vec![ErrorKind::WouldBlock, ErrorKind::Interrupted], 4, 5);
    }
    let ign: Ign = Arc::default();
    let mut reader = PacketBufReader::new(&mut src);
    let rule = chance(1, 2);
    if rule {
        let _ = reader.add_rule(ignored_rule(&ign));
    }
    let bound = call_bound(data.len(), 16);
    let mut calls = 0;
    let mut delivered = 0usize;
    loop {
        calls += 1;
        ensure!(
            calls <= bound,
            "no-end",
            "{bound} calls on a finite source of {} bytes and still no NoData",
            data.len()
        );
        match step_of(reader.read()) {
            Step::End => break,
            Step::Found(p) => {
                delivered += p.len();
                ensure!(
                    delivered <= data.len(),
                    "more-than-input",
                    "delivered packets are larger than the input"
                );
            }
            _ => {}
        }
    }
    let seen = ign.lock().unwrap().len();
    ensure!(
        seen + delivered <= data.len(),
        "more-than-input",
        "{seen} ignored + {delivered} packet bytes out of {} input bytes",
        data.len()
    );
    // exhausted stays exhausted
    for _ in 0..3 {
        match step_of(reader.read()) {
            Step::End | Step::Io => {}
            Step::Found(_) => fail!("after-end", "a packet was delivered after NoData"),
            Step::Err(e) => fail!("after-end", "an error was reported after NoData: {e}"),
            _ => fail!("after-end", "the reader wants more data after NoData"),
        }
    }
    probe("terminated");
    Ok(())
}

/// Every reader that takes bytes directly, on arbitrary bytes: an answer, not a panic.
pub fn c04_direct() -> Check {
    let data = hostile();
    let n = data.len();
    within_memory(n, move || c04_direct_of(data))
}

fn c04_direct_of(data: Vec<u8>) -> Check {
    let starts = valid_headers(&data);
    let from = if !starts.is_empty() && chance(2, 3) {
        starts[pick(starts.len() as u64) as usize]
    } else {
        pick(data.len() as u64 + 1) as usize
    };
    let bytes_ = &data[from..];
    let limit = data.len() as u64 + 64;
    match pick(11) {
        9 => {
            // blocks of a known type
            let like = gen_blk();
            let own = enc_blk(&like);
            let cut = pick(own.len() as u64 + 1) as usize;
            let bytes_ = if chance(1, 2) { bytes_ } else { &own[cut.min(4)..own.len() - cut / 2] };
            let skip = chance(1, 2);
            let _ = typed_slice(&like, bytes_, skip);
            let _ = typed_owned(&like, bytes_);
            let mut src = Source::new(bytes_.to_vec(), Source::pick_mode(), vec![]);
            let _ = typed_read(&like, &mut src, skip);
            probe("typed_blocks");
        }
        10 => {
            // a payload whose header lies about its length or type
            let pay = gen_pay(6, false);
            let full = enc_pay(&pay);
            let mut head = match <brec::PayloadHeader as ReadFrom>::read(&mut &full[..]) {
                Ok(h) => h,
                Err(e) => fail!("harness", "payload header: {e}"),
            };
            head.len = match pick(4) {
                0 => u32::MAX - pick(16) as u32,
                1 => word() as u32,
                2 => head.len.wrapping_add(pick(3) as u32),
                _ => 1 << pick(32),
            };
            let body = if chance(1, 2) { &full[full.len() - pay_body(&pay).len()..] } else { bytes_ };
            let room = body.len() as u64;
            match pick(4) {
                0 => {
                    let mut src = Source::new(body.to_vec(), Source::pick_mode(), vec![]);
                    let r = <Payload as brec::ExtractPayloadFrom<Payload>>::read(&mut src, &head);
                    ensure!(r.is_err() || head.len as u64 <= room, "invented", "a payload of {} bytes out of {room}", head.len);
                }
                1 => {
                    let mut cur = std::io::Cursor::new(body);
                    let r = <Payload as brec::TryExtractPayloadFrom<Payload>>::try_read(&mut cur, &head);
                    ensure!(
                        !matches!(r, Ok(ReadStatus::Success(_))) || head.len as u64 <= room,
                        "invented",
                        "a payload of {} bytes out of {room}",
                        head.len
                    );
                }
                2 => {
                    let mut b = body;
                    let r = <Payload as brec::TryExtractPayloadFromBuffered<Payload>>::try_read(&mut b, &head);
                    ensure!(
                        !matches!(r, Ok(ReadStatus::Success(_))) || head.len as u64 <= room,
                        "invented",
                        "a payload of {} bytes out of {room}",
                        head.len
                    );
                }
                _ => {
                    let mut src = Source::new(body.to_vec(), Source::pick_mode(), vec![]);
                    let _ = <Rec as brec::ReadPayloadFrom<Rec>>::read(&mut src, &head);
                    let _ = <Vec<u8> as brec::ReadPayloadFrom<Vec<u8>>>::read(&mut src, &head);
                }
            }
            probe("lying_payload_header");
        }
        0 => {
            let mut src = Source::new(bytes_.to_vec(), Source::pick_mode(), vec![]);
            for _ in 0..limit {
                if <Packet as ReadFrom>::read(&mut src).is_err() && src.pos >= src.data.len() {
                    break;
                }
            }
            probe("packet_read");
        }
        1 => {
            let mut cur = std::io::Cursor::new(bytes_);
            let at = cur.position();
            match <Packet as TryReadFrom>::try_read(&mut cur) {
                Ok(ReadStatus::Success(p)) => {
                    let n = enc_packet(&p).len() as u64;
                    ensure!(cur.position() == at + n, "wrong-position", "try_read took {} bytes for a packet of {n}", cur.position() - at);
                }
                _ => ensure!(cur.position() == at, "wrong-position", "try_read without a packet moved the stream to {}", cur.position()),
            }
            probe("packet_try_read");
        }
        2 => {
            let mut b = bytes_;
            let _ = <Packet as TryReadFromBuffered>::try_read(&mut b);
        }
        3 => {
            let mut cur = std::io::Cursor::new(bytes_);
            let rules = Rules::default();
            for _ in 0..limit {
                let _ = Packet::filtered(&mut cur, &rules);
                if cur.position() >= bytes_.len() as u64 {
                    break;
                }
            }
            probe("packet_filtered");
        }
        4 => {
            let mut src = Source::new(bytes_.to_vec(), Source::pick_mode(), vec![]);
            let _ = <Block as ReadFrom>::read(&mut src);
            let mut cur = std::io::Cursor::new(bytes_);
            let _ = <Block as TryReadFrom>::try_read(&mut cur);
            let mut b = bytes_;
            let _ = <Block as TryReadFromBuffered>::try_read(&mut b);
            let _ = <BlockReferred as ReadBlockFromSlice>::read_from_slice(bytes_, false);
        }
        5 => {
            let mut src = Source::new(bytes_.to_vec(), Source::pick_mode(), vec![]);
            let _ = <brec::PacketHeader as ReadFrom>::read(&mut src);
            let mut cur = std::io::Cursor::new(bytes_);
            let _ = <brec::PacketHeader as TryReadFrom>::try_read(&mut cur);
            let mut b = bytes_;
            let _ = <brec::PacketHeader as TryReadFromBuffered>::try_read(&mut b);
            let _ = <brec::PacketHeader as ReadBlockFromSlice>::read_from_slice(bytes_, false);
        }
        6 => {
            let skip = if starts.contains(&from) { HDR.min(bytes_.len()) } else { 0 };
            let bytes_ = &bytes_[skip..];
            let mut src = Source::new(bytes_.to_vec(), Source::pick_mode(), vec![]);
            let _ = <brec::PayloadHeader as ReadFrom>::read(&mut src);
            let mut cur = std::io::Cursor::new(bytes_);
            let _ = <brec::PayloadHeader as TryReadFrom>::try_read(&mut cur);
            let mut b = bytes_;
            let _ = <brec::PayloadHeader as TryReadFromBuffered>::try_read(&mut b);
        }
        7 => {
            // as if it were a storage
            let env = Env::calm();
            env.quiet.set(true);
            let d = disk(bytes_.to_vec());
            let r: Result<Reader<SFile>, brec::Error> = Reader::new(SFile::new(&d, &env));
            ensure!(bytes_.len() < SLOT || r.is_err(), "opened", "arbitrary bytes open as a storage");
        }
        _ => {
            // an intact table over arbitrary bytes
            let mut lens = Vec::new();
            for _ in 0..1 + pick(6) {
                lens.push(match pick(4) {
                    0 => 1 + pick(64),
                    1 => bytes_.len() as u64,
                    2 => 1 + pick(1 << 13),
                    _ => 1 << (20 + pick(25)),
                });
            }
            let mut img = crate::props::storage::table(&lens);
            img.extend(bytes_);
            let env = Env::calm();
            env.quiet.set(true);
            let d = disk(img);
            if let Ok(mut r) = Reader::new(SFile::new(&d, &env)) {
                let n = r.count();
                let items = r.iter().take(limit as usize * 2).count();
                ensure!(items <= limit as usize, "runaway", "{items} items from {n} listed packets");
                for i in 0..n + 1 {
                    let _ = r.nth(i);
                }
                let items = r.filtered().take(limit as usize * 2).count();
                ensure!(items <= limit as usize, "runaway", "{items} items from {n} listed packets");
                let _ = r.seek(n.saturating_sub(1)).map(|it| it.take(limit as usize).count());
                let _ = r.range_filtered(0, n).take(limit as usize).count();
            }
            probe("hostile_storage");
        }
    }
    Ok(())
}

/// Storages whose tables are intact but lie: absurd lengths, sums that overflow, gaps, tables that
/// point back at themselves, missing packets.
fn hostile_storage() -> Vec<u8> {
    let mut img = Vec::new();
    for _ in 0..range(1, 3) {
        let n = match pick(4) {
            0 => CAP,
            1 => CAP - pick(3) as usize,
            _ => pick(8) as usize,
        };
        let usual = pick(4);
        let one = small_spec(1).enc();
        let mut body: Vec<u8> = Vec::new();
        let mut lens: Vec<u64> = Vec::new();
        for i in 0..n {
            match usual {
                0 => lens.push(1 + i as u64 % 3),
                1 => {
                    // packets of the length the table says
                    lens.push(one.len() as u64);
                    body.extend(&one);
                }
                2 => lens.push(1),
                _ => lens.push(one.len() as u64 + 1),
            }
        }
        for _ in 0..pick(4) {
            if lens.is_empty() {
                break;
            }
            let at = match pick(3) {
                0 => lens.len() - 1,
                1 => 0,
                _ => pick(lens.len() as u64) as usize,
            };
            let others: u64 = lens.iter().enumerate().filter(|(i, _)| *i != at).fold(0, |a, (_, l)| a.wrapping_add(*l));
            lens[at] = match pick(9) {
                0 => 0,
                1 => u64::MAX - pick(3),
                2 => (1 << 63) + pick(3),
                3 => (1 << 63) - 1 - pick(3),
                // the next slot would begin where this one, or the source, begins
                4 => 0u64.wrapping_sub(others).wrapping_sub(SLOT as u64),
                5 => 0u64.wrapping_sub(others).wrapping_sub((img.len() + SLOT) as u64),
                6 => 0u64.wrapping_sub(others),
                7 => 1 << (20 + pick(40)),
                _ => 1 + pick(200),
            };
        }
        img.extend(crate::props::storage::table(&lens));
        match pick(4) {
            0 => img.extend(bytes(pick(300) as usize)),
            1 => {
                body.truncate(pick(body.len() as u64 + 1) as usize);
                img.extend(body);
            }
            _ => img.extend(body),
        }
    }
    img
}

pub fn c04_storage() -> Check {
    let data = hostile_storage();
    let n = data.len();
    // an item an iterator yields may be an error without any bytes behind it
    within_memory(n, move || c04_storage_of(data))
}

fn c04_storage_of(data: Vec<u8>) -> Check {
    let env = Env::calm();
    env.quiet.set(true);
    let limit = (data.len() / SLOT + 1) * CAP;
    let d = disk(data);
    match pick(8) {
        0 => {
            let r: Result<Writer<SFile>, brec::Error> = Writer::new(SFile::new(&d, &env));
            if r.is_ok() {
                probe("hostile_opened");
            }
            return Ok(());
        }
        _ => {}
    }
    let mut r: Reader<SFile> = match Reader::new(SFile::new(&d, &env)) {
        Ok(r) => r,
        Err(_) => {
            probe("hostile_refused");
            return Ok(());
        }
    };
    probe("hostile_opened");
    let n = r.count();
    ensure!(n <= limit, "runaway", "{n} packets counted in tables for {limit}");
    let index = |n: usize| match pick(7) {
        0 => 0,
        1 => n,
        2 => n.saturating_sub(1),
        3 => usize::MAX - pick(2) as usize,
        4 => CAP,
        5 => usize::MAX / 2,
        _ => pick(n as u64 + 2) as usize,
    };
    for _ in 0..range(1, 4) {
        let (what, items) = match pick(7) {
            0 => ("iter", r.iter().take(limit + 1).count()),
            1 => ("filtered", r.filtered().take(limit + 1).count()),
            2 => match r.seek(index(n)) {
                Ok(it) => ("seek", it.take(limit + 1).count()),
                Err(_) => ("seek", 0),
            },
            3 => ("range", r.range(index(n), index(n)).take(limit + 1).count()),
            4 => ("range_filtered", r.range_filtered(index(n), index(n)).take(limit + 1).count()),
            5 => {
                let _ = r.reload();
                ("reload", 0)
            }
            _ => {
                let _ = r.nth(index(n));
                ("nth", 0)
            }
        };
        ensure!(items <= limit, "runaway", "{what} yields more than {limit} items");
    }
    probe("hostile_queried");
    Ok(())
}
