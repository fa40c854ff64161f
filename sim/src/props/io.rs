//! Write paths, incremental reads, the preloading reader.

use crate::core::*;
use crate::disk::*;
use crate::model::*;
use crate::types::*;
use crate::{ensure, fail};
use std::cell::Cell;
use std::io::{BufRead, ErrorKind, IoSlice, Read, Write};
use std::rc::Rc;

fn short(v: &[u8]) -> String {
    format!("{} bytes #{:08x}", v.len(), hash_bytes(v) as u32)
}

// ---------------------------------------------------------------- sinks

/// Where a write path writes to: takes what it likes, fails when it likes.
struct Sink {
    out: Vec<u8>,
    env: std::rc::Rc<Env>,
    /// How a vectored write is served: like a socket/file, or slice by slice.
    /// How many slices a vectored write takes at most.
    most: usize,
    /// A vectored write had more slices than that.
    cut: bool,
    fatal: bool,
    eintr: u64,
    full: bool,
    /// Takes nothing any more and does not say why, like a slice that is full.
    stuck: bool,
}

const W: &[Fault] = &[
    Fault::ShortWrite,
    Fault::IntrWrite,
    Fault::ErrWrite,
    Fault::NoSpace,
    Fault::ZeroWrite,
];

impl Sink {
    fn new(i: Inject, first_only: bool) -> Self {
        let most = match (first_only, pick(4)) {
            (true, _) => 1,
            (_, 0) => 1 + pick(8) as usize,
            (_, 1) => usize::MAX,
            // as an operating system does
            _ => 1024,
        };
        Sink {
            out: vec![],
            env: Env::with(i),
            most,
            cut: false,
            fatal: false,
            eintr: 0,
            full: false,
            stuck: false,
        }
    }
    /// How many of `n` bytes this call takes.
    fn grant(&mut self, n: usize) -> std::io::Result<usize> {
        io_op();
        if self.stuck {
            return Ok(0);
        }
        if self.full {
            self.fatal = true;
            return Err(ErrorKind::StorageFull.into());
        }
        match self.env.hit(W, self.out.len() as u64) {
            None => Ok(n),
            Some(Fault::ShortWrite) => Ok(if n > 1 { 1 + pick(n as u64 - 1) as usize } else { n }),
            Some(Fault::IntrWrite) => {
                self.eintr += 1;
                Err(ErrorKind::Interrupted.into())
            }
            Some(Fault::ZeroWrite) => {
                self.fatal = true;
                self.stuck = chance(1, 2);
                Ok(0)
            }
            Some(Fault::NoSpace) => {
                self.full = true;
                let part = pick(n as u64) as usize;
                if part == 0 {
                    self.fatal = true;
                    return Err(ErrorKind::StorageFull.into());
                }
                Ok(part)
            }
            Some(_) => {
                self.fatal = true;
                Err(ErrorKind::ConnectionReset.into())
            }
        }
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let n = self.grant(buf.len())?;
        self.out.extend_from_slice(&buf[..n]);
        ev("write", self.out.len() as u64, n as u64);
        Ok(n)
    }
    fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> std::io::Result<usize> {
        let mut all = Vec::new();
        let mut taken = 0;
        for b in bufs {
            if taken == self.most {
                self.cut = true;
                if taken == 1024 {
                    probe("more_slices_than_a_call_takes");
                }
                break;
            }
            taken += usize::from(!b.is_empty());
            all.extend_from_slice(b);
        }
        self.write(&all)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// One of the write paths over one entity.
fn emit(kind: u64, what: u64, spec: &Spec, sink: &mut Sink) -> Option<(Vec<u8>, std::io::Result<Option<usize>>)> {
    match what {
        0 => {
            let mut p = spec.packet();
            let r = match kind {
                0 => p.write_all(sink).map(|_| None),
                1 => p.write_vectored_all(sink).map(|_| None),
                2 => WriteMutTo::write(&mut p, sink).map(Some),
                _ => p.write_vectored(sink).map(Some),
            };
            Some((spec.enc(), r))
        }
        1 => {
            let b = spec.blocks.first()?;
            let want = enc_blk(b);
            let blk = blk_to(b);
            let r = match kind {
                0 => blk.write_all(sink).map(|_| None),
                1 => blk.write_vectored_all(sink).map(|_| None),
                2 => WriteTo::write(&blk, sink).map(Some),
                _ => blk.write_vectored(sink).map(Some),
            };
            Some((want, r))
        }
        _ => {
            let p = spec.payload.as_ref()?;
            let want = enc_pay(p);
            let mut pay = pay_to(p);
            let r = match kind {
                0 => WriteMutTo::write_all(&mut pay, sink).map(|_| None),
                1 => WriteVectoredMutTo::write_vectored_all(&mut pay, sink).map(|_| None),
                2 => WriteMutTo::write(&mut pay, sink).map(Some),
                _ => WriteVectoredMutTo::write_vectored(&mut pay, sink).map(Some),
            };
            Some((want, r))
        }
    }
}

/// The sizes an entity reports, and the slices it offers, are those of its bytes.
fn sizes(spec: &Spec) -> Check {
    let want = spec.enc();
    let mut total = 0;
    for b in &spec.blocks {
        let bytes = enc_blk(b);
        let size = brec::Size::size(&blk_to(b));
        ensure!(size == bytes.len() as u64, "wrong-size", "a block of {} bytes reports {size}", bytes.len());
        match <BlockReferred as brec::ReadBlockFromSlice>::read_from_slice(&bytes, false) {
            Ok(view) => ensure!(
                brec::Size::size(&view) == size,
                "wrong-size",
                "the view of a block of {size} bytes reports {}",
                brec::Size::size(&view)
            ),
            Err(e) => fail!("roundtrip", "a written block has no view: {e}"),
        }
        total += size;
    }
    if let Some(p) = &spec.payload {
        let bytes = enc_pay(p).len();
        let pay = pay_to(p);
        let r = brec::PayloadSize::size(&pay)
            .and_then(|s| Ok((s as usize, PayloadHeader::ssize(&pay)?, PayloadHeader::new(&pay)?)));
        match r {
            Ok((body, head, header)) => ensure!(
                body + head == bytes && header.size() == head && header.payload_len() == body,
                "wrong-size",
                "a payload of {bytes} bytes reports {body} behind {head}; its header {} behind {}",
                header.payload_len(),
                header.size()
            ),
            Err(e) => fail!("unexpected-error", "the size of a payload: {e}"),
        }
    }
    let mut p = spec.packet();
    match PacketHeader::new(&p.blocks, p.payload.as_ref()) {
        Ok(h) => ensure!(
            h.size as usize + HDR == want.len() && h.blocks_len == total && h.payload == spec.payload.is_some(),
            "wrong-size",
            "a packet of {} bytes, {total} of blocks, has the header {h:?}",
            want.len()
        ),
        Err(e) => fail!("unexpected-error", "the header of a packet: {e}"),
    }
    match WriteVectoredMutTo::slices(&mut p) {
        Ok(s) => ensure!(
            s.get().iter().flat_map(|s| s.iter().copied()).eq(want.iter().copied()),
            "wrong-bytes",
            "the slices of a packet are not its bytes"
        ),
        Err(e) => fail!("unexpected-error", "the slices of a packet: {e}"),
    }
    Ok(())
}

pub fn c06_write() -> Check {
    allow_weak();
    let broken = chance(1, 20);
    let spec = if broken {
        unwritable()
    } else if chance(1, 2000) {
        huge_spec(word())
    } else {
        gen_spec(12, 5, false)
    };
    if !broken && chance(1, 4) {
        sizes(&spec)?;
    }
    let what = if broken { 0 } else { pick(3) };
    let kind = pick(4);
    let mode = pick(4);
    let kinds = match mode {
        0 => vec![],
        1 => vec![Fault::ShortWrite],
        2 => vec![Fault::ShortWrite, Fault::IntrWrite],
        _ => W.to_vec(),
    };
    let n = 1 + logsize(6);
    let inject = Inject::new(kinds, 1 + pick(4), n);
    let mut sink = Sink::new(inject, chance(1, 3));
    let Some((want, r)) = emit(kind, what, &spec, &mut sink) else {
        return Ok(());
    };
    let quiet = sink.env.inject.borrow().fired == 0;
    if broken {
        let many = spec.blocks.len() > 255;
        let unfit = matches!(&spec.payload, Some(Pay::Frail(f)) if f.body.first() == Some(&NO_FIT));
        // a single call on a sink that takes only a part may end before it meets the problem
        let early = kind == 2 && !quiet && !many && matches!(r, Ok(Some(n)) if n == sink.out.len());
        ensure!(r.is_err() || early, "unwritable-written", "a packet that cannot be read back was written: {} blocks", spec.blocks.len());
        ensure!(
            match many {
                true => sink.out.is_empty(),
                // the size in the header of a packet that doesn't fit is nobody's business
                false => sink.out.len() <= want.len() && sink.out.iter().enumerate().all(|(i, b)| *b == want[i] || unfit && ((8..16).contains(&i) || (25..29).contains(&i))),
            },
            "wrong-bytes",
            "{} bytes of a packet that cannot be written went out: {}",
            sink.out.len(),
            short(&sink.out)
        );
        probe("unwritable_refused");
        return Ok(());
    }
    let name = ["write_all", "write_vectored_all", "write", "write_vectored"][kind as usize];
    ensure!(
        want.starts_with(&sink.out),
        "wrong-bytes",
        "{name} emitted {} which is no prefix of the documented layout {}",
        short(&sink.out),
        short(&want)
    );
    match r {
        Ok(None) => {
            ensure!(
                sink.out == want,
                "short-success",
                "{name} reported success after {} of {} bytes",
                sink.out.len(),
                want.len()
            );
            if !quiet {
                probe("complete_despite_faults");
            }
        }
        Ok(Some(n)) => {
            ensure!(
                n == sink.out.len(),
                "wrong-count",
                "{name} returned {n} but {} bytes went out",
                sink.out.len()
            );
            ensure!(
                !quiet || sink.cut || n == want.len(),
                "short-write",
                "{name} returned {n} of {} on a sink that takes everything",
                want.len()
            );
        }
        Err(e) => {
            ensure!(!quiet, "unexpected-error", "{name} failed on a healthy sink: {e}");
            if kind < 2 {
                ensure!(
                    sink.fatal,
                    "eintr-fatal",
                    "{name} gave up although the sink only was interrupted {} times: {e}",
                    sink.eintr
                );
                ensure!(
                    sink.out.len() < want.len() || sink.fatal,
                    "late-error",
                    "{name} failed after emitting everything: {e}"
                );
            }
            probe("reported_failure");
        }
    }
    Ok(())
}

/// A session: several packets through mixed write paths into one sink; the stream that
/// results is their concatenation, and reading it back yields the same packets.
pub fn c06_session() -> Check {
    allow_weak();
    let n = range(1, 6);
    let mut sink = Sink::new(
        Inject::new(vec![Fault::ShortWrite, Fault::IntrWrite], 4, 40),
        chance(1, 3),
    );
    let mut want: Vec<u8> = Vec::new();
    let mut packets = Vec::new();
    for i in 0..n {
        let spec = gen_spec(9, 4, false);
        let before = sink.out.len();
        let Some((bytes, r)) = emit(pick(2), 0, &spec, &mut sink) else { continue };
        if let Err(e) = r {
            fail!("eintr-fatal", "packet {i} of the session failed: {e}");
        }
        want.extend(&bytes);
        ensure!(
            sink.out[before..] == bytes[..],
            "wrong-bytes",
            "packet {i}: {} instead of {}",
            short(&sink.out[before..]),
            short(&bytes)
        );
        packets.push(bytes);
    }
    let mut cur = std::io::Cursor::new(sink.out.clone());
    for (i, w) in packets.iter().enumerate() {
        match <Packet as ReadFrom>::read(&mut cur) {
            Ok(p) => {
                let e = enc_packet(&p);
                ensure!(e == *w, "roundtrip", "packet {i} read back differs: {} / {}", short(&e), short(w));
            }
            Err(e) => fail!("roundtrip", "packet {i} cannot be read back: {e}"),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- incremental reads

/// A file that grows between the reader's attempts.
fn growing() -> (std::rc::Rc<std::cell::RefCell<Disk>>, SFile) {
    let d = disk(vec![]);
    let env = Env::with(Inject::new(vec![Fault::ShortRead, Fault::IntrRead], 5, 20));
    let f = SFile::new(&d, &env);
    (d, f)
}

fn next_len(len: usize, total: usize, ends: &[usize]) -> usize {
    if len >= total {
        return total;
    }
    // something huge doesn't arrive byte by byte
    let least = 1 + if total > 20_000 { total / 1000 } else { 0 };
    let to = match pick(5) {
        0 => total,
        1 => len + least,
        2 => len + least * (1 + logsize(6) as usize),
        3 => {
            // just around the next packet's boundaries
            let e = ends.iter().find(|e| **e > len).copied().unwrap_or(total);
            (e + 3).saturating_sub(pick(7) as usize).max(len + 1)
        }
        _ => {
            // header complete, body short by less than a header
            let e = ends.iter().find(|e| **e > len).copied().unwrap_or(total);
            e.saturating_sub(1 + pick(40) as usize).max(len + 1)
        }
    };
    to.min(total)
}

#[derive(Clone, Copy, PartialEq)]
enum Item {
    Packet,
    Block,
    Header,
    /// Header of a payload, and the payload behind it.
    PayHead,
    PayBody,
}

fn gen_items(item: Item, data: &mut Vec<u8>, ends: &mut Vec<usize>) -> Vec<(Item, Vec<u8>)> {
    let mut items = Vec::new();
    for _ in 0..range(1, 6) {
        match item {
            Item::Packet if chance(1, 3000) => items.push((item, huge_spec(items.len() as u64).enc())),
            Item::Packet => items.push((item, gen_spec(9, 3, true).enc())),
            Item::Block => items.push((item, enc_blk(&gen_blk()))),
            Item::Header => {
                let s = pick(1000);
                items.push((item, header(s, s.min(pick(100)), chance(1, 2))))
            }
            Item::PayHead | Item::PayBody => {
                let p = gen_pay(8, true);
                let e = enc_pay(&p);
                let (h, b) = e.split_at(e.len() - pay_body(&p).len());
                items.push((Item::PayHead, h.to_vec()));
                items.push((Item::PayBody, b.to_vec()));
            }
        }
    }
    for (_, e) in &items {
        data.extend(e);
        ends.push(data.len());
    }
    items
}

fn enc_pay_head(h: &brec::PayloadHeader) -> Vec<u8> {
    let sig = h.sig.as_slice();
    let crc = h.crc.as_slice();
    let mut v = vec![sig.len() as u8];
    v.extend(sig);
    v.push(crc.len() as u8);
    v.extend(crc);
    v.extend(h.len.to_le_bytes());
    v
}

pub fn c07_seekable() -> Check {
    allow_weak();
    let item = match pick(6) {
        0 | 1 => Item::Packet,
        2 => Item::Block,
        3 => Item::Header,
        _ => Item::PayHead,
    };
    let mut data = Vec::new();
    let mut ends = Vec::new();
    let items = gen_items(item, &mut data, &mut ends);
    let mut head = None::<brec::PayloadHeader>;
    let (d, mut f) = growing();
    let (mut at, mut i) = (0usize, 0usize);
    let mut len = next_len(0, data.len(), &ends);
    if chance(1, 3) {
        len = 0;
    }
    d.borrow_mut().data = data[..len].to_vec();
    let mut tries = 0;
    while i < items.len() {
        tries += 1;
        if tries > 4 * data.len() + 50 {
            fail!("no-progress", "item {i} not read although {len} of {} bytes are there", data.len());
        }
        let (item, want) = &items[i];
        let end = at + want.len();
        let before = f.pos;
        let got: Result<ReadStatus<Vec<u8>>, brec::Error> = match item {
            Item::Packet => map(<Packet as TryReadFrom>::try_read(&mut f), |p| enc_packet(&p)),
            Item::Block => map(<Block as TryReadFrom>::try_read(&mut f), |b| enc_blk(&blk_from(&b))),
            Item::Header => map(<brec::PacketHeader as TryReadFrom>::try_read(&mut f), |h| {
                header(h.size, h.blocks_len, h.payload)
            }),
            Item::PayHead => map(<brec::PayloadHeader as TryReadFrom>::try_read(&mut f), |h| {
                let e = enc_pay_head(&h);
                head = Some(h);
                e
            }),
            Item::PayBody => {
                let Some(h) = head.as_ref() else { fail!("harness", "no payload header") };
                map(<Payload as brec::TryExtractPayloadFrom<Payload>>::try_read(&mut f, h), |p| {
                    pay_body(&pay_from(&p))
                })
            }
        };
        match got {
            Ok(ReadStatus::Success(v)) => {
                ensure!(len >= end, "read-ahead", "item {i} returned before its last byte arrived");
                ensure!(v == *want, "wrong-item", "item {i}: {} instead of {}", short(&v), short(want));
                ensure!(
                    f.pos == end as u64,
                    "position",
                    "after item {i} the position is {} instead of {end}",
                    f.pos
                );
                at = end;
                i += 1;
            }
            Ok(ReadStatus::NotEnoughData(n)) => {
                ensure!(
                    len < end,
                    "complete-refused",
                    "item {i} is complete ({len} >= {end}) but {n} more bytes are demanded"
                );
                let missing = (end - len) as u64;
                ensure!(
                    n >= 1 && n <= missing,
                    "wrong-demand",
                    "item {i} misses {missing} bytes, {n} demanded"
                );
                ensure!(
                    f.pos == before,
                    "position",
                    "NotEnoughData moved the position from {before} to {}",
                    f.pos
                );
                probe("partial_item");
                sched("partial", at as u64, (len - at.min(len)) as u64);
                // either wait exactly as long as told, or for any other amount
                let to = if chance(1, 3) {
                    (len + n as usize).min(data.len())
                } else {
                    next_len(len, data.len(), &ends)
                };
                len = to.max(len + 1).min(data.len());
                d.borrow_mut().data = data[..len].to_vec();
            }
            Err(e) => fail!("unexpected-error", "item {i} ({len} of {} bytes there): {e}", data.len()),
        }
    }
    // nothing left: a further attempt reports missing data and stays
    if let Ok(ReadStatus::NotEnoughData(_)) = map(<Packet as TryReadFrom>::try_read(&mut f), |p| enc_packet(&p)) {
        ensure!(f.pos == data.len() as u64, "position", "position moved at the end");
    } else {
        fail!("end", "no NotEnoughData behind the last item");
    }
    Ok(())
}

fn map<A, B>(
    r: Result<ReadStatus<A>, brec::Error>,
    f: impl FnOnce(A) -> B,
) -> Result<ReadStatus<B>, brec::Error> {
    match r {
        Ok(ReadStatus::Success(a)) => Ok(ReadStatus::Success(f(a))),
        Ok(ReadStatus::NotEnoughData(n)) => Ok(ReadStatus::NotEnoughData(n)),
        Err(e) => Err(e),
    }
}

/// Damage at rest: a bit, or a short range that was zeroed or overwritten.
fn harm(bad: &mut [u8], at: usize) {
    match pick(4) {
        0 => bad[at] ^= 1 << pick(8),
        3 => relen(bad, at),
        1 => {
            let end = (at + 1 + pick(16) as usize).min(bad.len());
            bad[at..end].fill(0);
        }
        _ => {
            let end = (at + 1 + pick(16) as usize).min(bad.len());
            let g = junk_plain(end - at);
            bad[at..end].copy_from_slice(&g);
        }
    }
}

/// A damaged packet, block, header or payload is read directly: an error or what was written.
pub fn c03_direct() -> Check {
    let what = pick(4);
    let blk = gen_blk();
    let pay = gen_pay(8, false);
    let mut head_len = 0;
    let (good, name) = match what {
        0 => (enc_blk(&blk), "block"),
        1 => {
            let e = enc_pay(&pay);
            head_len = e.len() - pay_body(&pay).len();
            (e, "payload")
        }
        2 => {
            let s = pick(1000);
            (header(s, s.min(pick(100)), chance(1, 2)), "packet header")
        }
        _ => (gen_spec(8, 3, false).enc(), "packet"),
    };
    let mut bad = good.clone();
    // A payload header that is read on its own has no checksum, and an empty payload's may be all
    // zeroes: only damage to the body, or to the checksum, can be told.
    let (from, to) = match what {
        1 if chance(1, 2) || head_len == good.len() => {
            let crc = 2 + good[0] as usize;
            (crc, crc + good[crc - 1] as usize)
        }
        1 => (head_len, good.len()),
        _ => (0, good.len()),
    };
    let at = from + pick((to - from) as u64) as usize;
    if what == 3 && chance(1, 4) {
        bad = alien();
        fault("alien_packet", 0);
    } else {
        harm(&mut bad[..to], at);
        if bad == good {
            return Ok(());
        }
        fault("damaged_item", at as u64);
    }
    let mut data = bad.clone();
    if chance(1, 2) {
        data.extend(gen_spec(6, 2, false).enc());
    }
    let how = pick(10);
    let mut src = Source::new(data.clone(), Source::pick_mode(), vec![]);
    let mut slice = &data[..];
    let mut cur = std::io::Cursor::new(&data[..]);
    let got: Result<Option<Vec<u8>>, brec::Error> = match what {
        0 => match how {
            0 => <Block as ReadFrom>::read(&mut src).map(|b| Some(enc_blk(&blk_from(&b)))),
            1 => <Block as ReadBlockFrom>::read(&mut src, false).map(|b| Some(enc_blk(&blk_from(&b)))),
            2 => typed_read(&blk, &mut src, false).map(|b| Some(enc_blk(&b))),
            3 => typed_read(&blk, &mut &data[4..], true).map(|b| Some(enc_blk(&b))),
            4 => <BlockReferred as ReadBlockFromSlice>::read_from_slice(slice, false).map(|b| Some(enc_blk(&blk_from_ref(&b)))),
            5 => typed_slice(&blk, slice, false).map(|b| Some(enc_blk(&b))),
            6 => typed_slice(&blk, &slice[4..], true).map(|b| Some(enc_blk(&b))),
            7 => typed_owned(&blk, slice).map(|b| Some(enc_blk(&b))),
            8 => done(<Block as TryReadFrom>::try_read(&mut cur)).map(|b| b.map(|b| enc_blk(&blk_from(&b)))),
            _ => done(<Block as TryReadFromBuffered>::try_read(&mut slice)).map(|b| b.map(|b| enc_blk(&blk_from(&b)))),
        },
        1 => match <brec::PayloadHeader as ReadFrom>::read(&mut cur) {
            Err(e) => Err(e),
            Ok(h) => {
                let at = (cur.position() as usize).min(data.len());
                slice = &data[at..];
                src = Source::new(slice.to_vec(), Source::pick_mode(), vec![]);
                match how % 3 {
                    0 => <Payload as brec::ExtractPayloadFrom<Payload>>::read(&mut src, &h).map(Some),
                    1 => done(<Payload as brec::TryExtractPayloadFrom<Payload>>::try_read(&mut cur, &h)),
                    _ => done(<Payload as brec::TryExtractPayloadFromBuffered<Payload>>::try_read(&mut slice, &h)),
                }
                .map(|p| p.map(|p| enc_pay(&pay_from(&p))))
            }
        },
        2 => match how % 4 {
            0 => <brec::PacketHeader as ReadFrom>::read(&mut src).map(Some),
            1 => <brec::PacketHeader as ReadBlockFromSlice>::read_from_slice(slice, false).map(Some),
            2 => done(<brec::PacketHeader as TryReadFrom>::try_read(&mut cur)),
            _ => done(<brec::PacketHeader as TryReadFromBuffered>::try_read(&mut slice)),
        }
        .map(|h| h.map(|h| header(h.size, h.blocks_len, h.payload))),
        _ => match how % 4 {
            0 => <Packet as ReadFrom>::read(&mut src).map(Some),
            1 => done(<Packet as TryReadFrom>::try_read(&mut cur)),
            2 => done(<Packet as TryReadFromBuffered>::try_read(&mut slice)),
            _ => Packet::filtered(&mut cur, &Rules::default()).map(|s| match s {
                brec::LookInStatus::Accepted(_, p) => Some(p),
                _ => None,
            }),
        }
        .map(|p| p.map(|p| enc_packet(&p))),
    };
    match got {
        Ok(Some(e)) => {
            probe("damage_harmless");
            // the signature is not looked at where the caller has read it
            let unseen = what == 0 && matches!(how, 3 | 6);
            // and truth values have more spellings than 0 and 1
            let harmless = bad.len() == good.len()
                && (0..good.len()).all(|i| bad[i] == good[i] || unseen && i < 4 || good[i] <= 1);
            ensure!(e == good && harmless, "silent-damage", "a damaged {name} was read ({how}) as {}", short(&e));
        }
        Ok(None) => probe("damage_incomplete"),
        Err(e) => {
            probe("damage_error");
            // a block or payload whose signature is intact is damaged, not an unknown one
            let sig = if what == 0 { 4 } else { 1 + good[0] as usize };
            ensure!(
                what > 1 || bad[..sig] != good[..sig] || !matches!(e, brec::Error::SignatureDismatch),
                "damage-misnamed",
                "a damaged {name} with an intact signature is reported ({how}) as: {e}"
            );
        }
    }
    Ok(())
}

fn done<T>(r: Result<ReadStatus<T>, brec::Error>) -> Result<Option<T>, brec::Error> {
    r.map(|s| match s {
        ReadStatus::Success(v) => Some(v),
        ReadStatus::NotEnoughData(_) => None,
    })
}

/// A damaged packet, block or packet header, or an impossible payload header, in a seekable or buffered
/// source: an error leaves the position where it was, nothing else than the stored item is
/// ever returned.
pub fn c07_damaged() -> Check {
    let what = pick(5);
    let (good, name) = match what {
        0 | 1 => (gen_spec(8, 3, false).enc(), "packet"),
        2 => (enc_blk(&gen_blk()), "block"),
        4 => {
            let s = pick(1000);
            (header(s, s.min(pick(100)), chance(1, 2)), "packet header")
        }
        _ => {
            let p = gen_pay(6, false);
            let mut e = enc_pay(&p);
            e.truncate(e.len() - pay_body(&p).len());
            (e, "payload header")
        }
    };
    let lead = gen_spec(6, 2, false).enc();
    let mut bad = good.clone();
    let at = pick(bad.len() as u64) as usize;
    if what == 3 {
        // only the two length fields can be seen to be wrong
        let at = if chance(1, 2) { 0 } else { 1 + bad[0] as usize };
        bad[at] = [0, 1, 5, 12, 65, 129, 255][pick(7) as usize];
    } else {
        harm(&mut bad, at);
    }
    fault("damaged_item", at as u64);
    let mut data = lead.clone();
    data.extend(&bad);
    if chance(1, 2) {
        data.extend(gen_spec(6, 2, false).enc());
    }
    let start = lead.len() as u64;
    let seekable = chance(1, 2);
    let (got, pos) = if seekable {
        let d = disk(data);
        let env = Env::with(Inject::new(vec![Fault::ShortRead], 4, 4));
        let mut f = SFile::new(&d, &env);
        f.pos = start;
        let got = match what {
            0 | 1 => map(<Packet as TryReadFrom>::try_read(&mut f), |p| enc_packet(&p)),
            2 => map(<Block as TryReadFrom>::try_read(&mut f), |b| enc_blk(&blk_from(&b))),
            4 => map(<brec::PacketHeader as TryReadFrom>::try_read(&mut f), |h| {
                header(h.size, h.blocks_len, h.payload)
            }),
            _ => map(<brec::PayloadHeader as TryReadFrom>::try_read(&mut f), |h| enc_pay_head(&h)),
        };
        (got, f.pos)
    } else {
        let mut feed = Feed::new(data, vec![], 0);
        feed.pos = start as usize;
        let got = match what {
            0 | 1 => map(<Packet as TryReadFromBuffered>::try_read(&mut feed), |p| enc_packet(&p)),
            2 => map(<Block as TryReadFromBuffered>::try_read(&mut feed), |b| enc_blk(&blk_from(&b))),
            4 => map(<brec::PacketHeader as TryReadFromBuffered>::try_read(&mut feed), |h| {
                header(h.size, h.blocks_len, h.payload)
            }),
            _ => map(<brec::PayloadHeader as TryReadFromBuffered>::try_read(&mut feed), |h| enc_pay_head(&h)),
        };
        (got, feed.pos as u64)
    };
    match got {
        Ok(ReadStatus::Success(e)) => {
            ensure!(
                e == good || (what == 3 && bad == e),
                "wrong-item",
                "a damaged {name} was returned as {}",
                short(&e)
            );
        }
        Ok(ReadStatus::NotEnoughData(_)) => {
            ensure!(pos == start, "position", "NotEnoughData moved the position to {pos}");
        }
        Err(_) => {
            probe("damage_error");
            ensure!(
                pos == start,
                "position",
                "an error for a damaged {name} moved the position from {start} to {pos}"
            );
        }
    }
    Ok(())
}

/// Buffered source whose data arrives in portions; `fill_buf` shows the current portion only.
struct Feed {
    data: Vec<u8>,
    cuts: Vec<usize>,
    pos: usize,
    /// End of the portion that was fetched already: no error before it is consumed.
    fetched: usize,
    errs: Option<u64>,
    left: u64,
    errors: u64,
    /// How much was taken out of it, to be seen from outside.
    taken: Rc<Cell<usize>>,
}

impl Feed {
    fn new(data: Vec<u8>, cuts: Vec<usize>, errs: u64) -> Self {
        let mut f = Feed {
            data,
            cuts,
            pos: 0,
            fetched: 0,
            errs: None,
            left: errs,
            errors: 0,
            taken: Rc::default(),
        };
        f.arm();
        f
    }
    fn arm(&mut self) {
        self.errs = None;
        if self.left > 0 {
            self.left -= 1;
            self.errs = gap(5);
        }
    }
    fn avail(&self) -> usize {
        self.cuts
            .iter()
            .find(|c| **c > self.pos)
            .copied()
            .unwrap_or(self.data.len())
    }
    fn trip(&mut self) -> std::io::Result<()> {
        io_op();
        if self.pos < self.fetched {
            return Ok(());
        }
        if let Some(n) = self.errs.as_mut() {
            if *n == 0 {
                self.arm();
                self.errors += 1;
                fault("would_block", self.pos as u64);
                return Err(ErrorKind::WouldBlock.into());
            }
            *n -= 1;
        }
        self.fetched = self.avail();
        Ok(())
    }
}

impl Read for Feed {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.trip()?;
        let n = (self.avail() - self.pos).min(buf.len());
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.taken.set(self.pos);
        Ok(n)
    }
}

impl BufRead for Feed {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        self.trip()?;
        let a = self.avail();
        Ok(&self.data[self.pos..a])
    }
    fn consume(&mut self, amt: usize) {
        self.pos += amt;
        self.taken.set(self.pos);
    }
}

fn cuts_of(total: usize, ends: &[usize]) -> Vec<usize> {
    let mut c = Vec::new();
    let mut at = 0;
    while at < total && c.len() < 4000 {
        let to = next_len(at, total, ends);
        if to < total {
            c.push(to);
            sched("cut", to as u64, 0);
        }
        at = to;
    }
    c
}

fn not_ready(e: &std::io::Error) -> bool {
    e.kind() == ErrorKind::WouldBlock
}

pub fn c07_buffered() -> Check {
    allow_weak();
    let item = match pick(6) {
        0 | 1 => Item::Packet,
        2 | 3 => Item::Block,
        4 => Item::Header,
        _ => Item::PayHead,
    };
    let mut data = Vec::new();
    let mut ends = Vec::new();
    let items = gen_items(item, &mut data, &mut ends);
    let total = data.len();
    let errs = if chance(1, 2) { range(1, 20) } else { 0 };
    let mut feed = Feed::new(data, cuts_of(total, &ends), errs);
    let mut reader = brec::BufferedReader::new(&mut feed);
    let mut head = None::<brec::PayloadHeader>;
    let mut i = 0;
    let mut delivered = 0;
    let mut tries = 0;
    while i < items.len() {
        tries += 1;
        if tries > 2 * total + 100 {
            fail!("no-progress", "item {i} of {} is never returned", items.len());
        }
        let have = match reader.len() {
            Ok(n) => n,
            Err(e) if not_ready(&e) => continue,
            Err(e) => fail!("unexpected-error", "{e}"),
        };
        let (item, want) = &items[i];
        // the header of a payload is only looked at; a payload is read when it is known to be there
        let looks = *item == Item::PayHead;
        let got: Result<ReadStatus<Vec<u8>>, brec::Error> = match item {
            Item::Packet => map(<Packet as TryReadFromBuffered>::try_read(&mut reader), |p| enc_packet(&p)),
            Item::Block => map(<Block as TryReadFromBuffered>::try_read(&mut reader), |b| enc_blk(&blk_from(&b))),
            Item::Header => map(<brec::PacketHeader as TryReadFromBuffered>::try_read(&mut reader), |h| {
                header(h.size, h.blocks_len, h.payload)
            }),
            Item::PayHead => map(<brec::PayloadHeader as TryReadFromBuffered>::try_read(&mut reader), |h| {
                let e = enc_pay_head(&h);
                head = Some(h);
                e
            }),
            Item::PayBody => {
                let Some(h) = head.as_ref() else { fail!("harness", "no payload header") };
                if have < want.len() {
                    Ok(ReadStatus::NotEnoughData((want.len() - have) as u64))
                } else {
                    map(
                        <Payload as brec::TryExtractPayloadFromBuffered<Payload>>::try_read(&mut reader, h),
                        |p| pay_body(&pay_from(&p)),
                    )
                }
            }
        };
        match got {
            Ok(ReadStatus::Success(v)) => {
                ensure!(v == *want, "wrong-item", "item {i}: {} instead of {}", short(&v), short(want));
                if looks {
                    reader.consume(want.len());
                }
                delivered += want.len();
                ensure!(
                    reader.consumed() == delivered,
                    "position",
                    "{} bytes consumed after item {i}, it ends at {delivered}",
                    reader.consumed()
                );
                i += 1;
            }
            Ok(ReadStatus::NotEnoughData(n)) => {
                ensure!(
                    have < want.len(),
                    "complete-refused",
                    "item {i} is complete ({have} bytes) but {n} more demanded"
                );
                ensure!(
                    n >= 1 && n as usize <= want.len() - have,
                    "wrong-demand",
                    "item {i} misses {} bytes, {n} demanded",
                    want.len() - have
                );
                ensure!(
                    reader.consumed() == delivered,
                    "position",
                    "NotEnoughData consumed {} bytes of item {i}",
                    reader.consumed() - delivered
                );
                probe("partial_item");
                match reader.refill() {
                    Ok(_) => {}
                    Err(e) if not_ready(&e) => {}
                    Err(e) => fail!("unexpected-error", "{e}"),
                }
            }
            Err(brec::Error::Io(e)) if not_ready(&e) => {
                // nothing is lost: the same item is there when the source is ready again
                ensure!(
                    reader.consumed() == delivered,
                    "position",
                    "a source that is not ready consumed {} bytes of item {i}",
                    reader.consumed() - delivered
                );
            }
            Err(e) => fail!("unexpected-error", "item {i} with {have} of {} bytes: {e}", want.len()),
        }
    }
    Ok(())
}

/// Blocks of a plain stream: read as any block, or as a block of a known type with the
/// signature read by the caller; from the stream and from a slice.
pub fn c01_blocks() -> Check {
    allow_weak();
    let n = range(1, 10);
    let mut data = Vec::new();
    let mut want = Vec::new();
    for _ in 0..n {
        let b = gen_blk();
        let e = enc_blk(&b);
        data.extend(&e);
        want.push((b, e));
    }
    if chance(1, 3) {
        // slices
        let mut at = 0;
        for (i, (b, w)) in want.iter().enumerate() {
            let tail = if chance(1, 2) { &data[at..] } else { &data[at..at + w.len()] };
            let how = pick(4);
            let got = match how {
                0 => <BlockReferred as ReadBlockFromSlice>::read_from_slice(tail, false).map(|b| blk_from_ref(&b)),
                1 => typed_slice(b, tail, false),
                2 => typed_slice(b, &tail[4..], true),
                _ => typed_owned(b, tail),
            };
            match got {
                Ok(b) => {
                    let e = enc_blk(&b);
                    ensure!(e == *w, "wrong-block", "block {i} of a slice ({how}): {} instead of {}", short(&e), short(w));
                }
                Err(e) => fail!("unexpected-error", "block {i} of {n} in a slice ({how}): {e}"),
            }
            at += w.len();
        }
        probe("blocks_of_slices");
        return Ok(());
    }
    let mut src = Source::new(data, Source::pick_mode(), vec![]).with_errors(
        vec![ErrorKind::Interrupted],
        pick(6),
        6,
    );
    for (i, (b, w)) in want.iter().enumerate() {
        let how = pick(4);
        let got = match how {
            0 => <Block as ReadFrom>::read(&mut src).map(|b| blk_from(&b)),
            1 => <Block as ReadBlockFrom>::read(&mut src, false).map(|b| blk_from(&b)),
            2 => typed_read(b, &mut src, false),
            _ => {
                let mut sig = [0u8; 4];
                src.read_exact(&mut sig).map_err(brec::Error::from).and_then(|_| typed_read(b, &mut src, true))
            }
        };
        match got {
            Ok(b) => {
                let e = enc_blk(&b);
                ensure!(e == *w, "wrong-block", "block {i} ({how}): {} instead of {}", short(&e), short(w));
            }
            Err(e) => fail!("unexpected-error", "block {i} of {n} ({how}): {e}"),
        }
    }
    ensure!(src.pos == src.data.len(), "over-read", "{} bytes left", src.data.len() - src.pos);
    Ok(())
}

// ---------------------------------------------------------------- BufferedReader

pub fn c17_transparent() -> Check {
    let bits = if chance(1, 25) { 15 } else { 9 };
    let total = 1 + logsize(bits) as usize;
    let data = bytes(total);
    let errs = if chance(1, 2) { pick(6) } else { 0 };
    // the source shows its content in pieces, often of the same size
    let cuts = match pick(3) {
        0 => cuts_of(total, &[]),
        1 => {
            let n = (1 + logsize(bits - 5) as usize).max(total / 2000);
            sched("piece", n as u64, 0);
            (1..total).filter(|at| at % n == 0).collect()
        }
        _ => {
            let ends: Vec<usize> = (0..pick(12)).map(|_| pick(total as u64) as usize).collect();
            let mut c: Vec<usize> = ends.into_iter().filter(|e| *e > 0).collect();
            c.sort_unstable();
            c.dedup();
            c.iter().for_each(|at| sched("cut", *at as u64, 0));
            c
        }
    };
    let mut feed = Feed::new(data.clone(), cuts, errs);
    let taken = feed.taken.clone();
    let mut r = brec::BufferedReader::new(&mut feed);
    let mut at = 0usize;
    let ops = range(1, 60);
    for _ in 0..ops {
        match pick(6) {
            0 => {
                let room = if chance(1, 12) { 0 } else { 1 + logsize(bits - 2) as usize };
                let mut b = vec![0u8; room];
                match r.read(&mut b) {
                    Ok(n) => {
                        ev("read", at as u64, n as u64);
                        ensure!(
                            n <= b.len() && at + n <= total && b[..n] == data[at..at + n],
                            "content",
                            "read at {at} returned {n} bytes that are not the source's"
                        );
                        ensure!(n > 0 || room == 0 || at == total, "false-end", "read returned 0 at {at} of {total}");
                        at += n;
                    }
                    Err(e) => ensure!(e.kind() == ErrorKind::WouldBlock, "error", "{e}"),
                }
            }
            1 | 2 => {
                let take = match r.fill_buf() {
                    Ok(b) => {
                        ensure!(
                            at + b.len() <= total && *b == data[at..at + b.len()],
                            "content",
                            "fill_buf at {at} shows {} bytes that are not the source's",
                            b.len()
                        );
                        ensure!(!b.is_empty() || at == total, "false-end", "fill_buf is empty at {at} of {total}");
                        match pick(4) {
                            0 => Some(b.len()),
                            1 => Some(0),
                            // a look only
                            2 => None,
                            _ => Some(pick(b.len() as u64 + 1) as usize),
                        }
                    }
                    Err(e) => {
                        ensure!(e.kind() == ErrorKind::WouldBlock, "error", "{e}");
                        None
                    }
                };
                if let Some(n) = take {
                    ev("consume", at as u64, n as u64);
                    r.consume(n);
                    at += n;
                }
            }
            3 | 4 => {
                let before = r.len().ok();
                match r.refill() {
                    Ok(()) => {
                        ev("refill", at as u64, 0);
                        if let (Some(a), Ok(b)) = (before, r.len()) {
                            ensure!(b >= a, "shrunk", "refill left {b} of {a} available bytes");
                        }
                    }
                    Err(e) => ensure!(e.kind() == ErrorKind::WouldBlock, "error", "{e}"),
                }
            }
            _ => {
                let (l, e) = (r.len(), r.is_empty());
                if let (Ok(l), Ok(e)) = (l, e) {
                    ensure!(at + l <= total, "len", "len() = {l} at {at} of {total}");
                    ensure!(e == (l == 0), "len", "is_empty() = {e} with len() = {l}");
                    ensure!(l > 0 || at == total, "false-end", "len() = 0 at {at} of {total}");
                    if let Ok(b) = r.buffer_len() {
                        let kept = taken.get() - at;
                        ensure!(b + kept == l, "len", "buffer_len() = {b} and {kept} bytes kept, but len() = {l}");
                    }
                    if let Ok(b) = r.fill_buf() {
                        ensure!(b.len() == l, "len", "len() = {l}, fill_buf shows {} bytes", b.len());
                    }
                }
            }
        }
        ensure!(
            r.consumed() == at,
            "consumed",
            "consumed() = {} after {at} bytes were taken",
            r.consumed()
        );
    }
    // drain: everything comes out once, in order
    let mut guard = 0;
    while at < total {
        guard += 1;
        ensure!(guard < 4 * total + 200, "no-progress", "stuck at {at} of {total}");
        let mut b = vec![0u8; 1 << (bits - 3)];
        match r.read(&mut b) {
            Ok(n) => {
                ensure!(
                    n > 0 && at + n <= total && b[..n] == data[at..at + n],
                    "content",
                    "drain at {at}: {n} bytes that are not the source's"
                );
                at += n;
            }
            Err(e) => ensure!(e.kind() == ErrorKind::WouldBlock, "error", "{e}"),
        }
    }
    ensure!(r.consumed() == total, "consumed", "consumed() = {} of {total}", r.consumed());
    Ok(())
}

// ---------------------------------------------------------------- C20: a seekable source that fails

/// Items that are completely there are read from a source whose reads and seeks fail: the right item
/// or the error of the source, never "not enough data" or another answer.
pub fn c20_items() -> Check {
    let item = match pick(6) {
        0 | 1 => Item::Packet,
        2 => Item::Block,
        3 => Item::Header,
        _ => Item::PayHead,
    };
    let (mut data, mut ends) = (Vec::new(), Vec::new());
    let items = gen_items(item, &mut data, &mut ends);
    let d = disk(data);
    let kinds = match pick(4) {
        0 => vec![Fault::ErrRead],
        1 => vec![Fault::ErrSeek],
        2 => vec![Fault::ErrRead, Fault::ErrSeek],
        _ => vec![Fault::ErrRead, Fault::ErrSeek, Fault::ShortRead, Fault::IntrRead],
    };
    let bits = 1 + pick(5);
    let max = 1 + logsize(4);
    let env = Env::with(Inject::new(kinds, bits, max));
    env.quiet.set(true);
    let mut f = SFile::new(&d, &env);
    let mut head = None::<brec::PayloadHeader>;
    let rules = Rules::default();
    let mut at = 0u64;
    for (i, (item, want)) in items.iter().enumerate() {
        for round in 0.. {
            if round == 6 {
                env.set(Inject::none());
            }
            f.pos = at;
            let before = env.errors.get();
            let how = pick(3);
            let got: Result<ReadStatus<Vec<u8>>, brec::Error> = match item {
                Item::Packet if how == 0 => <Packet as ReadFrom>::read(&mut f).map(|p| ReadStatus::Success(enc_packet(&p))),
                Item::Packet if how == 1 => Packet::filtered(&mut f, &rules).map(|s| match s {
                    brec::LookInStatus::Accepted(_, p) => ReadStatus::Success(enc_packet(&p)),
                    brec::LookInStatus::Denied(_) => ReadStatus::NotEnoughData(0),
                    brec::LookInStatus::NotEnoughData(n) => ReadStatus::NotEnoughData(n as u64),
                }),
                Item::Packet => map(<Packet as TryReadFrom>::try_read(&mut f), |p| enc_packet(&p)),
                Item::Block if how == 0 => <Block as ReadFrom>::read(&mut f).map(|b| ReadStatus::Success(enc_blk(&blk_from(&b)))),
                Item::Block => map(<Block as TryReadFrom>::try_read(&mut f), |b| enc_blk(&blk_from(&b))),
                Item::Header if how == 0 => <brec::PacketHeader as ReadFrom>::read(&mut f)
                    .map(|h| ReadStatus::Success(header(h.size, h.blocks_len, h.payload))),
                Item::Header => map(<brec::PacketHeader as TryReadFrom>::try_read(&mut f), |h| {
                    header(h.size, h.blocks_len, h.payload)
                }),
                Item::PayHead => {
                    let r = if how == 0 {
                        <brec::PayloadHeader as ReadFrom>::read(&mut f).map(ReadStatus::Success)
                    } else {
                        <brec::PayloadHeader as TryReadFrom>::try_read(&mut f)
                    };
                    map(r, |h| {
                        let e = enc_pay_head(&h);
                        head = Some(h);
                        e
                    })
                }
                Item::PayBody => {
                    let Some(h) = head.as_ref() else { fail!("harness", "no payload header") };
                    if how == 0 {
                        <Payload as brec::ExtractPayloadFrom<Payload>>::read(&mut f, h)
                            .map(|p| ReadStatus::Success(pay_body(&pay_from(&p))))
                    } else {
                        map(<Payload as brec::TryExtractPayloadFrom<Payload>>::try_read(&mut f, h), |p| {
                            pay_body(&pay_from(&p))
                        })
                    }
                }
            };
            match got {
                Ok(ReadStatus::Success(v)) => {
                    ensure!(v == *want, "wrong-item", "item {i} ({how}): {} instead of {}", short(&v), short(want));
                    ensure!(
                        f.pos == at + want.len() as u64 || (*item == Item::Packet && how == 1),
                        "position",
                        "after item {i} ({how}) the position is {} instead of {}",
                        f.pos,
                        at + want.len() as u64
                    );
                    break;
                }
                Ok(ReadStatus::NotEnoughData(n)) => {
                    fail!("error-hidden", "item {i} ({how}) is complete but {n} more bytes are demanded")
                }
                Err(e) => {
                    ensure!(env.errors.get() > before, "unexpected-error", "item {i} ({how}) of a healthy source: {e}");
                    ensure!(
                        !matches!(e, brec::Error::SignatureDismatch | brec::Error::CrcDismatch),
                        "error-hidden",
                        "item {i} ({how}): the source failed, reported as {e}"
                    );
                    probe("item_failed");
                }
            }
        }
        at += want.len() as u64;
    }
    Ok(())
}
