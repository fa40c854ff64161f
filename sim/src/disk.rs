//! Simulated byte sources and storage media behind the Read / Write / Seek seams of the code.

use crate::core::*;
use crate::coro;
use std::cell::{Cell, RefCell};
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::rc::Rc;

/// Unwinding payload of a simulated crash in single-task scenarios.
pub struct CrashNow;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault {
    ShortRead,
    IntrRead,
    ErrRead,
    ShortWrite,
    IntrWrite,
    /// Write fails, nothing written.
    ErrWrite,
    /// Some prefix is written, the rest fails (the next call reports ENOSPC).
    NoSpace,
    ErrFlush,
    ErrSeek,
    /// write() returns Ok(0)
    ZeroWrite,
}

impl Fault {
    fn name(self) -> &'static str {
        match self {
            Fault::ShortRead => "short_read",
            Fault::IntrRead => "eintr_read",
            Fault::ErrRead => "eio_read",
            Fault::ShortWrite => "short_write",
            Fault::IntrWrite => "eintr_write",
            Fault::ErrWrite => "eio_write",
            Fault::NoSpace => "enospc",
            Fault::ErrFlush => "eio_flush",
            Fault::ErrSeek => "eio_seek",
            Fault::ZeroWrite => "zero_write",
        }
    }
}

/// When and which faults hit: a countdown in operations of the right type.
pub struct Inject {
    pub kinds: Vec<Fault>,
    pub bits: u64,
    next: Option<(u64, Fault)>,
    pub left: u64,
    pub fired: u64,
}

impl Inject {
    pub fn none() -> Self {
        Inject {
            kinds: vec![],
            bits: 0,
            next: None,
            left: 0,
            fired: 0,
        }
    }
    /// At most `max` faults of the given kinds, at log-uniform distances below 2^bits operations.
    pub fn new(kinds: Vec<Fault>, bits: u64, max: u64) -> Self {
        let mut i = Inject {
            kinds,
            bits,
            next: None,
            left: max,
            fired: 0,
        };
        i.arm();
        i
    }
    fn arm(&mut self) {
        self.next = None;
        if self.left == 0 || self.kinds.is_empty() {
            return;
        }
        if let Some(g) = gap(self.bits) {
            let k = self.kinds[pick(self.kinds.len() as u64) as usize];
            self.next = Some((g, k));
            self.left -= 1;
        }
    }
    /// Ask for a fault on an operation to which `fits` kinds apply.
    fn hit(&mut self, fits: &[Fault]) -> Option<Fault> {
        let (n, k) = self.next.as_mut()?;
        if !fits.contains(k) {
            return None;
        }
        if *n > 0 {
            *n -= 1;
            return None;
        }
        let k = *k;
        self.arm();
        self.fired += 1;
        Some(k)
    }
}

#[derive(Default)]
pub struct Disk {
    pub data: Vec<u8>,
    /// Content at the last durability barrier and the writes since (power-loss model).
    base: Option<Vec<u8>>,
    since: Vec<(u64, Vec<u8>)>,
    pub enospc: bool,
}

impl Disk {
    pub fn track(&mut self) {
        self.base = Some(self.data.clone());
        self.since.clear();
    }
    fn put(&mut self, off: u64, buf: &[u8]) {
        let off = off as usize;
        if self.data.len() < off + buf.len() {
            self.data.resize(off + buf.len(), 0);
        }
        self.data[off..off + buf.len()].copy_from_slice(buf);
        if self.base.is_some() {
            self.since.push((off as u64, buf.to_vec()));
        }
    }
    fn barrier(&mut self) {
        if self.base.is_some() {
            if !self.since.is_empty() {
                // only the written ranges changed
                let mut base = self.base.take().expect("base");
                for (off, d) in self.since.drain(..) {
                    let off = off as usize;
                    if base.len() < off + d.len() {
                        base.resize(off + d.len(), 0);
                    }
                    base[off..off + d.len()].copy_from_slice(&d);
                }
                self.base = Some(base);
            }
        }
    }
    /// What survives a power loss: flushed content, plus any subset of the later writes,
    /// each possibly torn at sector granularity, in any order.
    pub fn power_loss(&mut self) -> Vec<u8> {
        let mut base = self.base.clone().unwrap_or_else(|| self.data.clone());
        let since = self.since.clone();
        for (off, d) in since.iter() {
            match pick(6) {
                0 => {
                    // survives whole
                    apply(&mut base, *off, d);
                }
                1 => {
                    fault("lost_write", *off);
                }
                2 => {
                    let cut = pick(d.len() as u64 + 1) as usize;
                    fault("torn_write", *off + cut as u64);
                    apply(&mut base, *off, &d[..cut]);
                }
                3 => {
                    // size extended, content lost: zeros where nothing was
                    fault("zeroed_write", *off);
                    let end = *off as usize + d.len();
                    if base.len() < end {
                        base.resize(end, 0);
                    }
                }
                4 => {
                    // arbitrary sectors survive
                    fault("sector_loss", *off);
                    let sector = [16usize, 512, 64][pick(3) as usize];
                    let end = *off as usize + d.len();
                    if base.len() < end {
                        base.resize(end, 0);
                    }
                    let mask = pick(1 << 16);
                    let mut r = Rng::new(mask);
                    let mut at = 0;
                    while at < d.len() {
                        let abs = *off as usize + at;
                        let len = (sector - abs % sector).min(d.len() - at);
                        if r.below(2) == 0 {
                            apply(&mut base, abs as u64, &d[at..at + len]);
                        }
                        at += len;
                    }
                }
                _ => {
                    // only the tail made it
                    let cut = pick(d.len() as u64 + 1) as usize;
                    fault("tail_only_write", *off + cut as u64);
                    apply(&mut base, *off + cut as u64, &d[cut..]);
                }
            }
        }
        base
    }
    /// Ranges written since the last barrier.
    pub fn unflushed(&self) -> Vec<(u64, u64)> {
        self.since.iter().map(|(o, d)| (*o, *o + d.len() as u64)).collect()
    }
}

fn apply(base: &mut Vec<u8>, off: u64, d: &[u8]) {
    if d.is_empty() {
        return;
    }
    let off = off as usize;
    if base.len() < off + d.len() {
        base.resize(off + d.len(), 0);
    }
    base[off..off + d.len()].copy_from_slice(d);
}

/// State shared by the handles of one "process": its faults and its crash point.
pub struct Env {
    pub inject: RefCell<Inject>,
    /// Countdown in write-side operations (write, flush, seek) to the crash.
    pub crash_in: Cell<Option<u64>>,
    pub crashed: Cell<bool>,
    pub ops: Cell<u64>,
    /// Set when any fault that reports an error to the caller fired.
    pub errors: Cell<u64>,
    pub quiet: Cell<bool>,
    /// Ranges of writes that were cut or refused half way.
    pub torn: RefCell<Vec<(u64, u64)>>,
}

impl Env {
    pub fn calm() -> Rc<Env> {
        Env::with(Inject::none())
    }
    pub fn with(i: Inject) -> Rc<Env> {
        Rc::new(Env {
            inject: RefCell::new(i),
            crash_in: Cell::new(None),
            crashed: Cell::new(false),
            ops: Cell::new(0),
            errors: Cell::new(0),
            quiet: Cell::new(false),
            torn: RefCell::new(vec![]),
        })
    }
    pub fn set(&self, i: Inject) {
        *self.inject.borrow_mut() = i;
    }
    pub fn hit(&self, fits: &[Fault], at: u64) -> Option<Fault> {
        let f = self.inject.borrow_mut().hit(fits);
        if let Some(f) = f {
            fault(f.name(), at);
            if !matches!(
                f,
                Fault::ShortRead | Fault::ShortWrite | Fault::IntrRead | Fault::IntrWrite
            ) {
                self.errors.set(self.errors.get() + 1);
            }
        }
        f
    }
    /// Crash point: one per write-side operation; returns true if the process dies here.
    fn crash_here(&self) -> bool {
        self.ops.set(self.ops.get() + 1);
        match self.crash_in.get() {
            Some(0) => {
                self.crash_in.set(None);
                self.crashed.set(true);
                true
            }
            Some(n) => {
                self.crash_in.set(Some(n - 1));
                false
            }
            None => false,
        }
    }
}

/// A handle on a simulated file: the S of Reader<S> and Writer<S>.
pub struct SFile {
    pub disk: Rc<RefCell<Disk>>,
    pub pos: u64,
    pub env: Rc<Env>,
}

impl SFile {
    pub fn new(disk: &Rc<RefCell<Disk>>, env: &Rc<Env>) -> Self {
        SFile {
            disk: disk.clone(),
            pos: 0,
            env: env.clone(),
        }
    }
    fn tear(&self, len: usize) {
        self.env.torn.borrow_mut().push((self.pos, self.pos + len as u64));
    }
    fn die(&self) -> ! {
        std::panic::resume_unwind(Box::new(CrashNow))
    }
}

pub fn disk(data: Vec<u8>) -> Rc<RefCell<Disk>> {
    Rc::new(RefCell::new(Disk {
        data,
        ..Default::default()
    }))
}

impl Read for SFile {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        io_op();
        coro::step();
        let mut want = buf.len();
        match self
            .env
            .hit(&[Fault::ShortRead, Fault::IntrRead, Fault::ErrRead], self.pos)
        {
            Some(Fault::ShortRead) if want > 1 => want = 1 + pick(want as u64 - 1) as usize,
            Some(Fault::ShortRead) => {}
            Some(Fault::IntrRead) => return Err(Error::from(ErrorKind::Interrupted)),
            Some(_) => return Err(Error::other("simulated read error")),
            None => {}
        }
        let d = self.disk.borrow();
        let len = d.data.len() as u64;
        if self.pos >= len {
            return Ok(0);
        }
        let n = want.min((len - self.pos) as usize);
        let at = self.pos as usize;
        buf[..n].copy_from_slice(&d.data[at..at + n]);
        drop(d);
        self.pos += n as u64;
        if !self.env.quiet.get() {
            ev("read", self.pos, n as u64);
        }
        Ok(n)
    }
}

impl Write for SFile {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        if self.env.crashed.get() || coro::dead() {
            return Ok(buf.len());
        }
        if buf.is_empty() {
            return Ok(0);
        }
        io_op();
        coro::step();
        if self.env.crash_here() {
            // the write in progress is cut anywhere
            let cut = pick(buf.len() as u64 + 1) as usize;
            fault("crash_in_write", self.pos + cut as u64);
            self.disk.borrow_mut().put(self.pos, &buf[..cut]);
            self.tear(buf.len());
            self.die();
        }
        let mut n = buf.len();
        match self.env.hit(
            &[
                Fault::ShortWrite,
                Fault::IntrWrite,
                Fault::ErrWrite,
                Fault::NoSpace,
                Fault::ZeroWrite,
            ],
            self.pos,
        ) {
            Some(Fault::ShortWrite) if n > 1 => n = 1 + pick(n as u64 - 1) as usize,
            Some(Fault::ShortWrite) => {}
            Some(Fault::IntrWrite) => return Err(Error::from(ErrorKind::Interrupted)),
            Some(Fault::ZeroWrite) => {
                self.tear(n);
                return Ok(0);
            }
            Some(Fault::NoSpace) => {
                self.tear(n);
                // part of the data fits, the rest does not
                let part = pick(n as u64) as usize;
                self.disk.borrow_mut().enospc = true;
                if part == 0 {
                    self.disk.borrow_mut().enospc = false;
                    return Err(Error::from(ErrorKind::StorageFull));
                }
                n = part;
            }
            Some(_) => {
                self.tear(n);
                return Err(Error::other("simulated write error"));
            }
            None => {
                if self.disk.borrow().enospc {
                    self.tear(n);
                    self.env.errors.set(self.env.errors.get() + 1);
                    self.disk.borrow_mut().enospc = false;
                    return Err(Error::from(ErrorKind::StorageFull));
                }
            }
        }
        self.disk.borrow_mut().put(self.pos, &buf[..n]);
        if !self.env.quiet.get() {
            ev("write", self.pos, n as u64);
        }
        self.pos += n as u64;
        Ok(n)
    }

    fn flush(&mut self) -> Result<()> {
        if self.env.crashed.get() || coro::dead() {
            return Ok(());
        }
        io_op();
        coro::step();
        if self.env.crash_here() {
            fault("crash_before_flush", self.pos);
            self.die();
        }
        if self.env.hit(&[Fault::ErrFlush], self.pos).is_some() {
            return Err(Error::other("simulated flush error"));
        }
        self.disk.borrow_mut().barrier();
        Ok(())
    }
}

impl Seek for SFile {
    fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
        if self.env.crashed.get() || coro::dead() {
            return Ok(self.pos);
        }
        io_op();
        coro::step();
        if self.env.hit(&[Fault::ErrSeek], self.pos).is_some() {
            return Err(Error::other("simulated seek error"));
        }
        let len = self.disk.borrow().data.len() as i128;
        let p = match pos {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::End(d) => len + d as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        if p < 0 || p > u64::MAX as i128 {
            return Err(Error::from(ErrorKind::InvalidInput));
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}

// ---------------------------------------------------------------- streams

#[derive(Clone, Copy, PartialEq)]
pub enum Delivery {
    Whole,
    Fixed(usize),
    Random,
    /// Cuts at and around the given offsets.
    Cuts,
}

/// A finite byte stream delivered in arbitrary pieces, with transient failures.
pub struct Source {
    pub data: Vec<u8>,
    pub pos: usize,
    pub mode: Delivery,
    pub cuts: Vec<usize>,
    pub err_left: u64,
    pub err_bits: u64,
    next_err: Option<u64>,
    pub errors: u64,
    pub reads: u64,
    /// What the stream reports between its errors (kinds to draw from).
    pub kinds: Vec<ErrorKind>,
}

impl Source {
    pub fn new(data: Vec<u8>, mode: Delivery, cuts: Vec<usize>) -> Self {
        Source {
            data,
            pos: 0,
            mode,
            cuts,
            err_left: 0,
            err_bits: 0,
            next_err: None,
            errors: 0,
            reads: 0,
            kinds: vec![],
        }
    }
    pub fn pick_mode() -> Delivery {
        match pick(6) {
            0 => Delivery::Whole,
            1 => Delivery::Fixed(1),
            2 => Delivery::Fixed(range(1, 40) as usize),
            3 => Delivery::Fixed(1 + logsize(13) as usize),
            4 => Delivery::Random,
            _ => Delivery::Cuts,
        }
    }
    pub fn with_errors(mut self, kinds: Vec<ErrorKind>, max: u64, bits: u64) -> Self {
        self.kinds = kinds;
        self.err_left = max;
        self.err_bits = bits;
        self.arm();
        self
    }
    fn arm(&mut self) {
        self.next_err = None;
        if self.err_left > 0 {
            self.next_err = gap(self.err_bits);
            self.err_left -= 1;
        }
    }
    fn chunk(&mut self, left: usize) -> usize {
        match self.mode {
            Delivery::Whole => left,
            Delivery::Fixed(n) => n.min(left),
            Delivery::Random => 1 + logsize(10).min(left as u64 - 1) as usize,
            Delivery::Cuts => {
                let next = self.cuts.iter().find(|c| **c > self.pos).copied();
                match next {
                    Some(c) => (c - self.pos).min(left),
                    None => left,
                }
            }
        }
    }
}

impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        io_op();
        self.reads += 1;
        if let Some(n) = self.next_err.as_mut() {
            if *n == 0 {
                let k = self.kinds[pick(self.kinds.len() as u64) as usize];
                self.errors += 1;
                fault(
                    match k {
                        ErrorKind::Interrupted => "eintr_read",
                        ErrorKind::WouldBlock => "would_block",
                        ErrorKind::TimedOut => "timed_out",
                        _ => "eio_read",
                    },
                    self.pos as u64,
                );
                self.arm();
                return Err(Error::from(k));
            }
            *n -= 1;
        }
        let left = self.data.len() - self.pos;
        if left == 0 || buf.is_empty() {
            return Ok(0);
        }
        let n = self.chunk(left).min(buf.len());
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        if n < left && n < buf.len() {
            sched("chunk", self.pos as u64, n as u64);
        }
        self.pos += n;
        Ok(n)
    }
}

// ---------------------------------------------------------------- a medium of any size

const PAGE: u64 = 4096;

/// A sparse medium: what was never written is zero.
#[derive(Default)]
pub struct Pages {
    map: std::collections::BTreeMap<u64, Vec<u8>>,
    pub len: u64,
    /// Bytes read so far; a run does not wait for gigabytes.
    pub fetched: u64,
    pub gave_up: bool,
}

impl Pages {
    pub fn put(&mut self, mut at: u64, mut data: &[u8]) {
        self.len = self.len.max(at + data.len() as u64);
        while !data.is_empty() {
            let off = (at % PAGE) as usize;
            let n = data.len().min(PAGE as usize - off);
            let page = self.map.entry(at / PAGE).or_insert_with(|| vec![0; PAGE as usize]);
            page[off..off + n].copy_from_slice(&data[..n]);
            at += n as u64;
            data = &data[n..];
        }
    }
    pub fn get(&self, mut at: u64, mut buf: &mut [u8]) -> usize {
        let all = (buf.len() as u64).min(self.len.saturating_sub(at)) as usize;
        buf = &mut buf[..all];
        while !buf.is_empty() {
            let off = (at % PAGE) as usize;
            let n = buf.len().min(PAGE as usize - off);
            match self.map.get(&(at / PAGE)) {
                Some(page) => buf[..n].copy_from_slice(&page[off..off + n]),
                None => buf[..n].fill(0),
            }
            at += n as u64;
            buf = &mut buf[n..];
        }
        all
    }
}

pub struct Vast {
    pub pages: Rc<RefCell<Pages>>,
    pub pos: u64,
    pub env: Rc<Env>,
}

impl Read for Vast {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        io_op();
        let mut want = buf.len();
        match self.env.hit(&[Fault::ShortRead, Fault::IntrRead], self.pos) {
            Some(Fault::ShortRead) if want > 1 => want = 1 + pick(want as u64 - 1) as usize,
            Some(Fault::IntrRead) => return Err(Error::from(ErrorKind::Interrupted)),
            _ => {}
        }
        let mut p = self.pages.borrow_mut();
        let n = p.get(self.pos, &mut buf[..want]);
        self.pos += n as u64;
        p.fetched += n as u64;
        if p.fetched > 64 << 20 {
            p.gave_up = true;
            return Err(Error::other("too much to read"));
        }
        Ok(n)
    }
}

impl Write for Vast {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        io_op();
        let mut n = buf.len();
        match self.env.hit(&[Fault::ShortWrite, Fault::IntrWrite], self.pos) {
            Some(Fault::ShortWrite) if n > 1 => n = 1 + pick(n as u64 - 1) as usize,
            Some(Fault::IntrWrite) => return Err(Error::from(ErrorKind::Interrupted)),
            _ => {}
        }
        self.pages.borrow_mut().put(self.pos, &buf[..n]);
        ev("write", self.pos, n as u64);
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

impl Seek for Vast {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        io_op();
        let at = match to {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::End(n) => self.pages.borrow().len as i128 + n as i128,
            SeekFrom::Current(n) => self.pos as i128 + n as i128,
        };
        if at < 0 || at > i64::MAX as i128 {
            return Err(Error::from(ErrorKind::InvalidInput));
        }
        self.pos = at as u64;
        Ok(self.pos)
    }
}
