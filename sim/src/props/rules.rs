//! Filter rules: the same decisions on a stream and on a storage as on the packets themselves.

use crate::core::*;
use crate::disk::*;
use crate::model::*;
use crate::props::storage::{Enc, fill, image};
use crate::props::stream::*;
use crate::types::*;
use crate::{ensure, fail};
use std::cell::Cell;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

type Log = Arc<Mutex<Vec<(u8, u64)>>>;

const BLOCKS: u8 = 0;
const PAYLOAD: u8 = 1;
const PACKET: u8 = 2;
const IGNORED: u8 = 3;

/// The user's decision: a pure function of what the rule is shown.
fn decide(kind: u8, content: u64, mask: u64) -> bool {
    mix(content ^ kind as u64, mask) % 4 != 0
}

fn key_blocks(b: &[Blk]) -> u64 {
    let mut h = 7;
    for b in b {
        h = mix(h, hash_bytes(&enc_blk(b)));
    }
    h
}

thread_local! {
    static MASK: Cell<[u64; 3]> = const { Cell::new([0; 3]) };
    static LOG: std::cell::RefCell<Vec<(u8, u64)>> = const { std::cell::RefCell::new(Vec::new()) };
    /// What handlers of ignored bytes were given.
    static IGN: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(Vec::new()) };
}

fn st(kind: u8, key: u64) -> bool {
    LOG.with(|l| l.borrow_mut().push((kind, key)));
    decide(kind, key, MASK.with(|m| m.get()[kind as usize]))
}

fn s_blocks(b: &[BlockReferred]) -> bool {
    st(BLOCKS, key_blocks(&b.iter().map(blk_from_ref).collect::<Vec<_>>()))
}
fn s_payload(b: &[u8]) -> bool {
    st(PAYLOAD, hash_bytes(b))
}
fn s_packet(p: &Packet) -> bool {
    st(PACKET, hash_bytes(&enc_packet(p)))
}
fn s_ignored(b: &[u8]) {
    IGN.with(|i| i.borrow_mut().extend_from_slice(b));
}

/// A rule of the given kind, as a closure or as a plain function.
fn rule<'a>(kind: u8, mask: u64, stat: bool, log: &Log) -> Rule<'a> {
    if stat {
        if kind != IGNORED {
            MASK.with(|m| {
                let mut v = m.get();
                v[kind as usize] = mask;
                m.set(v);
            });
        }
        return match kind {
            IGNORED => Rule::Ignored(brec::RuleFnDef::Static(s_ignored)),
            BLOCKS => Rule::FilterByBlocks(brec::RuleFnDef::Static(s_blocks)),
            PAYLOAD => Rule::FilterByPayload(brec::RuleFnDef::Static(s_payload)),
            _ => Rule::Filter(brec::RuleFnDef::Static(s_packet)),
        };
    }
    let l = log.clone();
    match kind {
        IGNORED => Rule::Ignored(brec::RuleFnDef::Dynamic(Box::new(s_ignored))),
        BLOCKS => Rule::FilterByBlocks(brec::RuleFnDef::Dynamic(Box::new(move |b: &[BlockReferred]| {
            let k = key_blocks(&b.iter().map(blk_from_ref).collect::<Vec<_>>());
            l.lock().unwrap().push((BLOCKS, k));
            decide(BLOCKS, k, mask)
        }))),
        PAYLOAD => Rule::FilterByPayload(brec::RuleFnDef::Dynamic(Box::new(move |b: &[u8]| {
            let k = hash_bytes(b);
            l.lock().unwrap().push((PAYLOAD, k));
            decide(PAYLOAD, k, mask)
        }))),
        _ => Rule::Filter(brec::RuleFnDef::Dynamic(Box::new(move |p: &Packet| {
            let k = hash_bytes(&enc_packet(p));
            l.lock().unwrap().push((PACKET, k));
            decide(PACKET, k, mask)
        }))),
    }
}

fn id_of(kind: u8) -> brec::RuleDefId {
    match kind {
        BLOCKS => brec::RuleDefId::FilterByBlocks,
        PAYLOAD => brec::RuleDefId::FilterByPayload,
        IGNORED => brec::RuleDefId::Ignored,
        _ => brec::RuleDefId::Filter,
    }
}

/// The model: which rules are set, what they say to a packet and in what order they are asked.
#[derive(Default, Clone)]
struct Model {
    set: [Option<u64>; 4],
}

impl Model {
    fn judge(&self, s: &Spec, asked: &mut Vec<(u8, u64)>) -> bool {
        if let Some(m) = self.set[0] {
            let k = key_blocks(&s.blocks);
            asked.push((BLOCKS, k));
            if !decide(BLOCKS, k, m) {
                return false;
            }
        }
        if let (Some(m), Some(p)) = (self.set[1], &s.payload) {
            let k = hash_bytes(&pay_body(p));
            asked.push((PAYLOAD, k));
            if !decide(PAYLOAD, k, m) {
                return false;
            }
        }
        if let Some(m) = self.set[2] {
            let k = hash_bytes(&s.enc());
            asked.push((PACKET, k));
            if !decide(PACKET, k, m) {
                return false;
            }
        }
        true
    }
    /// One random change of the rule set, applied to the code through the callbacks and to the model.
    fn change<'a>(
        &mut self,
        log: &Log,
        add: &mut dyn FnMut(Rule<'a>) -> Result<(), brec::Error>,
        remove: &mut dyn FnMut(brec::RuleDefId),
    ) -> Check {
        let kind = pick(4) as u8;
        if chance(1, 3) {
            sched("remove_rule", kind as u64, 0);
            remove(id_of(kind));
            self.set[kind as usize] = None;
            return Ok(());
        }
        sched("add_rule", kind as u64, 0);
        let stat = chance(1, 3);
        let mask = 1 + pick(64);
        let had = self.set[kind as usize];
        // a refused static rule must not disturb the one in force
        let keep = MASK.with(|m| m.get());
        let res = add(rule(kind, mask, stat, log));
        if had.is_some() {
            MASK.with(|m| m.set(keep));
        }
        match (res, had) {
            (Ok(()), None) => self.set[kind as usize] = Some(mask),
            (Ok(()), Some(_)) => fail!("duplicate-accepted", "a second rule of kind {kind} was accepted"),
            (Err(brec::Error::RuleDuplicate), Some(_)) => probe("duplicate_refused"),
            (Err(e), _) => fail!("unexpected-error", "add_rule: {e} (rule present: {})", had.is_some()),
        }
        Ok(())
    }
}

fn asked(log: &Log) -> Vec<(u8, u64)> {
    let mut a = std::mem::take(&mut *log.lock().unwrap());
    a.extend(LOG.with(|l| std::mem::take(&mut *l.borrow_mut())));
    a
}

fn sorted(mut v: Vec<(u8, u64)>) -> Vec<(u8, u64)> {
    v.sort_unstable();
    v
}

fn reset() {
    MASK.with(|m| m.set([0; 3]));
    LOG.with(|l| l.borrow_mut().clear());
    IGN.with(|l| l.borrow_mut().clear());
}

pub fn c16_stream() -> Check {
    allow_weak();
    reset();
    let mut specs = Vec::new();
    let mut parts = Vec::new();
    let mut data = Vec::new();
    let mut spans = Vec::new();
    for i in 0..range(1, 12) {
        if chance(1, 4) {
            let j = junk_plain(pick(60) as usize);
            data.extend(&j);
            parts.push(Part::Junk(j));
        }
        let s = if chance(1, 3) { gen_spec(9, 4, false) } else { small_spec(i) };
        let e = s.enc();
        spans.push((data.len(), data.len() + e.len()));
        data.extend(&e);
        parts.push(Part::Packet(e));
        specs.push(s);
    }
    let stream = Stream { parts, data, spans };
    let mut src = source(&stream);
    let log: Log = Arc::default();
    let mut model = Model::default();
    let mut reader = PacketBufReader::new(&mut src);
    let mut next = 0usize;
    let bound = call_bound(stream.data.len(), 0);
    let mut calls = 0;
    let junk = stream.junk_before(usize::MAX);
    // the part of the foreign bytes that the handler may have been given
    let mut base = 0usize;
    let mut always = true;
    // rules may be set before and between the reads
    for _ in 0..pick(4) {
        let r = std::cell::RefCell::new(&mut reader);
        model.change(&log, &mut |x| r.borrow_mut().add_rule(x), &mut |x| {
            r.borrow_mut().remove_rule(x);
        })?;
    }
    loop {
        calls += 1;
        ensure!(calls <= bound, "no-end", "no end after {bound} calls");
        if chance(1, 8) {
            let r = std::cell::RefCell::new(&mut reader);
            model.change(&log, &mut |x| r.borrow_mut().add_rule(x), &mut |x| {
                r.borrow_mut().remove_rule(x);
            })?;
        }
        let listens = model.set[IGNORED as usize].is_some();
        let heard = IGN.with(|i| i.borrow().len());
        let got = step_of(reader.read());
        let now = IGN.with(|i| i.borrow().len());
        always &= listens;
        if always && !matches!(got, Step::Nothing | Step::Io) {
            let n = if matches!(got, Step::End) { usize::MAX } else { next };
            let want = stream.junk_before(n);
            ensure!(
                IGN.with(|i| *i.borrow() == want),
                "wrong-ignored",
                "the handler was given {now} of {} foreign bytes",
                want.len()
            );
        }
        if listens {
            // a run of the foreign bytes, behind everything it was given before
            IGN.with(|i| -> Check {
                let i = i.borrow();
                let new = &i[heard..];
                if new.is_empty() {
                    return Ok(());
                }
                probe("ignored_heard");
                let Some(at) = (base..=junk.len().saturating_sub(new.len())).find(|at| junk[*at..].starts_with(new)) else {
                    fail!("wrong-ignored", "{} bytes reach the handler that are not the next foreign bytes", new.len());
                };
                base = at + new.len();
                Ok(())
            })?;
        } else {
            ensure!(now == heard, "removed-asked", "a removed handler of ignored bytes is given {} bytes", now - heard);
        }
        match got {
            Step::End => break,
            Step::Found(_) | Step::Skipped => {
                ensure!(next < specs.len(), "extra-packet", "more answers than packets");
                let mut want = Vec::new();
                let ok = model.judge(&specs[next], &mut want);
                let seen = asked(&log);
                ensure!(
                    sorted(seen.clone()) == sorted(want.clone()),
                    "wrong-question",
                    "packet {next}: rules were asked {seen:x?}, expected {want:x?}"
                );
                match (&got, ok) {
                    (Step::Found(e), true) => {
                        ensure!(*e == specs[next].enc(), "wrong-packet", "packet {next} differs")
                    }
                    (Step::Found(_), false) => fail!("denied-delivered", "packet {next} was denied by a rule, but delivered"),
                    (_, true) => fail!("accepted-skipped", "packet {next} was skipped though no rule denies it"),
                    (_, false) => probe("denied"),
                }
                next += 1;
            }
            Step::Nothing => {}
            Step::Io => {}
            Step::Err(e) => fail!("unexpected-error", "{e}"),
        }
    }
    ensure!(next == specs.len(), "lost-packet", "{next} of {} packets answered", specs.len());
    Ok(())
}

pub fn c16_storage() -> Check {
    allow_weak();
    reset();
    let n = match pick(4) {
        0 => pick(4) as usize,
        1 => 496 + pick(6) as usize,
        _ => pick(40) as usize,
    };
    let mut encs: Vec<Enc> = fill(n);
    let mut specs: Vec<Spec> = (0..n).map(|i| filler(i as u64)).collect();
    for i in 0..pick(8) {
        let s = if chance(1, 3) { gen_spec(9, 4, false) } else { small_spec(7_000_000 + i) };
        encs.push(Rc::new(s.enc()));
        specs.push(s);
    }
    let n = specs.len();
    let env = Env::calm();
    if chance(1, 2) {
        env.set(Inject::new(vec![Fault::ShortRead, Fault::IntrRead], 6, 8));
    }
    env.quiet.set(true);
    let d = disk(image(&encs));
    let mut r: Reader<SFile> = match Reader::new(SFile::new(&d, &env)) {
        Ok(r) => r,
        Err(e) => fail!("unexpected-error", "open: {e}"),
    };
    let log: Log = Arc::default();
    let mut model = Model::default();
    for _ in 0..range(1, 4) {
        for _ in 0..pick(3) {
            let c = std::cell::RefCell::new(&mut r);
            model.change(&log, &mut |x| c.borrow_mut().add_rule(x), &mut |x| {
                c.borrow_mut().remove_rule(x);
            })?;
        }
        let (from, len) = if chance(1, 2) {
            (0, usize::MAX)
        } else {
            (pick(n as u64 + 2) as usize, pick(n as u64 + 2) as usize)
        };
        let mut want = Vec::new();
        let mut questions = Vec::new();
        for (i, s) in specs.iter().enumerate().skip(from) {
            if want.len() == len {
                break;
            }
            if model.judge(s, &mut questions) {
                want.push(i);
            }
        }
        if want.len() < n.saturating_sub(from) {
            probe("denied");
        }
        let mut got = Vec::new();
        {
            let mut take = |p: Result<Packet, brec::Error>| -> Check {
                match p {
                    Ok(p) => got.push(enc_packet(&p)),
                    Err(e) => fail!("unexpected-error", "filtered read: {e}"),
                }
                Ok(())
            };
            if from == 0 && len == usize::MAX && chance(1, 2) {
                for p in r.filtered() {
                    take(p)?;
                }
            } else {
                for p in r.range_filtered(from, len) {
                    take(p)?;
                }
            }
        }
        for (k, g) in got.iter().enumerate() {
            ensure!(
                k < want.len() && *g == *encs[want[k]],
                "wrong-selection",
                "filtered read ({from}, {len}) item {k} is not the expected packet {:?}",
                want.get(k)
            );
        }
        ensure!(
            got.len() == want.len(),
            "wrong-selection",
            "filtered read ({from}, {len}) yields {} packets, rules accept {}",
            got.len(),
            want.len()
        );
        let seen = asked(&log);
        ensure!(
            sorted(seen) == sorted(questions),
            "wrong-question",
            "the rules were not asked exactly once about the content of each packet"
        );
        // unfiltered access is not affected
        if n > 0 {
            let i = pick(n as u64) as usize;
            match r.nth(i) {
                Ok(Some(p)) => ensure!(enc_packet(&p) == *encs[i], "wrong-packet", "nth({i}) differs"),
                Ok(None) => fail!("lost-packet", "nth({i}) is missing"),
                Err(e) => fail!("unexpected-error", "nth({i}): {e}"),
            }
            asked(&log);
        }
    }
    Ok(())
}
