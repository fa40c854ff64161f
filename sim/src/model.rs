//! Packet specifications, an independent reference encoder of the documented layout
//! (signature, sizes, CRC32 of each part, little endian), and input generators.
//! Nothing here calls brec's serialisation code: equality of packets is decided on the
//! reference encoding of their public fields.

use crate::core::*;
use crate::types::*;

pub const PSIG: [u8; 8] = [236, 37, 94, 136, 236, 37, 94, 136];
pub const SSIG: [u8; 8] = [166, 177, 188, 199, 199, 188, 177, 166];
pub const HDR: usize = 29;
pub const CAP: usize = 500;
pub const SLOT: usize = 16 + CAP * 8 + 4;

#[derive(Clone)]
pub enum Blk {
    Tag(Tag),
    Nums(Nums),
    Blobs(Blobs),
    Big(Big),
    Bit(Bit),
    Plain(Plain),
    Note(sub::Note),
}

#[derive(Clone)]
pub enum Pay {
    Rec(Rec),
    Cmd(Cmd),
    Raw(Raw),
    Free(Free),
    Seal(Seal),
    Wax(Wax),
    Lead(Lead),
    Iron(Iron),
    Gold(Gold),
    Frail(Frail),
    Memo(sub::Memo),
    Bytes(Vec<u8>),
    Str(String),
}

#[derive(Clone, Default)]
pub struct Spec {
    pub blocks: Vec<Blk>,
    pub payload: Option<Pay>,
}

// ---------------------------------------------------------------- CRC32 (IEEE), independent
pub fn crc32(data: &[u8]) -> u32 {
    static TABLE: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
    let t = TABLE.get_or_init(|| {
        let mut t = [0u32; 256];
        for (i, e) in t.iter_mut().enumerate() {
            let mut c = i as u32;
            for _ in 0..8 {
                c = if c & 1 != 0 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 };
            }
            *e = c;
        }
        t
    });
    let mut c = !0u32;
    for b in data {
        c = t[((c ^ *b as u32) & 0xff) as usize] ^ (c >> 8);
    }
    !c
}

fn body_tag(b: &Tag) -> Vec<u8> {
    b.id.to_le_bytes().to_vec()
}
fn body_nums(b: &Nums) -> Vec<u8> {
    let mut v = vec![b.a];
    v.extend(b.b.to_le_bytes());
    v.extend(b.c.to_le_bytes());
    v.extend(b.d.to_le_bytes());
    v.extend(b.e.to_le_bytes());
    v.extend(b.f.to_le_bytes());
    v.extend(b.g.to_le_bytes());
    v.extend(b.h.to_le_bytes());
    v.extend(b.i.to_le_bytes());
    v.extend(b.j.to_le_bytes());
    v.extend(b.k.to_bits().to_le_bytes());
    v.extend(b.l.to_bits().to_le_bytes());
    v.push(b.m as u8);
    v
}
fn body_blobs(b: &Blobs) -> Vec<u8> {
    let mut v = b.head.to_vec();
    v.extend(b.n.to_le_bytes());
    v.extend(b.body);
    v.extend(b.tail);
    v.push(match b.mode {
        Mode::Off => 0,
        Mode::On => 1,
        Mode::Auto => 2,
    });
    v
}
fn body_big(b: &Big) -> Vec<u8> {
    let mut v = b.n.to_le_bytes().to_vec();
    v.extend(b.body);
    v
}
fn body_bit(b: &Bit) -> Vec<u8> {
    vec![b.v as u8]
}

fn snap(name: &str, fields: &str) -> [u8; 4] {
    crc32(format!("{name};{fields}").as_bytes()).to_le_bytes()
}

/// Block signatures as shipped at the pinned commit (the stored format depends on them).
pub fn sigs() -> &'static [[u8; 4]; 7] {
    static S: std::sync::OnceLock<[[u8; 4]; 7]> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        // __sig and __crc are part of the described field list of every block
        let wrap = |f: &str| format!("__sig:[u8;4];{f};__crc:[u8;4]");
        [
            snap("Tag", &wrap("id:u64")),
            snap(
                "Nums",
                &wrap("a:u8;b:u16;c:u32;d:u64;e:u128;f:i8;g:i16;h:i32;i:i64;j:i128;k:f32;l:f64;m:bool"),
            ),
            snap("Blobs", &wrap("head:[u8;5];n:u32;body:[u8;64];tail:[u8;1];mode:Mode")),
            snap("Big", &wrap("n:u16;body:[u8;900]")),
            snap("Bit", &wrap("v:bool")),
            snap("Plain", &wrap("x:u32;y:[u8;3];z:bool")),
            snap("Note", &wrap("a:i32;b:[u8;9]")),
        ]
    })
}

fn frame(sig: [u8; 4], body: Vec<u8>) -> Vec<u8> {
    let mut v = sig.to_vec();
    v.extend(&body);
    v.extend(crc32(&body).to_le_bytes());
    v
}

pub fn enc_blk(b: &Blk) -> Vec<u8> {
    let s = sigs();
    match b {
        Blk::Tag(b) => frame(s[0], body_tag(b)),
        Blk::Nums(b) => frame(s[1], body_nums(b)),
        Blk::Blobs(b) => frame(s[2], body_blobs(b)),
        Blk::Big(b) => frame(s[3], body_big(b)),
        Blk::Bit(b) => frame(s[4], body_bit(b)),
        Blk::Plain(b) => {
            let mut v = s[5].to_vec();
            v.extend(b.x.to_le_bytes());
            v.extend(b.y);
            v.push(b.z as u8);
            v.extend([0; 4]);
            v
        }
        Blk::Note(b) => {
            let mut v = b.a.to_le_bytes().to_vec();
            v.extend(b.b);
            frame(s[6], v)
        }
    }
}

fn bin_rec(r: &Rec) -> Vec<u8> {
    let mut v = r.id.to_le_bytes().to_vec();
    v.extend((r.text.len() as u64).to_le_bytes());
    v.extend(r.text.as_bytes());
    v.extend((r.data.len() as u64).to_le_bytes());
    v.extend(&r.data);
    match r.opt {
        None => v.push(0),
        Some(o) => {
            v.push(1);
            v.extend(o.to_le_bytes());
        }
    }
    match &r.kind {
        Kind::A => v.extend(0u32.to_le_bytes()),
        Kind::B(x) => {
            v.extend(1u32.to_le_bytes());
            v.extend(x.to_le_bytes());
        }
        Kind::C { x, s } => {
            v.extend(2u32.to_le_bytes());
            v.extend(x.to_le_bytes());
            v.extend((s.len() as u64).to_le_bytes());
            v.extend(s.as_bytes());
        }
    }
    v
}

fn bin_cmd(c: &Cmd) -> Vec<u8> {
    match c {
        Cmd::Ping => 0u32.to_le_bytes().to_vec(),
        Cmd::Put(l) => {
            let mut v = 1u32.to_le_bytes().to_vec();
            v.extend((l.len() as u64).to_le_bytes());
            for x in l {
                v.extend(x.to_le_bytes());
            }
            v
        }
    }
}

fn bin_bytes(b: &[u8]) -> Vec<u8> {
    let mut v = (b.len() as u64).to_le_bytes().to_vec();
    v.extend(b);
    v
}

pub fn pay_body(p: &Pay) -> Vec<u8> {
    match p {
        Pay::Rec(r) => bin_rec(r),
        Pay::Cmd(c) => bin_cmd(c),
        Pay::Raw(r) => r.body.iter().map(|b| b ^ 0x5a).collect(),
        Pay::Free(f) => {
            let mut v = f.n.to_le_bytes().to_vec();
            v.extend(bin_bytes(&f.data));
            v
        }
        Pay::Seal(f) => {
            let mut v = f.id.to_le_bytes().to_vec();
            v.extend(bin_bytes(&f.data));
            v
        }
        Pay::Wax(f) => bin_bytes(&f.data),
        Pay::Lead(f) => bin_bytes(&f.data),
        Pay::Iron(f) => bin_bytes(&f.data),
        Pay::Gold(f) => bin_bytes(&f.data),
        Pay::Frail(f) => f.body.clone(),
        Pay::Memo(f) => bin_bytes(f.text.as_bytes()),
        Pay::Bytes(b) => b.clone(),
        Pay::Str(s) => s.as_bytes().to_vec(),
    }
}

fn pay_sig(p: &Pay) -> Vec<u8> {
    match p {
        Pay::Rec(_) => crc32(b"Rec").to_le_bytes().to_vec(),
        Pay::Cmd(_) => crc32(b"Cmd").to_le_bytes().to_vec(),
        Pay::Raw(_) => RAW_SIG.to_vec(),
        Pay::Free(_) => crc32(b"Free").to_le_bytes().to_vec(),
        Pay::Seal(_) => SEAL_SIG.to_vec(),
        Pay::Wax(_) => crc32(b"Wax").to_le_bytes().to_vec(),
        Pay::Lead(_) => LEAD_SIG.to_vec(),
        Pay::Iron(_) => IRON_SIG.to_vec(),
        Pay::Gold(_) => GOLD_SIG.to_vec(),
        Pay::Frail(_) => crc32(b"Frail").to_le_bytes().to_vec(),
        Pay::Memo(_) => crc32(b"SubMemo").to_le_bytes().to_vec(),
        Pay::Bytes(_) => crc32(b"Vec<u8>").to_le_bytes().to_vec(),
        Pay::Str(_) => crc32(b"String").to_le_bytes().to_vec(),
    }
}

pub fn enc_pay(p: &Pay) -> Vec<u8> {
    let body = pay_body(p);
    let sig = pay_sig(p);
    let mut v = vec![sig.len() as u8];
    v.extend(&sig);
    let crc = match p {
        Pay::Free(_) => vec![0; 4],
        Pay::Seal(_) => seal_crc(&body).to_vec(),
        Pay::Wax(_) => seal_crc(&body)[..8].to_vec(),
        Pay::Lead(_) => wide_crc(&body, 128),
        Pay::Iron(_) => wide_crc(&body, 16),
        Pay::Gold(_) => wide_crc(&body, 32),
        _ => crc32(&body).to_le_bytes().to_vec(),
    };
    v.push(crc.len() as u8);
    v.extend(crc);
    v.extend((body.len() as u32).to_le_bytes());
    v.extend(body);
    v
}

pub fn header(size: u64, blocks_len: u64, payload: bool) -> Vec<u8> {
    let mut f = size.to_le_bytes().to_vec();
    f.extend(blocks_len.to_le_bytes());
    f.push(payload as u8);
    let mut v = PSIG.to_vec();
    v.extend(&f);
    v.extend(crc32(&f).to_le_bytes());
    v
}

impl Spec {
    pub fn enc(&self) -> Vec<u8> {
        let mut blocks = Vec::new();
        for b in &self.blocks {
            blocks.extend(enc_blk(b));
        }
        let pay = self.payload.as_ref().map(enc_pay);
        let plen = pay.as_ref().map(|p| p.len()).unwrap_or(0);
        let mut v = header(
            (blocks.len() + plen) as u64,
            blocks.len() as u64,
            pay.is_some(),
        );
        v.extend(blocks);
        if let Some(p) = pay {
            v.extend(p);
        }
        v
    }

    pub fn packet(&self) -> Packet {
        Packet::new(
            self.blocks.iter().map(blk_to).collect(),
            self.payload.as_ref().map(pay_to),
        )
    }

    /// True if the packet carries a block whose signature-only content equals it; see `key`.
    pub fn block_key(&self) -> u64 {
        let mut h = 7u64;
        for b in &self.blocks {
            h = mix(h, hash_bytes(&enc_blk(b)));
        }
        h
    }
}

pub fn blk_to(b: &Blk) -> Block {
    match b {
        Blk::Tag(b) => Block::Tag(b.clone()),
        Blk::Nums(b) => Block::Nums(b.clone()),
        Blk::Blobs(b) => Block::Blobs(b.clone()),
        Blk::Big(b) => Block::Big(b.clone()),
        Blk::Bit(b) => Block::Bit(b.clone()),
        Blk::Plain(b) => Block::Plain(b.clone()),
        Blk::Note(b) => Block::SubNote(b.clone()),
    }
}

pub fn blk_from(b: &Block) -> Blk {
    match b {
        Block::Tag(b) => Blk::Tag(b.clone()),
        Block::Nums(b) => Blk::Nums(b.clone()),
        Block::Blobs(b) => Blk::Blobs(b.clone()),
        Block::Big(b) => Blk::Big(b.clone()),
        Block::Bit(b) => Blk::Bit(b.clone()),
        Block::Plain(b) => Blk::Plain(b.clone()),
        Block::SubNote(b) => Blk::Note(b.clone()),
    }
}

/// The content seen through the zero-copy view handed to block filters.
pub fn blk_from_ref(b: &BlockReferred) -> Blk {
    match b {
        BlockReferred::Tag(b) => Blk::Tag(Tag { id: b.id }),
        BlockReferred::Nums(b) => Blk::Nums(Nums {
            a: b.a,
            b: b.b,
            c: b.c,
            d: b.d,
            e: b.e,
            f: b.f,
            g: b.g,
            h: b.h,
            i: b.i,
            j: b.j,
            k: b.k,
            l: b.l,
            m: b.m,
        }),
        BlockReferred::Blobs(b) => Blk::Blobs(Blobs {
            head: *b.head,
            n: b.n,
            body: *b.body,
            tail: *b.tail,
            mode: b.mode.clone(),
        }),
        BlockReferred::Big(b) => Blk::Big(Big {
            n: b.n,
            body: *b.body,
        }),
        BlockReferred::Bit(b) => Blk::Bit(Bit { v: b.v }),
        BlockReferred::Plain(b) => Blk::Plain(Plain { x: b.x, y: *b.y, z: b.z }),
        BlockReferred::SubNote(b) => Blk::Note(sub::Note { a: b.a, b: *b.b }),
    }
}

pub fn pay_to(p: &Pay) -> Payload {
    match p {
        Pay::Rec(r) => Payload::Rec(r.clone()),
        Pay::Cmd(r) => Payload::Cmd(r.clone()),
        Pay::Raw(r) => Payload::Raw(r.clone()),
        Pay::Free(r) => Payload::Free(r.clone()),
        Pay::Seal(r) => Payload::Seal(r.clone()),
        Pay::Wax(r) => Payload::Wax(r.clone()),
        Pay::Gold(r) => Payload::Gold(r.clone()),
        Pay::Iron(r) => Payload::Iron(r.clone()),
        Pay::Lead(r) => Payload::Lead(r.clone()),
        Pay::Frail(r) => Payload::Frail(r.clone()),
        Pay::Memo(r) => Payload::SubMemo(r.clone()),
        Pay::Bytes(r) => Payload::Bytes(r.clone()),
        Pay::Str(r) => Payload::String(r.clone()),
    }
}

pub fn pay_from(p: &Payload) -> Pay {
    match p {
        Payload::Rec(r) => Pay::Rec(r.clone()),
        Payload::Cmd(r) => Pay::Cmd(r.clone()),
        Payload::Raw(r) => Pay::Raw(r.clone()),
        Payload::Free(r) => Pay::Free(r.clone()),
        Payload::Seal(r) => Pay::Seal(r.clone()),
        Payload::Wax(r) => Pay::Wax(r.clone()),
        Payload::Gold(r) => Pay::Gold(r.clone()),
        Payload::Iron(r) => Pay::Iron(r.clone()),
        Payload::Lead(r) => Pay::Lead(r.clone()),
        Payload::Frail(r) => Pay::Frail(r.clone()),
        Payload::SubMemo(r) => Pay::Memo(r.clone()),
        Payload::Bytes(r) => Pay::Bytes(r.clone()),
        Payload::String(r) => Pay::Str(r.clone()),
    }
}

/// Reference encoding of a packet produced by the code under test.
pub fn enc_packet(p: &Packet) -> Vec<u8> {
    Spec {
        blocks: p.blocks.iter().map(blk_from).collect(),
        payload: p.payload.as_ref().map(pay_from),
    }
    .enc()
}

// ---------------------------------------------------------------- generators

fn arr<const N: usize>() -> [u8; N] {
    let v = bytes(N);
    let mut a = [0u8; N];
    a.copy_from_slice(&v);
    a
}

fn w128() -> u128 {
    ((word() as u128) << 64) | word() as u128
}

pub fn gen_blk() -> Blk {
    match pick(if weak() { 7 } else { 6 }) {
        6 => Blk::Plain(Plain {
            x: word() as u32,
            y: arr(),
            z: chance(1, 2),
        }),
        5 => Blk::Note(sub::Note {
            a: word() as i32,
            b: arr(),
        }),
        0 => Blk::Tag(Tag { id: word() }),
        1 => Blk::Bit(Bit { v: chance(1, 2) }),
        2 => Blk::Nums(Nums {
            a: word() as u8,
            b: word() as u16,
            c: word() as u32,
            d: word(),
            e: w128(),
            f: word() as i8,
            g: word() as i16,
            h: word() as i32,
            i: word() as i64,
            j: w128() as i128,
            k: f32::from_bits(word() as u32),
            l: f64::from_bits(word()),
            m: chance(1, 2),
        }),
        3 => Blk::Blobs(Blobs {
            head: arr(),
            n: word() as u32,
            body: if chance(1, 4) { sigful() } else { arr() },
            tail: arr(),
            mode: [Mode::Off, Mode::On, Mode::Auto][pick(3) as usize].clone(),
        }),
        _ => Blk::Big(Big {
            n: word() as u16,
            body: arr(),
        }),
    }
}

/// Bytes that contain the packet signature.
fn sigful<const N: usize>() -> [u8; N] {
    let mut a = arr::<N>();
    let at = pick((N - 8) as u64 + 1) as usize;
    a[at..at + 8].copy_from_slice(&PSIG);
    a
}

pub fn text(len: usize) -> String {
    let seed = pick(1 << 12);
    let mut r = Rng::new(seed);
    let mut s = String::new();
    while s.len() < len {
        s.push(match r.below(6) {
            0 => 'ж',
            1 => '\u{0}',
            2 => '漢',
            _ => (b'a' + r.below(26) as u8) as char,
        });
    }
    s
}

fn frail(max_bits: u64) -> Frail {
    let mut body = bytes(logsize(max_bits) as usize);
    if matches!(body.first(), Some(&NO_ENCODE) | Some(&NO_DECODE) | Some(&NO_FIT)) {
        body[0] = 0;
    }
    Frail { body }
}

/// A packet its owner cannot write: more blocks than a packet may hold, a payload whose
/// encoder fails, or one that is longer than its length field can say.
pub fn unwritable() -> Spec {
    let mut s = gen_spec(6, 3, false);
    if chance(1, 2) {
        let n = 256 + pick(5);
        s.blocks = (0..n).map(|i| Blk::Tag(Tag { id: i })).collect();
    } else {
        let mut f = frail(6);
        f.body.insert(0, if chance(1, 3) { NO_FIT } else { NO_ENCODE });
        s.payload = Some(Pay::Frail(f));
    }
    s
}

/// A packet that arrived whole, but belongs to another version of the protocol: a block or a
/// payload this one doesn't know, a value it doesn't know, contents its decoder refuses.
pub fn alien() -> Vec<u8> {
    let s = gen_spec(6, 2, false);
    let mut blocks: Vec<Vec<u8>> = s.blocks.iter().map(enc_blk).collect();
    blocks.truncate(4);
    let mut pay = s.payload.as_ref().map(enc_pay);
    let framed = |sig: &[u8], body: &[u8]| {
        let mut v = vec![sig.len() as u8];
        v.extend(sig);
        v.push(4);
        v.extend(crc32(body).to_le_bytes());
        v.extend((body.len() as u32).to_le_bytes());
        v.extend(body);
        v
    };
    let at = pick(blocks.len() as u64 + 1) as usize;
    match pick(8) {
        0 => {
            // an unknown block
            let body = junk_plain(pick(40) as usize);
            blocks.insert(at, frame(snap("Unknown", "x:u8"), body));
        }
        1 => {
            // an unknown value of an enumeration
            let mut body = body_blobs(&Blobs { head: [1; 5], n: 2, body: [3; 64], tail: [4], mode: Mode::On });
            *body.last_mut().expect("mode") = 3 + pick(253) as u8;
            blocks.insert(at, frame(sigs()[2], body));
        }
        2 => {
            // an unknown payload, some of them as empty as a payload can be
            let len = [4usize, 4, 8, 16, 32, 64, 128][pick(7) as usize];
            let sig: Vec<u8> = (0..len).map(|i| 200 + (i % 7) as u8).collect();
            let body = junk_plain(pick(3) as usize * pick(20) as usize);
            pay = Some(framed(&sig, &body));
        }
        3 => {
            let mut body = junk_plain(pick(20) as usize);
            body.insert(0, NO_DECODE);
            pay = Some(framed(&crc32(b"Frail").to_le_bytes(), &body));
        }
        4 => {
            // not a string
            let mut body = text(pick(20) as usize).into_bytes();
            body.push(0xff);
            pay = Some(framed(&crc32(b"String").to_le_bytes(), &body));
        }
        5 => {
            // an unknown variant
            let mut body = (2 + pick(1000) as u32).to_le_bytes().to_vec();
            body.extend(junk_plain(pick(20) as usize));
            pay = Some(framed(&crc32(b"Cmd").to_le_bytes(), &body));
        }
        6 => {
            // less than the payload needs
            let full = bin_rec(&Rec { id: word(), text: text(3), data: vec![1, 2], opt: Some(1), kind: Kind::B(1) });
            let cut = pick(full.len() as u64) as usize;
            pay = Some(framed(&crc32(b"Rec").to_le_bytes(), &full[..cut]));
        }
        _ => {
            // more blocks than a packet may hold
            let n = 256 + pick(40);
            blocks = (0..n).map(|_| enc_blk(&Blk::Bit(Bit { v: true }))).collect();
        }
    }
    let body: Vec<u8> = blocks.concat();
    let plen = pay.as_ref().map(|p| p.len()).unwrap_or(0);
    let mut v = header((body.len() + plen) as u64, body.len() as u64, pay.is_some());
    v.extend(body);
    v.extend(pay.unwrap_or_default());
    v
}

pub fn gen_pay(max_bits: u64, embed: bool) -> Pay {
    match pick(if weak() { 10 } else { 9 }) {
        8 => Pay::Frail(frail(max_bits)),
        9 => Pay::Free(Free {
            n: word() as u32,
            data: bytes(logsize(max_bits) as usize),
        }),
        7 => Pay::Seal(Seal {
            id: word(),
            data: bytes(logsize(max_bits) as usize),
        }),
        6 => {
            let data = bytes(logsize(max_bits) as usize);
            match pick(4) {
                0 => Pay::Wax(Wax { data }),
                1 => Pay::Lead(Lead { data }),
                2 => Pay::Iron(Iron { data }),
                _ => Pay::Gold(Gold { data }),
            }
        }
        5 => Pay::Memo(sub::Memo {
            text: text(pick(20) as usize),
        }),
        0 => Pay::Bytes({
            if embed && chance(1, 3) {
                // a complete foreign packet inside the payload: it is content, not a packet
                let mut inner = junk_plain(pick(40) as usize);
                inner.extend(gen_spec(6, 2, false).enc());
                inner.extend(junk_plain(pick(40) as usize));
                inner
            } else {
                bytes(logsize(max_bits) as usize)
            }
        }),
        1 => Pay::Str(text(logsize(max_bits.min(9)) as usize)),
        2 => Pay::Cmd(match pick(2) {
            0 => Cmd::Ping,
            _ => Cmd::Put((0..pick(20)).map(|_| word()).collect()),
        }),
        3 => Pay::Rec(Rec {
            id: word(),
            text: text(pick(30) as usize),
            data: bytes(logsize(max_bits) as usize),
            opt: if chance(1, 2) { Some(word() as u32) } else { None },
            kind: match pick(3) {
                0 => Kind::A,
                1 => Kind::B(word() as u32),
                _ => Kind::C {
                    x: word() as i64,
                    s: text(pick(10) as usize),
                },
            },
        }),
        _ => Pay::Raw(Raw {
            body: bytes(logsize(max_bits) as usize),
        }),
    }
}

/// A packet; `bits` bounds the payload size, `nblk` the usual number of blocks.
pub fn gen_spec(bits: u64, nblk: u64, embed: bool) -> Spec {
    let n = if nblk > 0 && chance(1, 60) {
        range(200, 255)
    } else {
        pick(nblk + 1)
    };
    let blocks: Vec<Blk> = if n >= 200 {
        let seed = pick(1 << 10);
        // blocks of many fields make more than a thousand slices of a packet
        let wide = chance(1, 3);
        (0..n)
            .map(|i| {
                if wide {
                    Blk::Blobs(Blobs {
                        head: [i as u8; 5],
                        n: (seed * 1000 + i) as u32,
                        body: [seed as u8; 64],
                        tail: [i as u8],
                        mode: if i % 2 == 0 { Mode::On } else { Mode::Auto },
                    })
                } else if (i + seed) % 3 == 0 {
                    Blk::Bit(Bit { v: i % 2 == 0 })
                } else {
                    Blk::Tag(Tag { id: seed * 1000 + i })
                }
            })
            .collect()
    } else {
        (0..n).map(|_| gen_blk()).collect()
    };
    let payload = if chance(2, 3) {
        Some(gen_pay(bits, embed))
    } else {
        None
    };
    Spec { blocks, payload }
}

/// A packet as large as the ones the small limits of a format tend to forget.
pub fn huge_spec(id: u64) -> Spec {
    let size = match pick(6) {
        0 | 1 => (1 << 16) - 120 + pick(160),
        2 => (1 << 16) + pick(1 << 14),
        3 => (1 << 15) - 120 + pick(160),
        4 => (1 << (17 + pick(2))) - 120 + pick(160),
        _ => logsize(19),
    };
    probe("huge_packet");
    let data = bytes(size as usize);
    Spec {
        blocks: vec![Blk::Tag(Tag { id })],
        payload: Some(match pick(5) {
            0 => Pay::Raw(Raw { body: data }),
            1 => Pay::Seal(Seal { id, data }),
            2 => Pay::Rec(Rec {
                id,
                text: text(4),
                data,
                opt: None,
                kind: Kind::A,
            }),
            _ => Pay::Bytes(data),
        }),
    }
}

/// A small packet for storage runs, unique by `id`.
pub fn small_spec(id: u64) -> Spec {
    let mut blocks = vec![Blk::Tag(Tag { id })];
    let mut payload = None;
    match pick(8) {
        0 => {}
        1 => payload = Some(Pay::Bytes(bytes(pick(60) as usize))),
        2 => {
            blocks = vec![];
            payload = Some(Pay::Cmd(Cmd::Put(vec![id])));
        }
        3 => blocks.push(Blk::Bit(Bit { v: true })),
        4 => payload = Some(Pay::Str(format!("{id}:{}", text(pick(20) as usize)))),
        5 => payload = Some(gen_pay(11, false)),
        6 => blocks.push(gen_blk()),
        _ => {
            payload = Some(Pay::Rec(Rec {
                id,
                text: text(4),
                data: vec![],
                opt: None,
                kind: Kind::A,
            }))
        }
    }
    Spec { blocks, payload }
}

/// Cheap deterministic packet used to pre-fill storages (one byte of variety per id, no choices).
pub fn filler(id: u64) -> Spec {
    Spec {
        blocks: vec![Blk::Tag(Tag { id })],
        payload: if id % 3 == 0 {
            Some(Pay::Bytes(vec![id as u8; (id % 23) as usize]))
        } else {
            None
        },
    }
}

/// Bytes that contain no packet signature byte at all.
pub fn junk_plain(len: usize) -> Vec<u8> {
    bytes(len)
        .into_iter()
        .map(|b| if b == 236 { 0 } else { b })
        .collect()
}

/// Foreign bytes between packets: noise, text, near-signatures, false headers.
/// Never contains a header that passes its checksum.
pub fn junk() -> Vec<u8> {
    let mut out = Vec::new();
    for _ in 0..range(1, 3) {
        match pick(9) {
            0 => out.extend(junk_plain(pick(12) as usize)),
            1 => out.extend(junk_plain(logsize(9) as usize)),
            2 => out.extend(text(logsize(7) as usize).into_bytes()),
            3 => out.extend(&PSIG[..pick(8) as usize]),
            4 => out.extend(&PSIG[4..]),
            5 => {
                // a false header: signature, then noise that fails the checksum
                out.extend(PSIG);
                out.extend(junk_plain(pick(40) as usize));
            }
            6 => {
                let mut h = header(pick(100), pick(50), chance(1, 2));
                let bit = pick(4 * 8);
                h[25 + (bit / 8) as usize] ^= 1 << (bit % 8);
                h.truncate(HDR - pick(3) as usize);
                out.extend(h);
            }
            7 => out.extend(SSIG),
            _ => out.extend(vec![pick(256) as u8; logsize(14) as usize]),
        }
    }
    out
}

/// Start offsets of checksum-valid packet headers in `data`.
pub fn valid_headers(data: &[u8]) -> Vec<usize> {
    let mut v = Vec::new();
    if data.len() < HDR {
        return v;
    }
    for i in 0..=data.len() - HDR {
        if data[i] == PSIG[0] && data[i..].starts_with(&PSIG) {
            let mut f = data[i + 8..i + 24].to_vec();
            f.push((data[i + 24] == 1) as u8);
            if crc32(&f).to_le_bytes() == data[i + 25..i + 29] {
                v.push(i);
            }
        }
    }
    v
}

/// Read of a block whose type the caller knows, with or without its signature.
pub fn typed_read<T: std::io::Read>(like: &Blk, src: &mut T, skip_sig: bool) -> Result<Blk, brec::Error> {
    use brec::ReadBlockFrom as R;
    Ok(match like {
        Blk::Tag(_) => Blk::Tag(<Tag as R>::read(src, skip_sig)?),
        Blk::Nums(_) => Blk::Nums(<Nums as R>::read(src, skip_sig)?),
        Blk::Blobs(_) => Blk::Blobs(<Blobs as R>::read(src, skip_sig)?),
        Blk::Big(_) => Blk::Big(<Big as R>::read(src, skip_sig)?),
        Blk::Bit(_) => Blk::Bit(<Bit as R>::read(src, skip_sig)?),
        Blk::Plain(_) => Blk::Plain(<Plain as R>::read(src, skip_sig)?),
        Blk::Note(_) => Blk::Note(<sub::Note as R>::read(src, skip_sig)?),
    })
}

/// The same from a slice, through the zero-copy view.
pub fn typed_slice(like: &Blk, src: &[u8], skip_sig: bool) -> Result<Blk, brec::Error> {
    use brec::ReadBlockFromSlice as R;
    Ok(blk_from_ref(&match like {
        Blk::Tag(_) => BlockReferred::Tag(<TagReferred as R>::read_from_slice(src, skip_sig)?),
        Blk::Nums(_) => BlockReferred::Nums(<NumsReferred as R>::read_from_slice(src, skip_sig)?),
        Blk::Blobs(_) => BlockReferred::Blobs(<BlobsReferred as R>::read_from_slice(src, skip_sig)?),
        Blk::Big(_) => BlockReferred::Big(<BigReferred as R>::read_from_slice(src, skip_sig)?),
        Blk::Bit(_) => BlockReferred::Bit(<BitReferred as R>::read_from_slice(src, skip_sig)?),
        Blk::Plain(_) => BlockReferred::Plain(<PlainReferred as R>::read_from_slice(src, skip_sig)?),
        Blk::Note(_) => BlockReferred::SubNote(<sub::NoteReferred as R>::read_from_slice(src, skip_sig)?),
    }))
}

/// Owned block made from its view by the generated conversion.
pub fn typed_owned(like: &Blk, src: &[u8]) -> Result<Blk, brec::Error> {
    use brec::ReadBlockFromSlice as R;
    Ok(match like {
        Blk::Tag(_) => Blk::Tag(<TagReferred as R>::read_from_slice(src, false)?.into()),
        Blk::Nums(_) => Blk::Nums(<NumsReferred as R>::read_from_slice(src, false)?.into()),
        Blk::Blobs(_) => Blk::Blobs(<BlobsReferred as R>::read_from_slice(src, false)?.into()),
        Blk::Big(_) => Blk::Big(<BigReferred as R>::read_from_slice(src, false)?.into()),
        Blk::Bit(_) => Blk::Bit(<BitReferred as R>::read_from_slice(src, false)?.into()),
        Blk::Plain(_) => Blk::Plain(<PlainReferred as R>::read_from_slice(src, false)?.into()),
        Blk::Note(_) => Blk::Note(<sub::NoteReferred as R>::read_from_slice(src, false)?.into()),
    })
}

/// Damage that keeps the structure plausible: the next byte that could be the length of a signature
/// or checksum becomes another such length.
pub fn relen(bad: &mut [u8], at: usize) {
    let l = 1u8 << (2 + pick(6));
    match bad[at..].iter().position(|b| b.is_power_of_two() && *b >= 4) {
        Some(d) => bad[at + d] = l,
        None => bad[at] = l,
    }
}
