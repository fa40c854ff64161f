//! The user-side protocol the simulation drives: every supported field type, every kind of payload.
//! All (de)serialisation code here is generated by brec's own macros from /repo.
//! A panic located in this file is therefore a panic of the code under test.

pub use brec::prelude::*;

#[derive(Debug, PartialEq, Clone)]
pub enum Mode {
    Off,
    On,
    Auto,
}

impl TryFrom<u8> for Mode {
    type Error = String;
    fn try_from(value: u8) -> Result<Self, Self::Error> {
        match value {
            0 => Ok(Mode::Off),
            1 => Ok(Mode::On),
            2 => Ok(Mode::Auto),
            invalid => Err(format!("{invalid} isn't a valid Mode")),
        }
    }
}

impl From<&Mode> for u8 {
    fn from(value: &Mode) -> Self {
        match value {
            Mode::Off => 0,
            Mode::On => 1,
            Mode::Auto => 2,
        }
    }
}

#[block]
#[derive(Debug, Clone)]
pub struct Tag {
    pub id: u64,
}

#[block]
#[derive(Debug, Clone)]
pub struct Nums {
    pub a: u8,
    pub b: u16,
    pub c: u32,
    pub d: u64,
    pub e: u128,
    pub f: i8,
    pub g: i16,
    pub h: i32,
    pub i: i64,
    pub j: i128,
    pub k: f32,
    pub l: f64,
    pub m: bool,
}

#[block]
#[derive(Debug, Clone)]
pub struct Blobs {
    pub head: [u8; 5],
    pub n: u32,
    pub body: [u8; 64],
    pub tail: [u8; 1],
    pub mode: Mode,
}

#[block]
#[derive(Debug, Clone)]
pub struct Big {
    pub n: u16,
    pub body: [u8; 900],
}

#[block]
#[derive(Debug, Clone)]
pub struct Bit {
    pub v: bool,
}

/// A block without a checksum: its CRC field is zero.
#[block(no_crc)]
#[derive(Debug, Clone)]
pub struct Plain {
    pub x: u32,
    pub y: [u8; 3],
    pub z: bool,
}

// The generated code of a block with a path expects its view to be in scope.
use sub::NoteReferred;

pub mod sub {
    use brec::prelude::*;

    /// A block and a payload that are reachable by a path only.
    #[block(path = sub)]
    #[derive(Debug, Clone)]
    pub struct Note {
        pub a: i32,
        pub b: [u8; 9],
    }

    #[payload(path = sub, bincode)]
    #[derive(serde::Serialize, serde::Deserialize, PartialEq, Debug, Clone)]
    pub struct Memo {
        pub text: String,
    }
}

#[derive(serde::Serialize, serde::Deserialize, PartialEq, Debug, Clone)]
pub enum Kind {
    A,
    B(u32),
    C { x: i64, s: String },
}

#[payload(bincode)]
#[derive(serde::Serialize, serde::Deserialize, PartialEq, Debug, Clone)]
pub struct Rec {
    pub id: u64,
    pub text: String,
    pub data: Vec<u8>,
    pub opt: Option<u32>,
    pub kind: Kind,
}

#[payload(bincode)]
#[derive(serde::Serialize, serde::Deserialize, PartialEq, Debug, Clone)]
pub enum Cmd {
    Ping,
    Put(Vec<u64>),
}

/// A payload without a checksum.
#[payload(bincode, no_crc)]
#[derive(serde::Serialize, serde::Deserialize, PartialEq, Debug, Clone)]
pub struct Free {
    pub n: u32,
    pub data: Vec<u8>,
}

/// A payload with a signature and a checksum of its own, as long as the format allows.
#[payload(bincode, no_auto_crc, no_default_sig)]
#[derive(serde::Serialize, serde::Deserialize, PartialEq, Debug, Clone)]
pub struct Seal {
    pub id: u64,
    pub data: Vec<u8>,
}

pub const SEAL_SIG: [u8; 128] = *b"seal-seal-seal-seal-seal-seal-seal-seal-seal-seal-seal-seal-seal\
seal-seal-seal-seal-seal-seal-seal-seal-seal-seal-seal-seal-seal";

impl brec::PayloadSignature for Seal {
    fn sig(&self) -> brec::ByteBlock {
        brec::ByteBlock::Len128(SEAL_SIG)
    }
}
impl brec::StaticPayloadSignature for Seal {
    fn ssig() -> brec::ByteBlock {
        brec::ByteBlock::Len128(SEAL_SIG)
    }
}

/// A long checksum: CRC32 of the body continued.
pub fn wide_crc(body: &[u8], len: usize) -> Vec<u8> {
    let mut out = vec![0u8; len];
    let mut v = body.to_vec();
    for c in out.chunks_mut(4) {
        let crc = crate::model::crc32(&v);
        c.copy_from_slice(&crc.to_le_bytes());
        v.extend_from_slice(c);
    }
    out
}

pub fn seal_crc(body: &[u8]) -> [u8; 64] {
    wide_crc(body, 64).try_into().expect("64 bytes")
}

impl brec::PayloadCrc for Seal {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> {
        Ok(brec::ByteBlock::Len64(seal_crc(&brec::PayloadEncode::encode(self)?)))
    }
    fn crc_size() -> usize {
        64
    }
}

/// A payload that documents the 64-bit checksum.
#[payload(bincode, no_auto_crc)]
#[derive(serde::Serialize, serde::Deserialize, PartialEq, Debug, Clone)]
pub struct Wax {
    pub data: Vec<u8>,
}

impl brec::PayloadCrc for Wax {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> {
        let mut out = [0u8; 8];
        out.copy_from_slice(&seal_crc(&brec::PayloadEncode::encode(self)?)[..8]);
        Ok(brec::ByteBlock::Len8(out))
    }
    fn crc_size() -> usize {
        8
    }
}

/// Every other length a signature and a checksum may have.
macro_rules! lengths {
    ($ty:ident, $sig:ident, $sv:ident, $sn:literal, $cv:ident, $cn:literal) => {
        pub const $sig: [u8; $sn] = own_sig($sn);
        impl brec::PayloadSignature for $ty {
            fn sig(&self) -> brec::ByteBlock {
                brec::ByteBlock::$sv($sig)
            }
        }
        impl brec::StaticPayloadSignature for $ty {
            fn ssig() -> brec::ByteBlock {
                brec::ByteBlock::$sv($sig)
            }
        }
        impl brec::PayloadCrc for $ty {
            fn crc(&self) -> std::io::Result<brec::ByteBlock> {
                let mut out = [0u8; $cn];
                out.copy_from_slice(&wide_crc(&brec::PayloadEncode::encode(self)?, $cn));
                Ok(brec::ByteBlock::$cv(out))
            }
            fn crc_size() -> usize {
                $cn
            }
        }
    };
}

const fn own_sig<const N: usize>(salt: u8) -> [u8; N] {
    let mut out = [salt; N];
    let mut i = 1;
    while i < N {
        out[i] = 3u8.wrapping_mul(i as u8) ^ salt;
        i += 1;
    }
    out
}

#[payload(bincode, no_auto_crc, no_default_sig)]
#[derive(serde::Serialize, serde::Deserialize, PartialEq, Debug, Clone)]
pub struct Lead {
    pub data: Vec<u8>,
}
lengths!(Lead, LEAD_SIG, Len8, 8, Len128, 128);

#[payload(bincode, no_auto_crc, no_default_sig)]
#[derive(serde::Serialize, serde::Deserialize, PartialEq, Debug, Clone)]
pub struct Iron {
    pub data: Vec<u8>,
}
lengths!(Iron, IRON_SIG, Len32, 32, Len16, 16);

#[payload(bincode, no_auto_crc, no_default_sig)]
#[derive(serde::Serialize, serde::Deserialize, PartialEq, Debug, Clone)]
pub struct Gold {
    pub data: Vec<u8>,
}
lengths!(Gold, GOLD_SIG, Len64, 64, Len32, 32);

/// A payload with hand-written encoding and a long signature.
#[payload(no_default_sig)]
#[derive(PartialEq, Debug, Clone)]
pub struct Raw {
    pub body: Vec<u8>,
}

pub const RAW_SIG: [u8; 16] = *b"raw-payload-sig!";

impl brec::PayloadSignature for Raw {
    fn sig(&self) -> brec::ByteBlock {
        brec::ByteBlock::Len16(RAW_SIG)
    }
}
impl brec::StaticPayloadSignature for Raw {
    fn ssig() -> brec::ByteBlock {
        brec::ByteBlock::Len16(RAW_SIG)
    }
}
impl brec::PayloadSize for Raw {
    fn size(&self) -> std::io::Result<u64> {
        Ok(self.body.len() as u64)
    }
}
impl brec::PayloadCrc for Raw {}
impl brec::PayloadEncode for Raw {
    fn encode(&self) -> std::io::Result<Vec<u8>> {
        Ok(self.body.iter().map(|b| b ^ 0x5a).collect())
    }
}
impl brec::PayloadEncodeReferred for Raw {
    fn encode(&self) -> std::io::Result<Option<&[u8]>> {
        Ok(None)
    }
}
impl brec::PayloadDecode<Raw> for Raw {
    fn decode(buf: &[u8]) -> std::io::Result<Raw> {
        Ok(Raw {
            body: buf.iter().map(|b| b ^ 0x5a).collect(),
        })
    }
}

/// A payload whose codec refuses some contents.
#[payload]
#[derive(PartialEq, Debug, Clone)]
pub struct Frail {
    pub body: Vec<u8>,
}

/// First byte of a body that cannot be encoded / decoded.
pub const NO_ENCODE: u8 = 0xe1;
pub const NO_DECODE: u8 = 0xd1;
/// First byte of a body that pretends to be longer than the length field of a payload can say.
pub const NO_FIT: u8 = 0xf1;

impl Frail {
    fn fine(&self) -> std::io::Result<()> {
        if self.body.first() == Some(&NO_ENCODE) {
            Err(std::io::Error::other("the user's encoder gives up"))
        } else {
            Ok(())
        }
    }
}
impl brec::PayloadSize for Frail {
    fn size(&self) -> std::io::Result<u64> {
        Ok(match self.body.first() {
            Some(&NO_FIT) => u32::MAX as u64 + self.body.len() as u64,
            _ => self.body.len() as u64,
        })
    }
}
impl brec::PayloadCrc for Frail {}
impl brec::PayloadEncode for Frail {
    fn encode(&self) -> std::io::Result<Vec<u8>> {
        self.fine()?;
        Ok(self.body.clone())
    }
}
impl brec::PayloadEncodeReferred for Frail {
    fn encode(&self) -> std::io::Result<Option<&[u8]>> {
        self.fine()?;
        Ok(Some(&self.body))
    }
}
impl brec::PayloadDecode<Frail> for Frail {
    fn decode(buf: &[u8]) -> std::io::Result<Frail> {
        if buf.first() == Some(&NO_DECODE) {
            return Err(std::io::Error::other("the user's decoder gives up"));
        }
        Ok(Frail { body: buf.to_vec() })
    }
}

brec::generate!();
