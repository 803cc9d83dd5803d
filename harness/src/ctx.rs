//! Per-worker state, panic capture and library wrappers.
use crate::conv::*;
use crate::enc::*;
use crate::model::*;
use crate::rng::{Rng, hash_bytes};
use flate2::{Compression, write::ZlibEncoder};
use gvas::{GvasFile, error::Error, game_version::GameVersion};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{Cursor, Write};

/// A property violation that was observed.
#[derive(Debug, Clone)]
pub struct Viol {
    pub what: String,
    /// Stable key of the failure (no case-specific data).
    pub sig: String,
    pub input: Option<Vec<u8>>,
}
pub type CR = Result<(), Viol>;

pub fn viol<T>(sig: &str, what: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { what: what.into(), sig: sig.into(), input: None })
}
pub fn viol_in<T>(sig: &str, what: impl Into<String>, input: &[u8]) -> Result<T, Viol> {
    Err(Viol { what: what.into(), sig: sig.into(), input: Some(input.to_vec()) })
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub tier: Tier,
    pub evals: u64,
    pub hashes: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

impl Ctx {
    pub fn new(prop: &str, seed: u64, tier: Tier) -> Ctx {
        Ctx {
            prop: prop.into(),
            seed,
            tier,
            evals: 0,
            hashes: HashSet::new(),
            counters: BTreeMap::new(),
            samples: vec![],
        }
    }
    /// One oracle decision about an input.
    pub fn eval(&mut self, input: &[u8], nontrivial: bool) {
        self.evals += 1;
        if nontrivial && self.hashes.len() < 4_000_000 {
            self.hashes.insert(hash_bytes(input));
        }
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        match self.counters.get_mut(k) {
            Some(v) => *v += n,
            None => {
                self.counters.insert(k.into(), n);
            }
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let s = f();
            self.samples.push(s.chars().take(300).collect());
        }
    }
}

thread_local! {
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_LIB.with(|c| c.get()) {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "panic".into());
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST.with(|c| *c.borrow_mut() = format!("{msg} at {loc}"));
        } else {
            default(info);
        }
    }));
}

/// Runs library code; a panic becomes Err(description).
pub fn lib<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = IN_LIB.with(|c| c.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IN_LIB.with(|c| c.set(old));
    r.map_err(|_| LAST.with(|c| c.borrow().clone()))
}

/// As `lib`, with a panic reported as a violation.
pub fn must<T>(op: &str, f: impl FnOnce() -> T) -> Result<T, Viol> {
    match lib(f) {
        Ok(v) => Ok(v),
        Err(p) => viol(&format!("panic in {op}"), format!("{op} panicked: {p}")),
    }
}

pub type Hints = HashMap<String, String>;

pub fn read_file(bytes: &[u8], pal: bool, hints: &Hints) -> Result<GvasFile, Error> {
    let mut c = Cursor::new(bytes);
    let gv = if pal { GameVersion::Palworld } else { GameVersion::Default };
    GvasFile::read_with_hints(&mut c, gv, hints)
}

pub fn write_file(f: &GvasFile) -> Result<Vec<u8>, Error> {
    let mut c = Cursor::new(Vec::new());
    f.write(&mut c)?;
    Ok(c.into_inner())
}

pub fn deflate(data: &[u8], level: u32) -> Vec<u8> {
    let mut e = ZlibEncoder::new(Vec::new(), Compression::new(level));
    e.write_all(data).expect("harness: deflate");
    e.finish().expect("harness: deflate")
}

pub fn inflate(data: &[u8]) -> Result<Vec<u8>, String> {
    use std::io::Read;
    let mut out = vec![];
    let mut d = flate2::bufread::ZlibDecoder::new(data);
    d.read_to_end(&mut out).map_err(|e| e.to_string())?;
    let left = d.into_inner().len();
    if left != 0 {
        return Err(format!("{left} bytes after the zlib stream"));
    }
    Ok(out)
}

/// Reference container.
pub fn container(payload: &[u8], pal: Pal, l1: u32, l2: u32) -> Vec<u8> {
    let (ty, body, clen) = match pal {
        Pal::None => (0x30u8, payload.to_vec(), payload.len()),
        Pal::Zlib => {
            let b = deflate(payload, l1);
            let n = b.len();
            (0x31, b, n)
        }
        Pal::Twice => {
            let a = deflate(payload, l1);
            let b = deflate(&a, l2);
            (0x32, b, a.len())
        }
    };
    let mut o = vec![];
    o.extend((payload.len() as u32).to_le_bytes());
    o.extend((clen as u32).to_le_bytes());
    o.extend(b"PlZ");
    o.push(ty);
    o.extend(body);
    o
}

/// Splits a container written by the library into its payload (decompressed).
pub fn unpack(bytes: &[u8]) -> Result<(u32, u32, Pal, Vec<u8>, usize), String> {
    if bytes.len() < 12 {
        return Err("container shorter than its preamble".into());
    }
    let d = u32::from_le_bytes(bytes[0..4].try_into().unwrap());
    let c = u32::from_le_bytes(bytes[4..8].try_into().unwrap());
    if &bytes[8..11] != b"PlZ" {
        return Err("container magic missing".into());
    }
    let body = &bytes[12..];
    match bytes[11] {
        0x30 => Ok((d, c, Pal::None, body.to_vec(), body.len())),
        0x31 => {
            let p = inflate(body)?;
            Ok((d, c, Pal::Zlib, p, body.len()))
        }
        0x32 => {
            let a = inflate(body)?;
            let p = inflate(&a)?;
            Ok((d, c, Pal::Twice, p, a.len()))
        }
        t => Err(format!("unknown container type {t:#x}")),
    }
}

/// Everything about a generated file.
pub struct Made {
    pub m: File,
    pub enc: Enc,
    pub hints: Hints,
}

pub fn make(m: File) -> Made {
    let enc = encode_file(&m);
    let hints = hint_table(&enc);
    Made { m, enc, hints }
}

impl Made {
    /// The bytes a reader is given.
    pub fn bytes(&self, r: &mut Rng) -> Vec<u8> {
        match self.m.pal {
            None => self.enc.buf.clone(),
            Some(p) => container(&self.enc.buf, p, r.below(10) as u32, r.below(10) as u32),
        }
    }
    pub fn plain(mut self) -> Made {
        self.m.pal = None;
        self
    }
    pub fn value(&self) -> GvasFile {
        to_file(&self.m)
    }
    /// More than an empty property list.
    pub fn nontrivial(&self) -> bool {
        !self.m.props.is_empty()
    }
    pub fn describe(&self) -> String {
        let mut kinds: Vec<&str> = self.m.props.iter().map(|(_, p)| type_name(p)).collect();
        kinds.truncate(6);
        format!("{} bytes, {} fields, pal={:?}, top={:?}", self.enc.buf.len(), self.enc.fields.len(), self.m.pal, kinds)
    }
}

pub fn diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let w = |v: &[u8]| {
        let lo = i.saturating_sub(8).min(v.len());
        let hi = (i + 24).min(v.len());
        format!("{:02x?}", &v[lo..hi])
    };
    format!("lengths {} vs {}, first difference at {i}: {} vs {}", a.len(), b.len(), w(a), w(b))
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}
