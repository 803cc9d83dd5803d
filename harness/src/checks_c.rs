//! C14..C17, C19..C22: conversions, comparison, versions, histories, constructors, memory, stability.
use crate::alloc;
use crate::bulk::{Site, bulk_file};
use crate::checks_a::*;
use crate::checks_b::*;
use crate::conv::*;
use crate::ctx::*;
use crate::dec::*;
use crate::edit::*;
use crate::enc::*;
use crate::gen_::*;
use crate::io::*;
use crate::model::*;
use crate::mutate::*;
use crate::rng::{Rng, hash_bytes};
use gvas::cursor_ext::{ReadExt, WriteExt};
use gvas::properties::array_property::ArrayProperty;
use gvas::properties::map_property::MapProperty;
use gvas::properties::struct_property::StructPropertyValue;
use gvas::properties::{Property, PropertyTrait};
use gvas::types::{Guid, map::HashableIndexMap};
use gvas::{GvasFile, GvasHeader};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Condvar, Mutex};
use std::collections::HashMap;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::io::{Cursor, Read, Seek, SeekFrom};
use std::str::FromStr;

// ---------------------------------------------------------------------------------
fn json_prop(p: &Property, ctx: &mut Ctx) -> CR {
    let want = fp_prop(p);
    let t = match must("to JSON", || serde_json::to_string(p))? {
        Ok(t) => t,
        Err(e) => return viol("property to JSON failed", format!("{e}")),
    };
    ctx.eval(t.as_bytes(), true);
    match must("from JSON", || serde_json::from_str::<Property>(&t))? {
        Ok(q) => {
            let got = fp_prop(&q);
            if got != want {
                return viol_in(
                    "property JSON value",
                    format!("{}: {}", t.chars().take(400).collect::<String>(), diff(&want, &got)),
                    t.as_bytes(),
                );
            }
            Ok(())
        }
        Err(e) => viol_in("property from JSON failed", format!("{e}: {}", t.chars().take(400).collect::<String>()), t.as_bytes()),
    }
}

pub fn c14(idx: u64, r: &mut Rng, ctx: &mut Ctx) -> CR {
    let mut m = case_file(r, idx, true);
    m.props.iter_mut().for_each(|(_, p)| finite(p));
    if m.props.iter().any(|(_, p)| has_dups(p)) {
        return Ok(());
    }
    let made = make(m);
    let v = must("building a file", || made.value())?;
    let want = fp_file(&v);
    ctx.sample(|| made.describe());
    let pretty = r.chance(1, 8);
    let text = must("to JSON", || if pretty { serde_json::to_string_pretty(&v) } else { serde_json::to_string(&v) })?;
    let text = match text {
        Ok(t) => t,
        Err(e) => return viol_in("to JSON failed", format!("{e}"), &made.enc.buf),
    };
    ctx.eval(text.as_bytes(), made.nontrivial());
    let back: GvasFile = match must("from JSON", || serde_json::from_str(&text))? {
        Ok(f) => f,
        Err(e) => return viol_in("from JSON failed", format!("{e}: {}", text.chars().take(300).collect::<String>()), text.as_bytes()),
    };
    let got = must("inspect", || fp_file(&back))?;
    if got != want {
        return viol_in("JSON value", format!("value changed through JSON: {}", diff(&want, &got)), text.as_bytes());
    }
    if !must("compare", || back == v)? {
        return viol_in("JSON equality", "the value parsed from JSON does not compare equal", text.as_bytes());
    }
    match must("write", || (write_file(&v), write_file(&back)))? {
        (Ok(a), Ok(b)) if a == b => {}
        (Ok(a), Ok(b)) => return viol_in("JSON bytes", format!("saves differ: {}", diff(&a, &b)), text.as_bytes()),
        (a, b) => return viol_in("JSON write", format!("{:?} {:?}", a.err(), b.err()), text.as_bytes()),
    }
    // through a JSON document tree as well
    if r.chance(1, 4) {
        let tree = must("to JSON", || serde_json::to_value(&v))?;
        if let Ok(tree) = tree {
            match must("from JSON", || serde_json::from_value::<GvasFile>(tree))? {
                Ok(f) if fp_file(&f) == want => {}
                Ok(f) => return viol_in("JSON tree value", diff(&want, &fp_file(&f)), text.as_bytes()),
                Err(e) => return viol_in("JSON tree failed", e.to_string(), text.as_bytes()),
            }
        }
    }
    // values on their own
    let mut n = 0;
    let mut res: CR = Ok(());
    for (_, p) in &made.m.props {
        walk_p(p, &mut |p| {
            n += 1;
            if n < 40 && res.is_ok() {
                let lp = to_prop(p);
                res = json_prop(&lp, ctx);
            }
        });
    }
    res
}

// ---------------------------------------------------------------------------------
fn hexu(b: u8) -> String {
    const D: &[u8; 16] = b"0123456789ABCDEF";
    String::from_utf8(vec![D[(b >> 4) as usize], D[(b & 15) as usize]]).unwrap()
}
fn guid_text(g: &[u8; 16]) -> String {
    if *g == [0; 16] {
        return "0".into();
    }
    let mut s = String::new();
    for (i, b) in g.iter().enumerate() {
        if [4, 6, 8, 10].contains(&i) {
            s.push('-');
        }
        s += &hexu(*b);
    }
    s
}

/// Some(result) where the description decides.
fn guid_parse(s: &str) -> Option<Result<[u8; 16], ()>> {
    let t: String = s.chars().filter(|c| *c != '-').collect();
    let t = t.trim_matches([' ', '\t', '\n', '\r']);
    if t.starts_with(|c: char| c.is_whitespace()) || t.ends_with(|c: char| c.is_whitespace()) {
        return None;
    }
    let inner = match (t.starts_with('{'), t.ends_with('}')) {
        (true, true) if t.len() >= 2 => &t[1..t.len() - 1],
        (false, false) => t,
        _ => return None,
    };
    if inner.starts_with(|c: char| c.is_whitespace()) || inner.ends_with(|c: char| c.is_whitespace()) {
        return None;
    }
    if inner == "0" {
        return Some(Ok([0; 16]));
    }
    let d: Option<Vec<u8>> = inner.chars().map(|c| c.to_digit(16).filter(|_| c.is_ascii()).map(|d| d as u8)).collect();
    match d {
        Some(d) if d.len() == 32 => {
            let mut g = [0; 16];
            for i in 0..16 {
                g[i] = d[2 * i] << 4 | d[2 * i + 1];
            }
            Some(Ok(g))
        }
        _ => Some(Err(())),
    }
}

fn one_guid(g: [u8; 16], ctx: &mut Ctx) -> CR {
    ctx.eval(&g, true);
    let bad = |what: &str| -> CR { viol_in(&format!("guid {what}"), format!("{what} wrong for {}", hex(&g)), &g) };
    let x = Guid(g);
    let words: [u32; 4] = std::array::from_fn(|i| {
        g[4 * i] as u32 | (g[4 * i + 1] as u32) << 8 | (g[4 * i + 2] as u32) << 16 | (g[4 * i + 3] as u32) << 24
    });
    let mut int = 0u128;
    for (i, b) in g.iter().enumerate() {
        int |= (*b as u128) << (8 * i);
    }
    must("guid conversions", || -> CR {
        if Guid::from_u8(g).0 != g || x.to_u8() != g {
            return bad("bytes");
        }
        if x.to_u32() != words || <[u32; 4]>::from(x) != words {
            return bad("to words");
        }
        if Guid::from_u32(words).0 != g || Guid::from(words).0 != g {
            return bad("from words");
        }
        if x.to_u128() != int || u128::from(x) != int {
            return bad("to integer");
        }
        if Guid::from_u128(int).0 != g || Guid::from(int).0 != g {
            return bad("from integer");
        }
        if x.is_zero() != (g == [0; 16]) {
            return bad("is_zero");
        }
        let t = guid_text(&g);
        if x.to_string() != t {
            return bad("text");
        }
        match Guid::from_str(&t) {
            Ok(y) if y.0 == g => {}
            _ => return bad("parse of own text"),
        }
        match serde_json::to_string(&x) {
            Ok(j) if j == format!("\"{t}\"") => {}
            _ => return bad("JSON text"),
        }
        match serde_json::from_str::<Guid>(&format!("\"{t}\"")) {
            Ok(y) if y.0 == g => {}
            _ => return bad("parse of JSON text"),
        }
        let mut out = Vec::new();
        match out.write_guid(&x) {
            Ok(()) if out == g => {}
            _ => return bad("written bytes"),
        }
        match Cursor::new(&g[..]).read_guid() {
            Ok(y) if y.0 == g => {}
            _ => return bad("read bytes"),
        }
        if (x == Guid::default()) != (g == [0; 16]) {
            return bad("default");
        }
        Ok(())
    })?
}

pub fn c15_directed() -> u64 {
    6000
}

pub fn c15(idx: u64, r: &mut Rng, ctx: &mut Ctx) -> CR {
    // conversions
    let g: [u8; 16] = if idx < 4096 {
        let mut g = [0; 16];
        g[(idx / 256) as usize] = (idx % 256) as u8;
        g
    } else {
        match r.below(6) {
            0 => {
                let mut g = [0; 16];
                g[r.usize(16)] = 1 << r.below(8);
                g
            }
            1 => [r.u64() as u8; 16],
            2 => {
                let mut g = [0xff; 16];
                g[r.usize(16)] = r.u64() as u8;
                g
            }
            3 => {
                // words that are zero or have few digits
                let mut g = [0; 16];
                for i in 0..16 {
                    if r.bool() {
                        g[i] = r.below(16) as u8;
                    }
                }
                g
            }
            _ => r.guid(),
        }
    };
    one_guid(g, ctx)?;
    // texts
    for _ in 0..4 {
        let mut s: Vec<char> = match r.below(6) {
            0 => vec!['0'],
            1 => hex(&r.guid()).chars().collect(),
            _ => guid_text(&r.guid()).chars().collect(),
        };
        if r.chance(1, 3) {
            s = s.iter().map(|c| if r.bool() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect();
        }
        if r.chance(1, 3) {
            for _ in 0..r.usize(5) {
                let i = r.usize(s.len() + 1);
                s.insert(i, '-');
            }
        }
        if r.chance(1, 4) {
            s.insert(0, '{');
            s.push('}');
        }
        if r.chance(1, 4) {
            for _ in 0..r.usize(3) {
                s.insert(0, *r.pick(&[' ', '\t', '\n', '\r']));
            }
            for _ in 0..r.usize(3) {
                s.push(*r.pick(&[' ', '\t', '\n', '\r']));
            }
        }
        for _ in 0..*r.pick(&[0usize, 0, 1, 1, 2]) {
            let c = match r.below(7) {
                0 => '+',
                1 => *r.pick(&['g', 'G', 'x', 'X', '/', ':', '@', '`', '_', 'l', 'O']),
                2 => *r.pick(&['\u{ff10}', '\u{660}', 'é', '\u{2028}', '😀', '\u{0}', '\u{2013}']),
                3 => *r.pick(&['{', '}', ' ', '\t', '.', ',', '#']),
                4 => char::from_u32(r.below(0x250) as u32).unwrap_or('?'),
                _ => *r.pick(&['0', 'f', 'A', '9']),
            };
            let i = r.usize(s.len() + 1);
            match r.below(3) {
                0 => s.insert(i, c),
                1 if i < s.len() => s[i] = c,
                _ if i < s.len() => {
                    s.remove(i);
                }
                _ => {}
            }
        }
        let s: String = s.into_iter().collect();
        ctx.eval(s.as_bytes(), !s.is_empty());
        ctx.sample(|| s.clone());
        let Some(want) = guid_parse(&s) else {
            ctx.count("texts left open");
            must("guid parse", || Guid::from_str(&s).is_ok())?;
            continue;
        };
        let got = must("guid parse", || Guid::from_str(&s).map(|g| g.0).map_err(|_| ()))?;
        ctx.count(if want.is_ok() { "texts accepted" } else { "texts rejected" });
        if got != want {
            return viol_in("guid parse", format!("parsing {s:?} gave {got:?} instead of {want:?}"), s.as_bytes());
        }
        let j = serde_json::to_string(&s).expect("harness: json string");
        let got = must("guid from JSON", || serde_json::from_str::<Guid>(&j).map(|g| g.0).map_err(|_| ()))?;
        if got != want {
            return viol_in("guid JSON parse", format!("parsing {j} gave {got:?} instead of {want:?}"), s.as_bytes());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        hash_bytes(&self.0)
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
#[derive(Default)]
struct Typed(Vec<u8>);
impl Hasher for Typed {
    fn finish(&self) -> u64 {
        hash_bytes(&self.0)
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push(1);
        self.0.extend_from_slice(&b.len().to_le_bytes());
        self.0.extend_from_slice(b);
    }
    fn write_u8(&mut self, i: u8) {
        self.0.extend([2, i]);
    }
    fn write_u32(&mut self, i: u32) {
        self.0.push(3);
        self.0.extend(i.to_le_bytes());
    }
    fn write_u64(&mut self, i: u64) {
        self.0.push(4);
        self.0.extend(i.to_le_bytes());
    }
    fn write_usize(&mut self, i: usize) {
        self.0.push(5);
        self.0.extend(i.to_le_bytes());
    }
}

fn hashes<T: Hash>(v: &T) -> [u64; 3] {
    let mut a = DefaultHasher::new();
    v.hash(&mut a);
    let mut b = Rec::default();
    v.hash(&mut b);
    let mut c = Typed::default();
    v.hash(&mut c);
    [a.finish(), b.finish(), c.finish()]
}

/// Checks one pair whose content relation is known.
fn pair(what: &str, a: &Property, b: &Property, same: bool, ctx: &mut Ctx) -> CR {
    let (ab, ba, aa, bb) = must("compare", || (a == b, b == a, a == a, b == b))?;
    ctx.count(if same { "equal pairs" } else { "different pairs" });
    let show = || format!("{:.300} / {:.300}", format!("{a:?}"), format!("{b:?}"));
    if !aa || !bb {
        return viol(&format!("{what}: not equal to itself"), show());
    }
    if ab != ba {
        return viol(&format!("{what}: not symmetric"), show());
    }
    if ab != same {
        return viol(&format!("{what}: equality is {ab}"), format!("contents are {}: {}", if same { "the same" } else { "different" }, show()));
    }
    if same {
        let (x, y) = must("hash", || (hashes(a), hashes(b)))?;
        if x != y {
            return viol(&format!("{what}: hashes differ"), format!("equal values hash to {x:x?} and {y:x?}: {}", show()));
        }
        let found = must("map lookup", || {
            let mut m: HashableIndexMap<Property, u32> = HashableIndexMap::new();
            m.insert(a.clone(), 5);
            m.get(b).copied()
        })?;
        if found != Some(5) {
            return viol(&format!("{what}: not found as a map key"), show());
        }
    }
    if (a != b) == ab {
        return viol(&format!("{what}: != disagrees with =="), show());
    }
    Ok(())
}

pub fn c16(idx: u64, r: &mut Rng, ctx: &mut Ctx) -> CR {
    let f = case_file(r, idx, false);
    if f.props.is_empty() {
        return Ok(());
    }
    let p = &r.pick(&f.props).1.clone();
    if has_dups(p) {
        return Ok(());
    }
    let cp = canon(p);
    if cp.len() > 20_000 {
        return Ok(());
    }
    let lp = to_prop(p);
    ctx.eval(&cp, true);
    ctx.sample(|| format!("{} with {} fields", type_name(p), count(p)));
    let cl = must("clone", || lp.clone())?;
    pair("clone", &lp, &cl, true, ctx)?;
    if fp_prop(&cl) != fp_prop(&lp) {
        return viol("clone content", "a clone has other content");
    }
    for _ in 0..2 {
        let q = shuffled(p, r);
        if canon(&q) != cp {
            panic!("harness: shuffling changed the canonical form");
        }
        let mut enc = vec![];
        canon_p(&q, &mut enc);
        ctx.eval(&with_ver(Ver { lwc: false, arg64: false, invariant: false }, |_| ()).0.buf, false);
        pair("reordered", &lp, &to_prop(&q), true, ctx)?;
        let q = refloated(&q, r);
        if canon(&q) == cp && !has_dups(&q) {
            pair("zeros and NaNs", &lp, &to_prop(&q), true, ctx)?;
        }
    }
    let n = count(p);
    for k in positions(n, 40, r) {
        let q = edited(p, k, r);
        if has_dups(&q) {
            continue;
        }
        let cq = canon(&q);
        ctx.eval(&[cp.as_slice(), &cq].concat(), true);
        pair("edited", &lp, &to_prop(&q), cq == cp, ctx)?;
    }
    // unrelated values, including across kinds
    let other = &r.pick(&f.props).1;
    if !has_dups(other) {
        pair("unrelated", &lp, &to_prop(other), canon(other) == cp, ctx)?;
    }
    // the map type
    let m: Vec<(String, i64)> = {
        let n = r.usize(8);
        (0..n).map(|i| (format!("{}{i}", r.below(3)), r.below(3) as i64)).collect()
    };
    let mut s = m.clone();
    r.shuffle(&mut s);
    if r.bool() && !s.is_empty() {
        let i = r.usize(s.len());
        match r.below(3) {
            0 => s[i].1 += 1,
            1 => s[i].0.push('x'),
            _ => {
                s.remove(i);
            }
        }
    }
    let sorted = |v: &[(String, i64)]| {
        let mut v = v.to_vec();
        v.sort();
        v
    };
    let same = sorted(&m) == sorted(&s);
    let (a, b) = (
        HashableIndexMap(m.iter().cloned().collect::<indexmap::IndexMap<_, _>>()),
        HashableIndexMap(s.iter().cloned().collect::<indexmap::IndexMap<_, _>>()),
    );
    let eq = must("compare", || a == b && b == a)?;
    if eq != same {
        return viol("map equality", format!("{a:?} == {b:?} is {eq}"));
    }
    if same && must("hash", || hashes(&a) != hashes(&b))? {
        return viol("map hash", format!("{a:?} and {b:?} are equal but hash differently"));
    }
    // whole files
    if r.chance(1, 4) {
        let v = to_file(&f);
        let mut g = f.clone();
        let i = r.usize(g.props.len());
        let k = r.usize(count(&g.props[i].1));
        g.props[i].1 = edited(&g.props[i].1, k, r);
        if !has_dups(&g.props[i].1) && !has_dups(&f.props[i].1) {
            let same = canon(&g.props[i].1) == canon(&f.props[i].1);
            let w = to_file(&g);
            if must("compare", || v == w)? != same {
                return viol("file equality", format!("files whose property {i} differs by one edit compare {}", !same));
            }
        }
        let mut g = f.clone();
        r.shuffle(&mut g.props);
        if must("compare", || v != to_file(&g))? {
            return viol("file equality", "files with reordered properties compare different");
        }
        let mut g = f.clone();
        match r.below(8) {
            0 => g.header.pkg ^= 1,
            1 => g.header.major ^= 1,
            2 => g.header.minor ^= 1 << r.below(16),
            3 => g.header.patch ^= 1,
            4 => g.header.changelist ^= 1 << r.below(32),
            5 => g.header.branch.push('x'),
            6 => g.header.class.push('x'),
            _ => match g.header.custom.first_mut() {
                Some(c) => c.1 ^= 1,
                None => g.header.custom.push(([7; 16], 1)),
            },
        }
        if must("compare", || v == to_file(&g) || v.header == to_header(&g.header))? {
            return viol("header equality", "files whose header differs in one field compare equal");
        }
        if must("compare", || v.header != to_header(&f.header))? {
            return viol("header equality", "equal headers compare different");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------
fn fits_text(t: &Text, v: Ver) -> bool {
    let mut ok = true;
    walk_text(t, &mut |part| match part {
        TextPart::Hist(Hist::None(_)) => ok &= v.invariant,
        TextPart::Arg(Arg::Int(_) | Arg::UInt(_)) => ok &= !v.arg64,
        TextPart::Arg(Arg::Int64(_) | Arg::UInt64(_)) => ok &= v.arg64,
        _ => {}
    });
    ok
}
fn fits_sv(sv: &SV, v: Ver) -> bool {
    match sv {
        SV::V2F(_) | SV::VF(_) | SV::RF(_) | SV::QF(_) => !v.lwc,
        SV::V2D(_) | SV::VD(_) | SV::RD(_) | SV::QD(_) => v.lwc,
        SV::Custom(m) => m.iter().all(|(_, ps)| ps.iter().all(|p| fits(p, v))),
        _ => true,
    }
}
/// Whether a value can be written under these versions.
fn fits(p: &P, v: Ver) -> bool {
    match p {
        P::Text(t) => fits_text(t, v),
        P::Struct(_, _, sv) | P::SVal(sv) => fits_sv(sv, v),
        P::Array { elems, .. } | P::Set { elems, .. } => elems.iter().all(|e| fits(e, v)),
        P::Map { entries, .. } => entries.iter().all(|(a, b)| fits(a, v) && fits(b, v)),
        _ => true,
    }
}

fn version_value(r: &mut Rng, idx: u64, k: u64) -> Option<u32> {
    if r.chance(1, 8) {
        return None;
    }
    Some(match r.below(8) {
        0..=3 => ((idx / 3 + k * 7) % 60) as u32,
        4 => (*r.pick(&[LWC_VERSION, ARG64_VERSION, INVARIANT_VERSION]) as i64 + r.below(3) as i64 - 1) as u32,
        5 => *r.pick(&[u32::MAX, i32::MAX as u32, i32::MIN as u32, 0, 1, 255, 256, 284, 1 << 16, 1 << 31]),
        6 => (*r.pick(&[LWC_VERSION, ARG64_VERSION, INVARIANT_VERSION])).wrapping_add(1 << (8 + r.below(24))),
        _ => r.u32(),
    })
}

fn version_table(r: &mut Rng, idx: u64) -> Vec<([u8; 16], u32)> {
    let mut v = vec![];
    if let Some(n) = version_value(r, idx, 0) {
        v.push((ue5_guid(), n));
    }
    if let Some(n) = version_value(r, idx, 1) {
        v.push((editor_guid(), n));
    }
    for _ in 0..*r.pick(&[0usize, 0, 1, 3, 8]) {
        let mut g = if r.bool() { ue5_guid() } else { editor_guid() };
        match r.below(7) {
            0 => g[r.usize(16)] ^= 1 << r.below(8),
            1 => g.reverse(),
            2 => {
                // words in another byte order
                for c in g.chunks_mut(4) {
                    c.reverse();
                }
            }
            3 => g.rotate_left(4),
            4 => g = [0; 16],
            5 => {
                // other streams of the engine
                let d = *r.pick(&[
                    [0x697DD581u32, 0xE64f41AB, 0xAA4A51EC, 0xBEB7B628],
                    [0x9C54D522, 0xA8264FBE, 0x94210746, 0x61B482D0],
                    [0x375EC13C, 0x06E448FB, 0xB50084F0, 0x262A717E],
                    [0xCFFC743F, 0x43B04480, 0x939114DF, 0x171D2073],
                ]);
                g = guid_words(d);
            }
            _ => g = r.guid(),
        }
        let n = version_value(r, idx, 2).unwrap_or(40);
        if !v.iter().any(|(k, _)| *k == g) {
            v.push((g, n));
        }
    }
    if r.chance(1, 100) {
        // a long table
        for i in 0..*r.pick(&[31u32, 63, 64, 100, 127, 128, 255, 256, 300, 1023, 1024, 5000]) {
            v.push((guid_words([r.u32(), 0x1234_0000, i, 7]), version_value(r, idx, 2).unwrap_or(40)));
        }
    }
    r.shuffle(&mut v);
    v
}

const AFFECTED: &[K] = &[
    K::Struct(SK::V2),
    K::Struct(SK::V),
    K::Struct(SK::R),
    K::Struct(SK::Q),
    K::Text(HK::Empty),
    K::Text(HK::None),
    K::Text(HK::Named),
    K::Text(HK::Ordered),
    K::Text(HK::Argument),
    K::Text(HK::Number),
    K::Text(HK::Percent),
    K::Text(HK::Currency),
    K::Text(HK::Transform),
    K::Struct(SK::Custom),
];

pub fn c17_directed() -> u64 {
    AFFECTED.len() as u64 * 12 * 60
}

fn c17_file(r: &mut Rng, idx: u64, custom: Vec<([u8; 16], u32)>) -> File {
    let ver = Ver::of(&custom);
    let mut cfg = Cfg::random(r);
    cfg.kinds = AFFECTED.to_vec();
    cfg.kinds.extend([K::Array, K::Set, K::Map, K::Struct(SK::Custom)]);
    cfg.budget = 300;
    let k = AFFECTED[(idx % AFFECTED.len() as u64) as usize];
    let pos = match (idx / AFFECTED.len() as u64) % 12 {
        0 => Pos::Top,
        1 => Pos::Member,
        2 => Pos::Repeated,
        3 => Pos::Arr(1),
        4 => Pos::Arr(3),
        5 => Pos::Set(2),
        6 => Pos::Key(K::I32),
        7 => Pos::Val(K::Str),
        8 => Pos::ArrStruct,
        9 => Pos::SetStruct,
        10 => Pos::MapStruct,
        _ => Pos::Val(K::Enum),
    };
    let pal = None;
    let mut g = Gen::new(r, ver, cfg);
    let header = g.header(custom);
    g.stack.push("N".into());
    let p = wrap(&mut g, k, pos).unwrap_or(P::Bool(true));
    g.stack.pop();
    File { pal, header, props: vec![("N".into(), p)] }
}

pub fn c17(idx: u64, r: &mut Rng, ctx: &mut Ctx) -> CR {
    let custom = version_table(r, idx);
    let ver = Ver::of(&custom);
    let f = c17_file(r, idx, custom.clone());
    let made = make(f);
    let bytes = &made.enc.buf;
    ctx.eval(bytes, true);
    ctx.sample(|| format!("{:?}, {}", ver, made.describe()));
    ctx.count(&format!("layouts lwc={} arg64={} invariant={}", ver.lwc, ver.arg64, ver.invariant));
    let v = made.value();
    let want = fp_file(&v);
    match must("read", || read_file(bytes, false, &made.hints))? {
        Ok(f) => {
            let got = must("inspect", || fp_file(&f))?;
            if got != want {
                return viol_in("layout read", format!("{ver:?} (table {custom:?}): {}", diff(&want, &got)), bytes);
            }
        }
        Err(e) => return viol_in("layout rejected", format!("{ver:?} (table {custom:?}): {e:?}"), bytes),
    }
    match must("write", || write_file(&v))? {
        Ok(b) if b == *bytes => {}
        Ok(b) => return viol_in("layout written", format!("{ver:?} (table {custom:?}): {}", diff(bytes, &b)), bytes),
        Err(e) => return viol_in("layout write failed", format!("{ver:?} (table {custom:?}): {e:?}"), bytes),
    }
    // the same value under another table
    let other = version_table(r, r.clone().u64());
    let over = Ver::of(&other);
    let mut g = made.m.clone();
    g.header.custom = other.clone();
    let ok = g.props.iter().all(|(_, p)| fits(p, over));
    let w = to_file(&g);
    let got = must("write", || write_file(&w))?;
    ctx.eval(&[bytes.as_slice(), &[over.lwc as u8, over.arg64 as u8, over.invariant as u8]].concat(), true);
    match (ok, got) {
        (true, Ok(b)) => {
            ctx.count("other table, supported");
            let want = encode_file(&g).buf;
            if b != want {
                return viol_in("layout written", format!("{over:?}: {}", diff(&want, &b)), bytes);
            }
        }
        (true, Err(e)) => return viol_in("supported refused", format!("{over:?} (table {other:?}): {e:?}"), bytes),
        (false, Ok(b)) => {
            return viol_in("unsupported written", format!("a value for {ver:?} was written under {over:?} (table {other:?})"), &b);
        }
        (false, Err(_)) => ctx.count("other table, refused"),
    }
    // a property on its own
    let lc = to_custom(&other);
    for (_, p) in &g.props {
        for tagged in [true, false] {
            if !tagged && matches!(p, P::Array { .. } | P::Map { .. } | P::Set { .. }) {
                continue;
            }
            let lp = to_prop(p);
            let got = must("property write", || write_prop(&lp, tagged, &lc))?;
            if got.is_ok() != fits(p, over) {
                return viol(
                    "property support",
                    format!("{} under {over:?} (table {other:?}) gave {:?}", type_name(p), got.map(|x| x.0)),
                );
            }
        }
    }
    // the same bytes under another table
    let mut g2 = made.m.clone();
    g2.header.custom = other;
    let (h, _) = with_ver(over, |e| e.header(&g2.header));
    let mut swapped = h.buf;
    swapped.extend(&bytes[made.enc.header_end..]);
    let got = must("read", || read_file(&swapped, false, &made.hints))?;
    ctx.eval(&swapped, true);
    match (verdict(&swapped, &made.hints), got) {
        (Want::Open, _) => {}
        (Want::Accept(m, _), Ok(f)) => {
            let (a, b) = (fp_file(&to_file(&m)), fp_file(&f));
            if a != b {
                return viol_in("layout read", format!("bytes for {ver:?} under {over:?}: {}", diff(&a, &b)), &swapped);
            }
            ctx.count("other table, read");
        }
        (Want::Reject(_), Err(_)) => ctx.count("other table, rejected"),
        (Want::Accept(..), Err(e)) => return viol_in("layout rejected", format!("bytes for {ver:?} under {over:?}: {e:?}"), &swapped),
        (Want::Reject(e), Ok(_)) => {
            return viol_in("layout accepted", format!("bytes for {ver:?} under {over:?} accepted, expected {:?}", e.v), &swapped);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------
/// One library call with fixed arguments.
pub enum Call {
    Read { bytes: Vec<u8>, pal: bool, hints: Hints, fail: Option<u64> },
    Write { m: Box<File>, fail: Option<u64> },
    Prop { bytes: Vec<u8>, ty: String, tagged: bool, hints: Hints, stack: Vec<String>, custom: Vec<([u8; 16], u32)> },
    PropWrite { p: P, tagged: bool, custom: Vec<([u8; 16], u32)> },
    Header { bytes: Vec<u8> },
    Json { text: String },
    ToJson { m: Box<File> },
    GuidText(String),
    Build { ty: String, elems: Vec<P> },
}

pub fn call_for(seed: u64, idx: u64, j: u64) -> Call {
    let mut rr = Rng::for_case("C19J", seed, idx * 64 + j);
    let r = &mut rr;
    match r.below(14) {
        0..=2 => {
            let h = hostile(r, u64::MAX, false);
            Call::Read { bytes: h.bytes, pal: h.pal, hints: h.hints, fail: None }
        }
        3 | 4 => {
            let made = make(small_file(r, u64::MAX));
            let bytes = made.bytes(r);
            let n = bytes.len();
            let fail = if r.chance(1, 3) { Some(r.usize(n) as u64) } else { None };
            // sometimes with hints missing
            let hints = if r.chance(1, 4) { Hints::new() } else { made.hints };
            Call::Read { bytes, pal: made.m.pal.is_some(), hints, fail }
        }
        5 | 6 => {
            let mut m = small_file(r, u64::MAX);
            if r.chance(1, 3) {
                m.pal = Some(random_pal(r));
            }
            if r.chance(1, 6) {
                // versions that may not support the value
                m.header.custom = custom_table(r);
            }
            let fail = if r.chance(1, 3) { Some(r.below(30)) } else { None };
            Call::Write { m: Box::new(m), fail }
        }
        7..=9 => {
            let d = directed();
            let m = directed_file(r, *r.clone().pick(d), false);
            let (name, p) = m.props[0].clone();
            let mut stack: Vec<String> = (0..r.usize(3)).map(|i| format!("s{i}")).collect();
            stack.push(name);
            let e = encode_prop(&p, Ver::of(&m.header.custom), &stack);
            let hints = if r.chance(1, 4) { Hints::new() } else { hint_table(&e) };
            let bytes = if r.bool() { mutate(&e, r).0 } else { e.buf.clone() };
            let ty = type_name(&p).to_string();
            let custom = if r.chance(1, 6) { custom_table(r) } else { m.header.custom };
            Call::Prop { bytes, ty, tagged: !r.chance(1, 6), hints, stack, custom }
        }
        10 => {
            let m = small_file(r, u64::MAX);
            let p = m.props.first().map(|x| x.1.clone()).unwrap_or(P::Bool(false));
            let custom = if r.chance(1, 4) { custom_table(r) } else { m.header.custom };
            Call::PropWrite { p, tagged: r.bool(), custom }
        }
        11 => {
            let made = make(small_file(r, u64::MAX));
            let mut b = made.enc.buf[..made.enc.header_end].to_vec();
            if r.bool() {
                blind(&mut b, r);
            }
            Call::Header { bytes: b }
        }
        12 => {
            let cfg = Cfg { finite: true, ..Cfg::small(r) };
            let m = random_file(r, cfg);
            if r.bool() {
                return Call::ToJson { m: Box::new(m) };
            }
            let mut text = serde_json::to_string(&to_file(&m)).unwrap_or_default();
            if r.bool() && !text.is_empty() {
                let mut n = r.usize(text.len());
                while !text.is_char_boundary(n) {
                    n -= 1;
                }
                text.truncate(n);
            }
            Call::Json { text }
        }
        _ => {
            if r.bool() {
                let g = r.guid();
                let mut s = guid_text(&g);
                if r.bool() {
                    s.pop();
                }
                return Call::GuidText(s);
            }
            let cfg = Cfg::small(r);
            let mut g = Gen::new(r, Ver { lwc: false, arg64: false, invariant: false }, cfg);
            let k = *g.r.pick(&[K::I32, K::Bool, K::Str, K::Name, K::Enum, K::F32, K::Byte, K::Object]);
            let mut elems: Vec<P> = (0..g.r.usize(5)).map(|_| g.untagged(k)).collect();
            if g.r.bool() {
                elems.push(P::I64(1));
            }
            Call::Build { ty: kind_type(k).unwrap().into(), elems }
        }
    }
}

/// Result of the call, and a description of a modified argument if there is one.
pub fn perform(c: &Call) -> (Vec<u8>, Option<String>) {
    let mut out = vec![];
    let mut bad = None;
    let err = |e: &gvas::error::Error| format!("{e:?} / {e}").into_bytes();
    match c {
        Call::Read { bytes, pal, hints, fail } => {
            let gv = if *pal { gvas::game_version::GameVersion::Palworld } else { gvas::game_version::GameVersion::Default };
            let mut s = Src::new(bytes, Chunk::All, 0, Rng::new(1));
            s.fail_at = fail.map(|n| (n, std::io::ErrorKind::TimedOut));
            let h2 = hints.clone();
            match GvasFile::read_with_hints(&mut s, gv, hints) {
                Ok(f) => {
                    out.extend(fp_file(&f));
                    match write_file(&f) {
                        Ok(b) => out.extend(b),
                        Err(e) => out.extend(err(&e)),
                    }
                }
                Err(e) => out.extend(err(&e)),
            }
            if h2 != *hints {
                bad = Some("reading changed the hints".into());
            }
        }
        Call::Write { m, fail } => {
            let v = to_file(m);
            let before = fp_file(&v);
            let mut s = Sink::new(Chunk::All, 0, Rng::new(1));
            s.fail_call = fail.map(|n| (n, std::io::ErrorKind::TimedOut));
            match v.write(&mut s) {
                Ok(()) => out.extend(&s.data),
                Err(e) => out.extend(err(&e)),
            }
            if let Ok(b) = write_file(&v) {
                out.extend(b);
            }
            if fp_file(&v) != before {
                bad = Some("writing changed the value".into());
            }
        }
        Call::Prop { bytes, ty, tagged, hints, stack, custom } => {
            let custom = to_custom(custom);
            let mut st = stack.clone();
            let mut s = Src::new(bytes, Chunk::All, 0, Rng::new(1));
            let res = options(hints, &mut st, &custom, |o| Property::new(&mut s, ty, *tagged, o, None));
            out.extend(s.pos.to_le_bytes());
            let ok = res.is_ok();
            match res {
                Ok(p) => out.extend(fp_prop(&p)),
                Err(e) => out.extend(err(&e)),
            }
            if st != *stack {
                bad = Some(format!(
                    "after {} reading of a {ty} the path stack is {st:?} instead of {stack:?}",
                    if ok { "successful" } else { "failed" }
                ));
            }
        }
        Call::PropWrite { p, tagged, custom } => {
            let custom = to_custom(custom);
            let lp = to_prop(p);
            let before = fp_prop(&lp);
            match write_prop(&lp, *tagged, &custom) {
                Ok((n, b)) => {
                    out.extend(n.to_le_bytes());
                    out.extend(b);
                }
                Err(e) => out.extend(err(&e)),
            }
            let hints = HashMap::new();
            let mut st = vec!["x".to_string()];
            let mut b = Vec::new();
            let _ = options(&hints, &mut st, &custom, |o| lp.write(&mut b, *tagged, o).map(|_| ()));
            if st != ["x"] {
                bad = Some("writing changed the path stack".into());
            }
            if fp_prop(&lp) != before {
                bad = Some("writing changed the property".into());
            }
        }
        Call::Header { bytes } => match GvasHeader::read(&mut Src::new(bytes, Chunk::All, 0, Rng::new(1))) {
            Ok(h) => {
                out.extend(fp_header(&h));
                let mut b = Cursor::new(Vec::new());
                let _ = h.write(&mut b);
                out.extend(b.into_inner());
            }
            Err(e) => out.extend(err(&e)),
        },
        Call::Json { text } => match serde_json::from_str::<GvasFile>(text) {
            Ok(f) => out.extend(fp_file(&f)),
            Err(e) => out.extend(e.to_string().into_bytes()),
        },
        Call::ToJson { m } => {
            let v = to_file(m);
            out.extend(serde_json::to_string(&v).unwrap_or_else(|e| e.to_string()).into_bytes());
        }
        Call::GuidText(s) => match Guid::from_str(s) {
            Ok(g) => {
                out.extend(g.0);
                out.extend(g.to_string().into_bytes());
            }
            Err(e) => out.extend(e.to_string().into_bytes()),
        },
        Call::Build { ty, elems } => {
            let ps: Vec<Property> = elems.iter().map(to_prop).collect();
            match ArrayProperty::new(ty.clone(), None, ps) {
                Ok(a) => out.extend(fp_prop(&Property::ArrayProperty(a))),
                Err(e) => out.extend(err(&e)),
            }
        }
    }
    (out, bad)
}

fn call_name(c: &Call) -> &'static str {
    match c {
        Call::Read { fail: Some(_), .. } => "abandoned read",
        Call::Read { .. } => "read",
        Call::Write { fail: Some(_), .. } => "abandoned write",
        Call::Write { .. } => "write",
        Call::Prop { .. } => "property read",
        Call::PropWrite { .. } => "property write",
        Call::Header { .. } => "header",
        Call::Json { .. } => "from JSON",
        Call::ToJson { .. } => "to JSON",
        Call::GuidText(_) => "guid text",
        Call::Build { .. } => "constructor",
    }
}

/// job SEED IDX J: digest of one call in a fresh process.
pub fn job(a: &[String]) -> i32 {
    let p = |i: usize| a.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
    let (seed, idx, j) = (p(0), p(1), p(2));
    let t = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let c = call_for(seed, idx, j);
        lib(|| perform(&c)).map(|x| hash_bytes(&x.0))
    });
    match t.ok().and_then(|t| t.join().ok()) {
        Some(Ok(d)) => {
            println!("{d:016x}");
            0
        }
        Some(Err(p)) => {
            println!("panic {p}");
            0
        }
        None => 3,
    }
}

/// Another environment, locale and working directory for a child process.
fn foreign(cmd: &mut std::process::Command, r: &mut Rng) {
    let value = *r.pick(&["1", "0", "true", "", "de_DE.UTF-8", "/nonexistent"]);
    for (k, v) in [
        ("LANG", "tr_TR.UTF-8"),
        ("LC_ALL", "tr_TR.UTF-8"),
        ("TZ", "Asia/Kathmandu"),
        ("HOME", "/nonexistent"),
        ("USER", "nobody"),
        ("RUST_LOG", "trace"),
        ("RUST_BACKTRACE", "full"),
        ("NO_COLOR", "1"),
        ("DEBUG", "1"),
        ("COLUMNS", "20"),
    ] {
        cmd.env(k, v);
    }
    let named = |s: &&String| {
        s.len() > 2
            && s.len() < 64
            && s.starts_with(|c: char| c.is_ascii_uppercase() || c == '_')
            && s.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_')
            && !["PATH", "LD_PRELOAD", "LD_LIBRARY_PATH", "VMON_HOME"].contains(&s.as_str())
    };
    for s in dict().strs.iter().filter(named) {
        cmd.env(s, value);
    }
    cmd.current_dir(if r.chance(1, 2) { "/" } else { "/proc" });
}

/// The same calls again, more often than 16 bits can count.
fn many_times(idx: u64, r: &mut Rng, ctx: &mut Ctx) -> CR {
    let tops: Vec<_> = directed().iter().filter(|d| matches!(d.1, Pos::Top)).collect();
    let mut m = directed_file(r, *tops[(idx / 160) as usize % tops.len()], false);
    m.pal = None;
    let made = make(m);
    let good = &made.enc.buf;
    let bad = mutate(&made.enc, r).0;
    if good.len().max(bad.len()) > 3000 {
        return Ok(());
    }
    let read = |b: &[u8]| read_file(b, false, &made.hints);
    let shape = |res: &Result<GvasFile, gvas::error::Error>| res.as_ref().map(|_| ()).map_err(|e| format!("{e:?}"));
    let (first, failed) = must("read", || (read(good), shape(&read(&bad))))?;
    let Ok(file) = &first else { return Ok(()) };
    let text = must("write", || write_file(file).ok())?;
    for k in 0..70_000u32 {
        let same = lib(|| {
            if k % 8 == 7 && shape(&read(&bad)) != failed {
                return false;
            }
            if k % 4 == 3 && write_file(file).ok() != text {
                return false;
            }
            read(good).is_ok_and(|f| f == *file)
        });
        match same {
            Ok(true) => {}
            Ok(false) => return viol_in("repetition matters", format!("reading and writing gives another result after {k} repetitions"), good),
            Err(p) => return viol_in("panic in a call", format!("after {k} repetitions: {p}"), good),
        }
    }
    ctx.eval(&[&idx.to_le_bytes()[..], b"many"].concat(), true);
    ctx.count("files read 70000 times");
    Ok(())
}

pub fn c19(idx: u64, r: &mut Rng, ctx: &mut Ctx) -> CR {
    const N: u64 = 8;
    if idx % 160 == 80 {
        return many_times(idx, r, ctx);
    }
    let calls: Vec<Call> = (0..N).map(|j| call_for(ctx.seed, idx, j)).collect();
    let run = |c: &Call| -> Result<(u64, Option<String>), Viol> {
        must("a call", || perform(c)).map(|(o, b)| (hash_bytes(&o), b))
    };
    let mut key = vec![];
    // fresh processes for some of them
    let exe = std::env::current_exe().expect("harness: own path");
    let mut fresh: Vec<Option<u64>> = vec![None; N as usize];
    let every = if cfg!(miri) { 0 } else { 4 };
    for _ in 0..every {
        let j = r.usize(N as usize);
        if fresh[j].is_some() {
            continue;
        }
        let mut cmd = std::process::Command::new(&exe);
        cmd.args(["job", &ctx.seed.to_string(), &idx.to_string(), &j.to_string()]);
        // neither the environment nor the working directory is an argument of the call
        if r.chance(1, 2) {
            foreign(&mut cmd, r);
            ctx.count("fresh processes in another environment");
        }
        let o = cmd.output().expect("harness: child process");
        let s = String::from_utf8_lossy(&o.stdout).trim().to_string();
        match u64::from_str_radix(&s, 16) {
            Ok(d) => fresh[j] = Some(d),
            Err(_) if s.starts_with("panic") => return viol("panic in a call", s),
            Err(_) => panic!("harness: job failed: {s} {}", o.status),
        }
        ctx.count("fresh processes");
    }
    let mut base: Vec<Option<u64>> = fresh.clone();
    let mut check = |j: usize, d: u64, bad: Option<String>, how: &str| -> CR {
        if let Some(b) = bad {
            return viol("argument modified", format!("{}: {b}", call_name(&calls[j])));
        }
        match base[j] {
            None => base[j] = Some(d),
            Some(b) if b == d => {}
            Some(b) => {
                return viol(
                    "history matters",
                    format!(
                        "call {j} ({}) gave {d:016x} {how}, but {b:016x} {}",
                        call_name(&calls[j]),
                        if fresh[j].is_some() { "in a fresh process" } else { "the first time" }
                    ),
                );
            }
        }
        Ok(())
    };
    let n = 8 + r.usize(12);
    for k in 0..n {
        let j = r.usize(N as usize);
        let (d, bad) = run(&calls[j])?;
        key.push(j as u8);
        ctx.eval(&[&idx.to_le_bytes()[..], &key].concat(), k > 0);
        ctx.count(call_name(&calls[j]));
        check(j, d, bad, &format!("after {k} calls"))?;
        if r.chance(1, 5) {
            let (d, bad) = run(&calls[j])?;
            check(j, d, bad, "when repeated")?;
        }
    }
    // several threads
    if r.chance(1, 2) {
        let nt = 2 + r.usize(4);
        let plans: Vec<Vec<usize>> = (0..nt).map(|_| (0..6).map(|_| r.usize(N as usize)).collect()).collect();
        let calls = &calls;
        let results: Vec<Vec<(usize, Result<(Vec<u8>, Option<String>), String>)>> = std::thread::scope(|s| {
            let hs: Vec<_> = plans
                .iter()
                .map(|p| {
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(s, move || p.iter().map(|j| (*j, lib(|| perform(&calls[*j])))).collect())
                        .expect("harness: thread")
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("harness: thread panicked")).collect()
        });
        for (j, res) in results.into_iter().flatten() {
            match res {
                Err(p) => return viol("panic in a call", p),
                Ok((o, bad)) => check(j, hash_bytes(&o), bad, "next to other threads")?,
            }
            ctx.count("calls in parallel threads");
        }
        ctx.eval(&[&idx.to_le_bytes()[..], b"threads"].concat(), true);
    }
    ctx.sample(|| calls.iter().map(call_name).collect::<Vec<_>>().join(", "));
    if r.chance(1, 5) {
        together(idx, r, ctx)?;
    }
    Ok(())
}

/// Lets readers wait for each other.
struct Gate {
    here: Mutex<usize>,
    all: Condvar,
    n: usize,
}
impl Gate {
    fn arrive(&self, wait: bool) {
        let Ok(mut g) = self.here.lock() else { return };
        *g += 1;
        self.all.notify_all();
        if wait {
            let _ = self.all.wait_timeout_while(g, std::time::Duration::from_secs(1), |h| *h < self.n);
        }
    }
}

/// A source that waits at a position until all others have come to theirs.
struct Paused<'a> {
    c: Cursor<&'a [u8]>,
    at: u64,
    gate: Option<&'a Gate>,
}
impl Read for Paused<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.c.position() >= self.at {
            if let Some(g) = self.gate.take() {
                g.arrive(true);
            }
        }
        self.c.read(b)
    }
}
impl Seek for Paused<'_> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.c.seek(p)
    }
}
impl Drop for Paused<'_> {
    fn drop(&mut self) {
        if let Some(g) = self.gate.take() {
            g.arrive(false);
        }
    }
}

/// Several threads are in the middle of a property at the same time.
fn together(idx: u64, r: &mut Rng, ctx: &mut Ctx) -> CR {
    struct One {
        bytes: Vec<u8>,
        ty: String,
        hints: Hints,
        stack: Vec<String>,
        custom: HashableIndexMap<Guid, u32>,
        at: u64,
    }
    let deep = r.bool();
    let n = 2 + r.usize(14);
    let ones: Vec<One> = (0..n)
        .map(|_| {
            let m = if deep {
                let nests: Vec<_> = bulk().iter().filter(|b| matches!(b.0, Site::Nest(_))).collect();
                let s = **r.pick(&nests);
                bulk_file(r, s, false)
            } else {
                let d = directed();
                let k = r.usize(d.len());
                directed_file(r, d[k], false)
            };
            let (name, p) = m.props[r.usize(m.props.len())].clone();
            let stack = vec![name];
            let e = encode_prop(&p, Ver::of(&m.header.custom), &stack);
            let hints = hint_table(&e);
            let mut bytes = e.buf;
            let len = bytes.len();
            let at = if deep { (len / 10 * 6) as u64 + r.below(1 + len as u64 / 4) } else { r.below(1 + len as u64) };
            if r.chance(1, 4) && len > 0 {
                bytes.truncate(r.usize(len));
            }
            One { bytes, ty: type_name(&p).into(), hints, stack, custom: to_custom(&m.header.custom), at }
        })
        .collect();
    if ones.is_empty() {
        return Ok(());
    }
    let read = |o: &One, gate: Option<&Gate>| {
        lib(|| {
            let mut st = o.stack.clone();
            let mut s = Paused { c: Cursor::new(&o.bytes), at: o.at, gate };
            let res = options(&o.hints, &mut st, &o.custom, |p| Property::new(&mut s, &o.ty, true, p, None));
            match res {
                Ok(p) => fp_prop(&p),
                Err(e) => format!("{e:?}").into_bytes(),
            }
        })
    };
    let alone: Vec<_> = ones.iter().map(|o| read(o, None)).collect();
    let gate = Gate { here: Mutex::new(0), all: Condvar::new(), n };
    let (read, gate) = (&read, &gate);
    let got: Vec<_> = std::thread::scope(|s| {
        let hs: Vec<_> = ones
            .iter()
            .map(|o| {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || read(o, Some(gate)))
                    .expect("harness: thread")
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("harness: thread panicked")).collect()
    });
    ctx.eval(&[&idx.to_le_bytes()[..], b"together"].concat(), true);
    for (i, (a, b)) in alone.into_iter().zip(got).enumerate() {
        match (a, b) {
            (Ok(a), Ok(b)) if a == b => ctx.count("readers paused together"),
            (Ok(_), Ok(_)) => {
                return viol(
                    "threads matter",
                    format!("reading a {} while {} other threads are reading gives another result than alone", ones[i].ty, n - 1),
                );
            }
            (Err(p), _) | (_, Err(p)) => return viol("panic in a call", p),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------
const BUILDABLE: &[K] = &[
    K::I8,
    K::Byte,
    K::I16,
    K::U16,
    K::I32,
    K::U32,
    K::I64,
    K::U64,
    K::F32,
    K::F64,
    K::Bool,
    K::Enum,
    K::Str,
    K::Name,
    K::Object,
    K::Text(HK::Base),
    K::Text(HK::Named),
    K::Delegate,
    K::MInline,
    K::MSparse,
    K::FieldPath,
    K::Struct(SK::V),
    K::Struct(SK::Guid),
    K::Struct(SK::Custom),
    K::Struct(SK::Tags),
];

pub fn c20_directed() -> u64 {
    let n = BUILDABLE.len() as u64;
    n * n * 2 + n * 8
}

/// What the tag around an element list says and whether a reader understands the list.
fn homogeneous(ty: &str, elems: &[P]) -> bool {
    elems.iter().all(|e| type_name(e) == ty)
}

fn check_array(ty: &str, info: Option<SInfo>, elems: Vec<P>, ver: Ver, readable: bool, r: &mut Rng, ctx: &mut Ctx) -> CR {
    let ps: Vec<Property> = elems.iter().map(to_prop).collect();
    let linfo = info.as_ref().map(|i| (i.field.clone(), i.ty.clone(), Guid(i.guid)));
    let got = must("ArrayProperty::new", || ArrayProperty::new(ty.to_string(), linfo, ps.clone()))?;
    let describe = || format!("array of {} x {ty}, info {}", elems.len(), info.is_some());
    let key = elems.iter().flat_map(canon).collect::<Vec<u8>>();
    ctx.eval(&[ty.as_bytes(), &key, &[info.is_some() as u8]].concat(), true);
    if let Some(i) = &info {
        let ok = ty == "StructProperty" && elems.iter().all(|e| matches!(e, P::SVal(_)));
        match (&got, ok) {
            (Ok(_), false) => return viol("bad struct array built", describe()),
            (Err(e), true) => return viol("struct array refused", format!("{}: {e:?}", describe())),
            (Err(_), false) => {
                ctx.count("struct arrays refused");
                return Ok(());
            }
            _ => {}
        }
        let _ = i;
    }
    let a = match got {
        Ok(a) => a,
        Err(e) => return viol("array refused", format!("{}: {e:?}", describe())),
    };
    let lp = Property::ArrayProperty(a);
    let model = P::Array { ty: ty.to_string(), info, elems };
    let want = to_prop(&model);
    let (x, y) = must("inspect", || (fp_prop(&want), fp_prop(&lp)))?;
    if x != y {
        return viol("array content", format!("{}: {} ({:.400})", describe_p(&model), diff(&x, &y), format!("{lp:?}")));
    }
    if must("compare", || lp != want)? {
        return viol("array equality", describe_p(&model));
    }
    ctx.count("arrays built");
    if readable {
        back(&model, &lp, ver, r, ctx)?;
    }
    Ok(())
}

fn describe_p(p: &P) -> String {
    format!("{p:?}").chars().take(300).collect()
}

/// Written bytes and reading them again.
fn back(model: &P, lp: &Property, ver: Ver, _r: &mut Rng, ctx: &mut Ctx) -> CR {
    let custom = to_custom(&simple_table(ver.lwc, ver.arg64, ver.invariant));
    let e = encode_prop(model, ver, &["N".to_string()]);
    let hints = hint_table(&e);
    match must("property write", || write_prop(lp, true, &custom))? {
        Ok((_, b)) => {
            // the writer includes the type name
            let name = with_ver(ver, |x| x.string(type_name(model))).0.buf;
            if b.len() < name.len() || b[name.len()..] != e.buf[..] || b[..name.len()] != name[..] {
                return viol_in("constructed bytes", format!("{}: {}", describe_p(model), diff(&e.buf, &b[name.len().min(b.len())..])), &b);
            }
        }
        Err(x) => return viol("constructed write failed", format!("{}: {x:?}", describe_p(model))),
    }
    let mut stack = vec!["N".to_string()];
    let (got, _) = must("property read", || read_prop(&e.buf, 0, type_name(model), true, &hints, &mut stack, &custom))?;
    match got {
        Ok(q) => {
            let (x, y) = (fp_prop(&q), fp_prop(lp));
            if x != y {
                return viol_in("constructed differs from read", format!("{}: {}", describe_p(model), diff(&x, &y)), &e.buf);
            }
            ctx.count("constructed values read back");
        }
        Err(x) => return viol_in("constructed unreadable", format!("{}: {x:?}", describe_p(model)), &e.buf),
    }
    Ok(())
}

/// The same value with what only a tagged property carries, or without its text.
fn skew(p: &mut P, r: &mut Rng) {
    match p {
        P::Name(i, s) => {
            if r.chance(2, 3) {
                *i = 1 + r.below(3) as u32;
            } else {
                *s = None;
            }
        }
        P::Str(s) => *s = if s.is_some() { None } else { Some(String::new()) },
        P::Enum(t, _) => *t = Some(if r.bool() { String::new() } else { "EKind".into() }),
        P::Byte(n, v) => {
            if r.bool() {
                *n = Some(if r.bool() { "None".into() } else { "EKind".into() });
            } else {
                *v = ByteV::Name("EKind::A".into());
            }
        }
        P::SVal(sv) => *p = P::Struct([0; 16], "Thing".into(), sv.clone()),
        _ => {}
    }
}

fn check_map(kt: &str, vt: &str, flags: u32, entries: Vec<(P, P)>, ver: Ver, readable: bool, r: &mut Rng, ctx: &mut Ctx) -> CR {
    let mut uniq: Vec<(P, P)> = vec![];
    let mut seen = std::collections::HashSet::new();
    for (k, v) in entries {
        if seen.insert(canon(&k)) {
            uniq.push((k, v));
        }
    }
    let lm: HashableIndexMap<Property, Property> =
        HashableIndexMap(uniq.iter().map(|(k, v)| (to_prop(k), to_prop(v))).collect());
    let got = must("MapProperty::new", || MapProperty::new(kt.into(), vt.into(), flags, lm))?;
    let lp = Property::MapProperty(got);
    let model = P::Map { kt: kt.into(), vt: vt.into(), flags, entries: uniq };
    ctx.eval(&canon(&model), true);
    let want = to_prop(&model);
    let (x, y) = must("inspect", || (fp_prop(&want), fp_prop(&lp)))?;
    if x != y {
        return viol("map content", format!("{}: {} ({:.400})", describe_p(&model), diff(&x, &y), format!("{lp:?}")));
    }
    if must("compare", || lp != want)? {
        return viol("map equality", describe_p(&model));
    }
    ctx.count("maps built");
    if readable {
        back(&model, &lp, ver, r, ctx)?;
    }
    Ok(())
}

macro_rules! accessors {
    ($lp:expr, $other:expr, $ctx:expr; $($var:ident $get:ident $get_mut:ident),* $(,)?) => {{
        let lp: &Property = $lp;
        let other: &Property = $other;
        let mut hits = 0;
        $(
            let is = matches!(lp, Property::$var(_));
            let got = must(stringify!($get), || lp.$get().cloned())?;
            match (got, is) {
                (Some(x), true) => {
                    hits += 1;
                    if fp_prop(&Property::$var(x)) != fp_prop(lp) {
                        return viol(concat!("accessor ", stringify!($get)), format!("wrong content of {lp:?}"));
                    }
                }
                (None, false) => {}
                (g, _) => {
                    return viol(
                        concat!("accessor ", stringify!($get)),
                        format!("returned {} for {:.200}", if g.is_some() { "a value" } else { "nothing" }, format!("{lp:?}")),
                    );
                }
            }
            let mut c = lp.clone();
            let got = must(stringify!($get_mut), || match (c.$get_mut(), other) {
                (Some(x), Property::$var(o)) => {
                    *x = o.clone();
                    Some(true)
                }
                (Some(_), _) => Some(false),
                (None, _) => None,
            })?;
            if got.is_some() != is {
                return viol(concat!("accessor ", stringify!($get_mut)), format!("wrong answer for {:.200}", format!("{lp:?}")));
            }
            if got == Some(true) && fp_prop(&c) != fp_prop(other) {
                return viol(concat!("accessor ", stringify!($get_mut)), format!("the edit of {:.200} was lost", format!("{lp:?}")));
            }
            if got != Some(true) && fp_prop(&c) != fp_prop(lp) {
                return viol(concat!("accessor ", stringify!($get_mut)), "changed the value by itself");
            }
        )*
        $ctx.count("accessor tables");
        hits
    }};
}

macro_rules! sv_accessors {
    ($lv:expr, $other:expr; $($var:ident $get:ident $get_mut:ident),* $(,)?) => {{
        let lv: &StructPropertyValue = $lv;
        let other: &StructPropertyValue = $other;
        let fpv = |v: &StructPropertyValue| fp_prop(&Property::StructPropertyValue(v.clone()));
        $(
            let is = matches!(lv, StructPropertyValue::$var(_));
            match (must(stringify!($get), || lv.$get().cloned())?, is) {
                (Some(x), true) => {
                    if fpv(&StructPropertyValue::$var(x)) != fpv(lv) {
                        return viol(concat!("accessor ", stringify!($get)), format!("wrong content of {lv:?}"));
                    }
                }
                (None, false) => {}
                (g, _) => {
                    return viol(
                        concat!("accessor ", stringify!($get)),
                        format!("returned {} for {:.200}", if g.is_some() { "a value" } else { "nothing" }, format!("{lv:?}")),
                    );
                }
            }
            let mut c = lv.clone();
            let got = must(stringify!($get_mut), || match (c.$get_mut(), other) {
                (Some(x), StructPropertyValue::$var(o)) => {
                    *x = o.clone();
                    Some(true)
                }
                (Some(_), _) => Some(false),
                (None, _) => None,
            })?;
            if got.is_some() != is {
                return viol(concat!("accessor ", stringify!($get_mut)), format!("wrong answer for {:.200}", format!("{lv:?}")));
            }
            if got == Some(true) && fpv(&c) != fpv(other) {
                return viol(concat!("accessor ", stringify!($get_mut)), format!("the edit of {:.200} was lost", format!("{lv:?}")));
            }
            if got != Some(true) && fpv(&c) != fpv(lv) {
                return viol(concat!("accessor ", stringify!($get_mut)), "changed the value by itself");
            }
        )*
    }};
}

fn check_accessors(p: &P, q: &P, ctx: &mut Ctx) -> CR {
    let (lp, lq) = (to_prop(p), to_prop(q));
    let hits = accessors!(&lp, &lq, ctx;
        ArrayProperty get_array get_array_mut,
        EnumProperty get_enum get_enum_mut,
        BoolProperty get_bool get_bool_mut,
        ByteProperty get_byte get_byte_mut,
        DoubleProperty get_f64 get_f64_mut,
        FloatProperty get_f32 get_f32_mut,
        Int16Property get_i16 get_i16_mut,
        Int64Property get_i64 get_i64_mut,
        Int8Property get_i8 get_i8_mut,
        IntProperty get_int get_int_mut,
        UInt16Property get_u16 get_u16_mut,
        UInt32Property get_u32 get_u32_mut,
        UInt64Property get_u64 get_u64_mut,
        MapProperty get_map get_map_mut,
        NameProperty get_name get_name_mut,
        ObjectProperty get_object_ref get_object_ref_mut,
        DelegateProperty get_delegate get_delegate_mut,
        MulticastInlineDelegateProperty get_multicast_inline_delegate get_multicast_inline_delegate_mut,
        MulticastSparseDelegateProperty get_multicast_sparse_delegate get_multicast_sparse_delegate_mut,
        FieldPathProperty get_field_path get_field_path_mut,
        SetProperty get_set get_set_mut,
        StrProperty get_str get_str_mut,
        StructProperty get_struct get_struct_mut,
        TextProperty get_text get_text_mut,
        UnknownProperty get_unknown get_unknown_mut,
    );
    let want = if matches!(p, P::SVal(_)) { 0 } else { 1 };
    if hits != want {
        return viol("accessor count", format!("{hits} accessors answered for {:.200}", format!("{lp:?}")));
    }
    let sv = |p: &P| match p {
        P::Struct(_, _, sv) | P::SVal(sv) => Some(to_sv(sv)),
        _ => None,
    };
    if let (Some(a), Some(b)) = (sv(p), sv(q)) {
        sv_accessors!(&a, &b;
            VectorF get_vector_f get_vector_f_mut,
            VectorD get_vector_d get_vector_d_mut,
            RotatorF get_rotator_f get_rotator_f_mut,
            RotatorD get_rotator_d get_rotator_d_mut,
            QuatF get_quat_f get_quat_f_mut,
            QuatD get_quat_d get_quat_d_mut,
            DateTime get_date_time get_date_time_mut,
            IntPoint get_int_point get_int_point_mut,
            Guid get_guid get_guid_mut,
            CustomStruct get_custom_struct get_custom_struct_mut,
        );
        ctx.count("struct value accessor tables");
    }
    Ok(())
}

pub fn c20(idx: u64, r: &mut Rng, ctx: &mut Ctx) -> CR {
    let n = BUILDABLE.len() as u64;
    let ver = Ver::of(&simple_table(r.bool(), r.bool(), r.bool()));
    let mut cfg = Cfg::random(r);
    cfg.kinds = all_kinds();
    cfg.budget = 500;
    cfg.max_depth = 3;
    let mut g = Gen::new(r, ver, cfg);
    g.stack.push("N".into());
    let (a, b) = if idx < n * n * 2 {
        (BUILDABLE[(idx % n) as usize], BUILDABLE[(idx / n % n) as usize])
    } else {
        (*g.r.pick(BUILDABLE), *g.r.pick(BUILDABLE))
    };
    ctx.sample(|| format!("{a:?} and {b:?}"));
    // --- homogeneous array
    g.stack.push("ArrayProperty".into());
    let len = *g.r.pick(&[0usize, 1, 2, 3, 5, 17]);
    let elems: Vec<P> = (0..len).map(|_| g.untagged(a)).collect();
    let tagged_elems: Vec<P> = (0..3).map(|_| g.tagged_of(a)).collect();
    let other_elems: Vec<P> = (0..2).map(|_| g.untagged(b)).collect();
    g.stack.pop();
    let ty = kind_type(a).unwrap().to_string();
    let oty = kind_type(b).unwrap().to_string();
    let is_struct = ty == "StructProperty";
    let info = SInfo { field: g.name(), ty: g.custom_type(), guid: g.guid() };
    // --- map
    g.stack.push("MapProperty".into());
    let mlen = *g.r.pick(&[0usize, 1, 2, 3, 6]);
    let m = g.map_n(a, b, mlen);
    let m2 = g.map_n(b, a, 2);
    g.stack.pop();
    let flags = g.flags();
    let stranger = g.unknown_type();
    let t2 = g.tagged_of(b);
    let t3 = g.tagged_of(b);
    drop(g);
    if is_struct {
        // element values are not looked at by the constructor; the type name decides the reading
        check_array(&ty, Some(info.clone()), elems.clone(), ver, false, r, ctx)?;
        if let Some(P::SVal(sv)) = elems.first() {
            let elems: Vec<P> = elems.iter().filter(|e| matches!(e, P::SVal(s) if std::mem::discriminant(s) == std::mem::discriminant(sv))).cloned().collect();
            let mut i = info.clone();
            let paths = ["N".to_string(), "ArrayProperty".to_string()];
            i.ty = match sv {
                SV::Custom(_) => i.ty,
                _ => sv_type(sv, &paths.join(".")),
            };
            if !matches!(sv, SV::Custom(_)) {
                check_array(&ty, Some(i), elems, ver, true, r, ctx)?;
            }
        }
    } else {
        check_array(&ty, None, elems.clone(), ver, true, r, ctx)?;
        check_array(&ty, Some(info.clone()), elems.clone(), ver, false, r, ctx)?;
    }
    // values that came from tagged properties
    if !is_struct {
        check_array(&ty, None, tagged_elems.clone(), ver, false, r, ctx)?;
    }
    // --- mixed lists
    let mut mixed = elems.clone();
    mixed.extend(other_elems.clone());
    r.shuffle(&mut mixed);
    if !is_struct {
        check_array(&ty, None, mixed.clone(), ver, false, r, ctx)?;
        let mut one = elems.clone();
        let at = r.usize(one.len() + 1);
        one.insert(at, other_elems[0].clone());
        let hom = homogeneous(&ty, &one) && a == b;
        check_array(&ty, None, one, ver, hom, r, ctx)?;
        check_array(&stranger, None, mixed.clone(), ver, false, r, ctx)?;
        if oty != "StructProperty" {
            check_array(&oty, None, elems.clone(), ver, false, r, ctx)?;
        }
    }
    check_array("StructProperty", Some(info.clone()), mixed.clone(), ver, false, r, ctx)?;
    check_array("StructProperty", Some(info.clone()), tagged_elems.clone(), ver, false, r, ctx)?;
    check_array(&stranger, Some(info), vec![], ver, false, r, ctx)?;
    // --- maps
    let (P::Map { kt, vt, entries, .. }, P::Map { kt: kt2, vt: vt2, entries: entries2, .. }) = (m, m2) else {
        panic!("harness: not a map")
    };
    for f in [0, flags] {
        check_map(&kt, &vt, f, entries.clone(), ver, true, r, ctx)?;
    }
    let mut e = entries.clone();
    e.extend(entries2.clone());
    r.shuffle(&mut e);
    check_map(&kt, &vt, 0, e.clone(), ver, false, r, ctx)?;
    check_map(&kt, &vt2, flags, e, ver, false, r, ctx)?;
    // entries a compact form cannot hold
    for f in [0, 0, flags] {
        let mut e = entries.clone();
        let all = r.chance(1, 4);
        if !e.is_empty() {
            let i = r.usize(e.len());
            for (j, (k, v)) in e.iter_mut().enumerate() {
                if all || i == j {
                    if r.chance(3, 4) {
                        skew(k, r);
                    } else {
                        skew(v, r);
                    }
                }
            }
            if r.bool() {
                // next to the entry it came from
                e.push(entries[i].clone());
            }
        }
        check_map(&kt, &vt, f, e, ver, false, r, ctx)?;
    }
    if !is_struct && !elems.is_empty() {
        let mut e = elems.clone();
        let i = r.usize(e.len());
        skew(&mut e[i], r);
        check_array(&ty, None, e, ver, false, r, ctx)?;
    }
    check_map(&kt2, &vt, 0, entries, ver, false, r, ctx)?;
    check_map(&stranger, &vt2, 0, entries2, ver, false, r, ctx)?;
    // --- accessors
    for p in tagged_elems.iter().chain(elems.iter().take(2)).chain([&t2]) {
        check_accessors(p, &t3, ctx)?;
        check_accessors(p, &tagged_elems[0], ctx)?;
    }
    if let Some(e) = elems.first() {
        check_accessors(e, elems.last().unwrap(), ctx)?;
    }
    let d = directed();
    let f = directed_file(r, d[(idx % d.len() as u64) as usize], false);
    check_accessors(&f.props[0].1, &t2, ctx)?;
    check_accessors(&f.props[0].1, &f.props[0].1, ctx)?;
    Ok(())
}

// ---------------------------------------------------------------------------------
struct Counted<'a> {
    c: Cursor<&'a [u8]>,
    calls: u64,
}
impl Read for Counted<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        self.c.read(b)
    }
}
impl Seek for Counted<'_> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.calls += 1;
        self.c.seek(p)
    }
}

fn measure(bytes: &[u8], pal: bool, hints: &Hints) -> (i64, i64, u64, bool) {
    let gv = if pal { gvas::game_version::GameVersion::Palworld } else { gvas::game_version::GameVersion::Default };
    let mut s = Counted { c: Cursor::new(bytes), calls: 0 };
    alloc::reset();
    let base = alloc::live();
    let res = GvasFile::read_with_hints(&mut s, gv, hints);
    let peak = alloc::peak() - base;
    let ok = res.is_ok();
    drop(res);
    (peak, alloc::live() - base, s.calls, ok)
}

/// Bytes a container really holds after decompression (both stages).
fn expanded(bytes: &[u8]) -> u64 {
    if bytes.len() < 12 {
        return 0;
    }
    let body = &bytes[12..];
    let inf = |b: &[u8]| -> Vec<u8> {
        let mut out = vec![];
        let mut d = flate2::bufread::ZlibDecoder::new(b).take(1 << 28);
        let _ = d.read_to_end(&mut out);
        out
    };
    match bytes[11] {
        0x31 => inf(body).len() as u64,
        0x32 => {
            let a = inf(body);
            let b = inf(&a);
            (a.len() + b.len()) as u64
        }
        _ => 0,
    }
}

pub fn c21(idx: u64, r: &mut Rng, ctx: &mut Ctx) -> CR {
    let (bytes, pal, hints, desc) = match r.below(10) {
        0..=2 => {
            let h = hostile(r, idx, true);
            (h.bytes, h.pal, h.hints, h.desc)
        }
        3 => {
            // containers with false lengths
            let mut m = small_file(r, idx);
            let t = random_pal(r);
            m.pal = Some(t);
            let made = make(m);
            let mut payload = made.enc.buf.clone();
            if r.chance(1, 8) {
                let n = r.usize(4 << 20);
                payload.resize(payload.len() + n, 0);
            }
            let mut b = container(&payload, t, r.below(10) as u32, r.below(10) as u32);
            for at in [0usize, 4] {
                if r.bool() {
                    let v = hostile_count(r, u32::from_le_bytes(b[at..at + 4].try_into().unwrap()));
                    b[at..at + 4].copy_from_slice(&v.to_le_bytes());
                }
            }
            if r.chance(1, 4) {
                let n = r.usize(b.len());
                b.truncate(n.max(12).min(b.len()));
            }
            (b, true, made.hints, format!("container {t:?} with other lengths"))
        }
        _ => {
            let mut m = small_file(r, idx);
            m.pal = None;
            let made = make(m);
            let mut b = made.enc.buf.clone();
            let counts: Vec<usize> = made
                .enc
                .fields
                .iter()
                .enumerate()
                .filter(|(_, f)| {
                    matches!(f.kind, FK::Count { .. } | FK::CountI { .. } | FK::BodyLen { .. } | FK::StrLen { .. } | FK::StructsSize { .. })
                        || matches!(f.kind, FK::Data) && f.len == 4
                })
                .map(|(i, _)| i)
                .collect();
            let mut what = String::new();
            let n = *r.pick(&[1usize, 1, 1, 2, 3]);
            for _ in 0..n {
                if counts.is_empty() {
                    break;
                }
                let f = made.enc.fields[*r.pick(&counts)];
                let old = u32::from_le_bytes(b[f.off..f.off + 4].try_into().unwrap());
                let v = hostile_count(r, old);
                b[f.off..f.off + 4].copy_from_slice(&v.to_le_bytes());
                if f.len == 8 && r.bool() {
                    b[f.off + 4] ^= 1;
                }
                what += &format!("{:?}@{}={v:#x} ", f.kind, f.off);
            }
            // material that keeps a reader going
            if r.bool() {
                let at = if r.bool() { b.len() } else { made.enc.fields[r.usize(made.enc.fields.len())].off };
                b.truncate(at);
                let n = *r.pick(&[100usize, 5000, 60_000, 300_000]);
                match r.below(4) {
                    0 => b.resize(at + n, 0),
                    1 => b.extend(std::iter::repeat_n([1u8, 0, 0, 0, 0], n / 5).flatten()),
                    2 => b.resize(at + n, 1),
                    _ => {
                        let tail = made.enc.buf[made.enc.header_end..].to_vec();
                        while b.len() < at + n {
                            b.extend(&tail);
                        }
                    }
                }
                what += &format!("followed by {n} bytes");
            }
            (b, false, made.hints, what)
        }
    };
    let n = bytes.len() as u64 + if pal { expanded(&bytes) } else { 0 };
    let bound = (32 << 20) + 2048 * n as i64;
    ctx.eval(&bytes, bytes.len() > 8);
    ctx.sample(|| desc.clone());
    let (peak, residue, calls, ok) = must("read", || measure(&bytes, pal, &hints))?;
    ctx.count(if ok { "accepted" } else { "rejected" });
    for (lim, name) in [(1i64 << 16, "peak over 64 KiB"), (1 << 20, "peak over 1 MiB"), (16 << 20, "peak over 16 MiB")] {
        if peak > lim {
            ctx.count(name);
        }
    }
    if peak > bound {
        return viol_in(
            "memory bound",
            format!("reading {n} bytes needed {peak} bytes of memory, allowed are {bound} ({desc})"),
            &bytes,
        );
    }
    if !pal && calls > 100_000 + 256 * n {
        return viol_in("work bound", format!("reading {n} bytes made {calls} reader calls ({desc})"), &bytes);
    }
    if residue != 0 {
        // caches filled on first use do not count: it must happen again and again
        let mut again = vec![];
        for _ in 0..3 {
            again.push(must("read", || measure(&bytes, pal, &hints))?.1);
        }
        if again.iter().all(|x| *x > 0) {
            return viol_in("memory left", format!("{residue} bytes left allocated after dropping the result, then {again:?} ({desc})"), &bytes);
        }
        ctx.count("first-use residue");
    }
    // written and dropped again
    if ok && r.chance(1, 4) {
        let again: Vec<i64> = (0..3)
            .map(|_| {
                must("write", || {
                    let base = alloc::live();
                    if let Ok(f) = read_file(&bytes, pal, &hints) {
                        let _ = write_file(&f);
                    }
                    alloc::live() - base
                })
            })
            .collect::<Result<_, _>>()?;
        if again.iter().all(|x| *x > 0) {
            return viol_in("memory left", format!("{again:?} bytes left allocated after writing"), &bytes);
        }
    }
    Ok(())
}

fn hostile_count(r: &mut Rng, old: u32) -> u32 {
    match r.below(8) {
        0 => u32::MAX,
        1 => i32::MAX as u32,
        2 => *r.pick(&[1u32 << 31, 1 << 30, 1 << 28, 1 << 24, 1 << 20, 0x00ff_ffff, 100_000_000, 131072, 131071]),
        3 => old.wrapping_add(1 + r.below(4) as u32),
        4 => (-(1i32 << r.below(31))) as u32,
        5 => 1 << r.below(32),
        6 => r.u32(),
        _ => old.saturating_mul(1 + r.below(100_000) as u32),
    }
}

// ---------------------------------------------------------------------------------
/// Valid but unusual: repeated names and keys.
fn loosen(p: &mut P, r: &mut Rng) {
    slots_p(p, &mut |s| match s {
        Slot::Entries(v) if !v.is_empty() && r.chance(1, 2) => {
            let i = r.usize(v.len());
            let k = v[i].0.clone();
            let j = r.usize(v.len());
            let x = v[j].1.clone();
            let at = r.usize(v.len() + 1);
            v.insert(at, (k, x));
        }
        Slot::Members(v) if !v.is_empty() && r.chance(1, 2) => {
            let i = r.usize(v.len());
            let k = v[i].0.clone();
            let x = v[i].1.clone();
            let at = r.usize(v.len() + 1);
            v.insert(at, (k, x));
        }
        Slot::Named(v) if !v.is_empty() && r.chance(1, 2) => {
            let i = r.usize(v.len());
            let x = v[i].clone();
            let at = r.usize(v.len() + 1);
            v.insert(at, x);
        }
        _ => {}
    });
}

pub fn c22(idx: u64, r: &mut Rng, ctx: &mut Ctx) -> CR {
    let (bytes, pal, hints, desc) = match r.below(4) {
        0 | 1 => {
            let h = hostile(r, idx, false);
            (h.bytes, h.pal, h.hints, h.desc)
        }
        2 => {
            let mut m = small_file(r, idx);
            for (_, p) in &mut m.props {
                loosen(p, r);
            }
            if !m.props.is_empty() && r.bool() {
                let i = r.usize(m.props.len());
                let mut x = m.props[i].clone();
                if r.bool() {
                    x.1 = P::I32(7);
                }
                let at = r.usize(m.props.len() + 1);
                m.props.insert(at, x);
            }
            if !m.header.custom.is_empty() && r.chance(1, 4) {
                let i = r.usize(m.header.custom.len());
                let mut c = m.header.custom[i];
                c.1 = c.1.wrapping_add(r.below(3) as u32);
                // the last entry counts: keep the layout
                m.header.custom.insert(i, c);
            }
            let e = if r.bool() { encode_file_alt(&m, r.clone()) } else { encode_file(&m) };
            let mut b = e.buf.clone();
            if r.chance(1, 4) {
                let n = r.usize(30);
                b.extend(r.bytes(n));
            }
            if r.chance(1, 6) {
                let n = b.len() - 1 - r.usize(4);
                b.truncate(n);
            }
            (b, false, hint_table(&e), "repeated keys".to_string())
        }
        _ => {
            let m = small_file(r, idx);
            let e = encode_file_alt(&m, r.clone());
            let mut b = e.buf.clone();
            if r.bool() {
                // one field given another value
                if let Some((x, _)) = damage_field(&e.buf, &e.fields, r.clone().usize(e.fields.len()), r) {
                    b = x;
                }
            }
            let pal = m.pal.is_some();
            if let Some(t) = m.pal {
                b = container(&b, t, r.below(10) as u32, r.below(10) as u32);
            }
            (b, pal, hint_table(&e), "other encodings".to_string())
        }
    };
    let Ok(f) = must("read", || read_file(&bytes, pal, &hints))? else {
        ctx.count("rejected inputs");
        return Ok(());
    };
    ctx.eval(&bytes, true);
    ctx.count("accepted inputs");
    ctx.sample(|| desc.clone());
    let mut f = f;
    let mut last: Option<Vec<u8>> = None;
    for generation in 1..=3 {
        let b = match must("write", || write_file(&f))? {
            Ok(b) => b,
            Err(e) => return viol_in("accepted but unwritable", format!("generation {generation}: {e:?} ({desc})"), &bytes),
        };
        if let Some(l) = &last
            && *l != b
        {
            return viol_in("unstable bytes", format!("generation {generation}: {} ({desc})", diff(l, &b)), &bytes);
        }
        let g = match must("read", || read_file(&b, pal, &hints))? {
            Ok(g) => g,
            Err(e) => {
                return viol_in("written but unreadable", format!("generation {generation}: {e:?} ({desc})"), &bytes);
            }
        };
        let (x, y) = must("inspect", || (fp_file(&f), fp_file(&g)))?;
        if x != y {
            return viol_in("unstable value", format!("generation {generation}: {} ({desc})", diff(&x, &y)), &bytes);
        }
        if must("compare", || f != g)? {
            return viol_in("unstable equality", format!("generation {generation} compares different ({desc})"), &bytes);
        }
        if b == bytes {
            ctx.count("already canonical");
        }
        last = Some(b);
        f = g;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------
fn utf8_ok(dump: &[u8]) -> bool {
    !dump.windows(BAD_UTF8.len()).any(|w| w == BAD_UTF8)
}

pub fn c18(idx: u64, r: &mut Rng, ctx: &mut Ctx) -> CR {
    let j = r.below(64);
    let c = match r.below(4) {
        0 => {
            let h = hostile(r, idx, false);
            Call::Read { bytes: h.bytes, pal: h.pal, hints: h.hints, fail: None }
        }
        1 => {
            let made = make(case_file(r, idx, false));
            Call::Read { bytes: made.bytes(r), pal: made.m.pal.is_some(), hints: made.hints, fail: None }
        }
        2 => {
            // damaged text
            let mut m = small_file(r, idx);
            m.pal = None;
            let made = make(m);
            let mut b = made.enc.buf.clone();
            let bodies: Vec<Field> = made.enc.fields.iter().filter(|f| matches!(f.kind, FK::StrBody { .. } | FK::StrTerm { .. })).copied().collect();
            for _ in 0..1 + r.usize(2) {
                if !bodies.is_empty() {
                    let f = *r.pick(&bodies);
                    let at = f.off + r.usize(f.len);
                    b[at] = *r.pick(&[0xff, 0xc0, 0xed, 0xd8, 0xdc, 0x80, 0xf5, 0xe2, 0]);
                }
            }
            Call::Read { bytes: b, pal: false, hints: made.hints, fail: None }
        }
        _ => call_for(ctx.seed, idx, j),
    };
    if let Call::Read { bytes, .. } | Call::Prop { bytes, .. } = &c {
        ctx.eval(bytes, bytes.len() > 8);
    } else {
        ctx.eval(&[&idx.to_le_bytes()[..], &j.to_le_bytes()].concat(), true);
    }
    ctx.count(call_name(&c));
    ctx.sample(|| call_name(&c).to_string());
    let measure = || {
        let base = alloc::live();
        let got = lib(|| utf8_ok(&perform(&c).0));
        let ok = match got {
            Ok(ok) => ok,
            // judged elsewhere
            Err(p) => {
                drop(p);
                true
            }
        };
        (ok, alloc::live() - base)
    };
    let (ok, left) = measure();
    if !ok {
        return viol("invalid text", format!("a {} produced a string that is not UTF-8", call_name(&c)));
    }
    if left > 0 {
        let again: Vec<i64> = (0..4).map(|_| measure().1).collect();
        if again.iter().all(|x| *x > 0) {
            return viol("leak", format!("a {} leaves {left} bytes allocated, then {again:?}", call_name(&c)));
        }
        ctx.count("first-use residue");
    }
    // the same call with other content in fresh memory
    if r.chance(1, 3) {
        let with = |byte: u8| {
            crate::io::UNSET.store(0, Relaxed);
            let got = alloc::filled(byte, || lib(|| perform(&c).0)).ok();
            (got, crate::io::UNSET.load(Relaxed))
        };
        let (a, b) = (with(0xa5), with(0x3c));
        if a.1 > 0 && b.1 > 0 {
            return viol("uninitialised buffer", format!("a {} hands uninitialised memory to the source", call_name(&c)));
        }
        if a.0 != b.0 && with(0xa5).0 == a.0 && with(0x3c).0 == b.0 {
            return viol("uninitialised memory", format!("the result of a {} depends on the content of fresh memory", call_name(&c)));
        }
        ctx.count("calls repeated with filled memory");
    }
    // dropped values, clones and edits
    if r.chance(1, 16) {
        let f = case_file(r, idx, false);
        let left = || {
            let base = alloc::live();
            drop(lib(|| {
                let v = to_file(&f);
                let mut w = v.clone();
                for (k, (_, p)) in w.properties.0.iter_mut().enumerate() {
                    if k % 2 == 0 {
                        *p = p.clone();
                    }
                }
                v == w
            }));
            alloc::live() - base
        };
        if left() > 0 && (0..4).all(|_| left() > 0) {
            return viol("leak", "building and cloning a file leaves memory allocated");
        }
    }
    Ok(())
}

struct Pk(Vec<u8>);
impl Pk {
    fn u32(&mut self, n: usize) {
        self.0.extend((n as u32).to_le_bytes());
    }
    fn bytes(&mut self, b: &[u8]) {
        self.u32(b.len());
        self.0.extend(b);
    }
    fn hints(&mut self, h: &Hints) {
        self.u32(h.len());
        let mut v: Vec<_> = h.iter().collect();
        v.sort();
        for (k, x) in v {
            self.bytes(k.as_bytes());
            self.bytes(x.as_bytes());
        }
    }
}

fn pack_file(bytes: &[u8], pal: bool, fail: Option<u64>, hints: &Hints) -> Vec<u8> {
    let mut p = Pk(vec![pal as u8]);
    p.u32(fail.unwrap_or(u32::MAX as u64) as usize);
    p.hints(hints);
    p.bytes(bytes);
    p.0
}

/// One record for the interpreter, or none if it would take too long there.
fn pack_call(c: &Call, r: &mut Rng) -> Option<(u8, Vec<u8>)> {
    match c {
        Call::Read { bytes, pal, hints, fail } => {
            let most = if *pal { 250 } else { 500 };
            (bytes.len() < most).then(|| (0, pack_file(bytes, *pal, *fail, hints)))
        }
        Call::Write { m, .. } => {
            let made = make((**m).clone());
            let b = made.bytes(r);
            let pal = made.m.pal.is_some();
            (b.len() < if pal { 250 } else { 500 }).then(|| (0, pack_file(&b, pal, None, &made.hints)))
        }
        Call::Prop { bytes, ty, tagged, hints, stack, custom } => {
            if bytes.len() > 400 {
                return None;
            }
            let mut p = Pk(vec![]);
            p.bytes(ty.as_bytes());
            p.0.push(*tagged as u8);
            let fail = if r.chance(1, 5) { r.usize(bytes.len() + 1) } else { u32::MAX as usize };
            p.u32(fail);
            p.u32(stack.len());
            for s in stack {
                p.bytes(s.as_bytes());
            }
            p.hints(hints);
            p.u32(custom.len());
            for (g, v) in custom {
                p.0.extend(g);
                p.0.extend(v.to_le_bytes());
            }
            p.bytes(bytes);
            Some((1, p.0))
        }
        Call::Header { bytes } => (bytes.len() < 300).then(|| (2, bytes.clone())),
        Call::GuidText(s) => {
            let mut p = Pk(r.guid().to_vec());
            p.bytes(s.as_bytes());
            Some((3, p.0))
        }
        Call::Json { text } => (text.len() < 800).then(|| (4, text.clone().into_bytes())),
        _ => None,
    }
}

/// pack SEED SHARD SHARDS RECORDS OUT: records for the interpreter. The directed ones come first.
pub fn pack(a: &[String]) -> i32 {
    let n = |i: usize| a[i].parse::<u64>().expect("number");
    let (seed, shard, shards, records) = (n(0), n(1), n(2), n(3));
    let mut recs: Vec<(u8, Vec<u8>)> = vec![];
    let d = directed();
    // every kind of value in some positions
    let per = (d.len() as u64).div_ceil(shards);
    for k in 0..per {
        let i = (k * shards + shard) as usize;
        if i >= d.len() {
            break;
        }
        let mut r = Rng::for_case("C18D", seed, i as u64);
        // the other positions are chosen by the seed
        if !matches!(d[i].1, Pos::Top) && !r.chance(1, 12) {
            continue;
        }
        let m = directed_file(&mut r, d[i], true);
        let (name, p) = m.props[0].clone();
        let stack = vec![name];
        let e = encode_prop(&p, Ver::of(&m.header.custom), &stack);
        let c = Call::Prop {
            bytes: e.buf.clone(),
            ty: type_name(&p).into(),
            tagged: true,
            hints: hint_table(&e),
            stack,
            custom: m.header.custom.clone(),
        };
        recs.extend(pack_call(&c, &mut r).filter(|x| x.1.len() < 900));
    }
    let must = recs.len().min(300);
    recs.truncate(must);
    let mut k = shard;
    while (recs.len() as u64) < records {
        k += shards;
        let mut r = Rng::for_case("C18P", seed, k);
        if r.chance(1, 60) {
            let mut p = Pk(vec![]);
            let files: Vec<Vec<u8>> = (0..200)
                .filter_map(|_| {
                    let mut m = small_file(&mut r, u64::MAX);
                    m.pal = None;
                    let made = make(m);
                    (made.enc.buf.len() < 250).then(|| pack_file(&made.enc.buf, false, None, &made.hints))
                })
                .take(2)
                .collect();
            if files.len() < 2 {
                continue;
            }
            p.u32(files.len());
            for f in &files {
                p.bytes(f);
            }
            recs.push((5, p.0));
            continue;
        }
        let c = call_for(seed, k, 63);
        recs.extend(pack_call(&c, &mut r));
    }
    let mut p = Pk(vec![]);
    p.u32(must);
    p.u32(recs.len());
    for (k, b) in &recs {
        p.0.push(*k);
        p.bytes(b);
    }
    match std::fs::write(&a[4], p.0) {
        Ok(()) => 0,
        Err(e) => {
            eprintln!("{e}");
            2
        }
    }
}
