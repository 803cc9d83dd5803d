//! C06..C13: truncation, headers, containers, hints, error reports, I/O.
use crate::checks_a::*;
use crate::conv::*;
use crate::ctx::*;

use crate::enc::*;
use crate::gen_::*;
use crate::io::*;
use crate::model::*;
use crate::mutate::*;
use crate::rng::Rng;
use gvas::cursor_ext::WriteExt;
use gvas::error::{DeserializeError as DE, Error};
use gvas::game_version::GameVersion;
use gvas::properties::text_property::FText;
use gvas::properties::{Property, PropertyTrait};
use gvas::{GvasFile, GvasHeader};
use std::collections::HashMap;
use std::io::{Cursor, ErrorKind, Seek, SeekFrom};

/// Comparable outcome of a read.
pub fn outcome(r: &Result<GvasFile, Error>) -> Result<Vec<u8>, String> {
    match r {
        Ok(f) => Ok(fp_file(f)),
        Err(e) => Err(format!("{e:?} / {e}")),
    }
}
pub fn brief(o: &Result<Vec<u8>, String>) -> String {
    match o {
        Ok(b) => format!("a file ({} bytes of content)", b.len()),
        Err(e) => format!("error {}", e.chars().take(200).collect::<String>()),
    }
}

/// All values of 0..n when few, otherwise edges plus a random choice.
pub fn positions(n: usize, most: usize, r: &mut Rng) -> Vec<usize> {
    if n <= most {
        return (0..n).collect();
    }
    let edge = 24.min(most / 3);
    let mut v: Vec<usize> = (0..edge.min(n)).chain(n.saturating_sub(edge)..n).collect();
    while v.len() < most {
        v.push(r.usize(n));
    }
    v.sort();
    v.dedup();
    v
}

// ---------------------------------------------------------------------------------
/// Struct values inside a property and their types.
fn bare_structs<'a>(p: &'a P, out: &mut Vec<(String, &'a SV)>) {
    match p {
        P::Struct(_, t, v) => out.push((t.clone(), v)),
        P::SVal(v) => out.push((sv_type(v, "Bare.StructProperty"), v)),
        P::Array { elems, info: None, .. } | P::Set { elems, .. } => elems.iter().for_each(|e| bare_structs(e, out)),
        P::Array { elems, info: Some(i), .. } => {
            for e in elems {
                if let P::SVal(v) = e {
                    out.push((i.ty.clone(), v));
                }
            }
        }
        P::Map { entries, .. } => {
            for (k, v) in entries {
                bare_structs(k, out);
                bare_structs(v, out);
            }
        }
        _ => {}
    }
}

pub fn c06(idx: u64, r: &mut Rng, ctx: &mut Ctx) -> CR {
    let b = bulk_case(r, idx, false);
    let large = b.is_some();
    let mut m = b.unwrap_or_else(|| small_file(r, idx));
    if r.chance(1, 6) {
        m.pal = Some(random_pal(r));
    }
    let made = make(m);
    let full = made.bytes(r);
    let pal = made.m.pal.is_some();
    let most = match ctx.tier {
        _ if large => 8,
        Tier::Thorough => 4000,
        Tier::Quick => 700,
    };
    // after the final terminator of a plain save come four bytes nobody reads
    let end = if pal { full.len() } else { full.len() - 4 };
    ctx.sample(|| made.describe());
    ctx.count(if pal { "containers" } else { "plain files" });
    let mut kinds = [0u64; 2];
    for cut in positions(end, most, r) {
        let part = &full[..cut];
        ctx.eval(part, cut > 4);
        match must("read", || read_file(part, pal, &made.hints))? {
            Ok(_) => {
                return viol_in(
                    "truncated accepted",
                    format!("a save of {} bytes cut at {cut} was accepted (pal {:?})", full.len(), made.m.pal),
                    part,
                );
            }
            Err(Error::Io(_)) => kinds[0] += 1,
            Err(_) => kinds[1] += 1,
        }
    }
    ctx.add("cuts reported as I/O errors", kinds[0]);
    ctx.add("cuts reported as other errors", kinds[1]);
    // header on its own
    if r.chance(1, 8) {
        let h = &made.enc.buf[..made.enc.header_end];
        for cut in positions(h.len(), if large { 8 } else { 300 }, r) {
            ctx.eval(&h[..cut], cut > 4);
            if must("header read", || GvasHeader::read(&mut Cursor::new(&h[..cut])))?.is_ok() {
                return viol_in("truncated header accepted", format!("header cut at {cut} of {}", h.len()), &h[..cut]);
            }
        }
        ctx.count("headers");
    }
    // single properties
    let custom = to_custom(&made.m.header.custom);
    let ver = Ver::of(&made.m.header.custom);
    if r.chance(1, 60) {
        // one block of a length at which buffers are often divided
        let n = match r.below(4) {
            0 if !dict().ints.is_empty() => *r.pick(&dict().ints) as usize,
            _ => (1usize << (6 + r.below(12))) + r.usize(3) - 1,
        };
        if n <= 1 << 18 {
            let p = match r.below(3) {
                0 => P::Str(Some("x".repeat(n.clamp(1, 131_071)))),
                _ => P::Unknown("BlobProperty".into(), vec![7; n]),
            };
            let e = encode_prop(&p, ver, &["B".to_string()]);
            for cut in positions(e.buf.len(), 6, r) {
                let part = &e.buf[..cut];
                ctx.eval(part, cut > 0);
                let mut stack = vec!["B".to_string()];
                let (got, _) = must("property read", || read_prop(part, 0, type_name(&p), true, &made.hints, &mut stack, &custom))?;
                if got.is_ok() {
                    return viol_in("truncated property accepted", format!("{} of {n} bytes cut at {cut}", type_name(&p)), part);
                }
            }
            ctx.count("blocks");
        }
    }
    for (name, p) in made.m.props.iter().take(1) {
        let e = encode_prop(p, ver, std::slice::from_ref(name));
        let ty = type_name(p);
        for cut in positions(e.buf.len(), if large { 8 } else { 300 }, r) {
            let part = &e.buf[..cut];
            ctx.eval(part, cut > 0);
            let mut stack = vec![name.clone()];
            let (got, _) =
                must("property read", || read_prop(part, 0, ty, true, &made.hints, &mut stack, &custom))?;
            if got.is_ok() {
                return viol_in("truncated property accepted", format!("{ty} cut at {cut} of {}", e.buf.len()), part);
            }
        }
        ctx.count("properties");
        // the value without its tag, for kinds that exist without one
        let simple = !matches!(
            p,
            P::Array { .. } | P::Set { .. } | P::Map { .. } | P::Unknown(..) | P::Byte(..) | P::Struct(..) | P::SVal(_)
        );
        if simple {
            let b = with_ver(ver, |e| e.body(p)).0.buf;
            for cut in positions(b.len(), if large { 4 } else { 200 }, r) {
                let mut stack = vec![name.clone()];
                let part = &b[..cut];
                ctx.eval(part, cut > 0);
                let (got, _) =
                    must("property read", || read_prop(part, 0, ty, false, &made.hints, &mut stack, &custom))?;
                if got.is_ok() {
                    return viol_in("truncated body accepted", format!("{ty} body cut at {cut} of {}", b.len()), part);
                }
            }
        }
        // a struct without its tag, the type coming from the hint table
        let mut bare = vec![];
        bare_structs(p, &mut bare);
        for (t, v) in bare.into_iter().take(4) {
            let path = vec!["Bare".to_string()];
            let e = with_ver(ver, |e| {
                e.stack = path.clone();
                e.stack.push("StructProperty".into());
                e.sv(v)
            })
            .0;
            let mut hints = hint_table(&e);
            let b = e.buf;
            hints.insert("Bare.StructProperty".into(), t.clone());
            for cut in positions(b.len(), if large { 4 } else { 200 }, r) {
                let mut stack = path.clone();
                let part = &b[..cut];
                ctx.eval(part, cut > 0);
                let (got, _) =
                    must("property read", || read_prop(part, 0, "StructProperty", false, &hints, &mut stack, &custom))?;
                if got.is_ok() {
                    return viol_in("truncated struct accepted", format!("{t} cut at {cut} of {}", b.len()), part);
                }
            }
            ctx.count("bare structs");
        }
        if let P::Text(t) = p {
            let b = with_ver(ver, |e| e.text(t)).0.buf;
            for cut in positions(b.len(), if large { 4 } else { 200 }, r) {
                let part = &b[..cut];
                let hints = HashMap::new();
                let got = must("text read", || {
                    options(&hints, &mut vec![], &custom, |o| FText::read(&mut Cursor::new(part), o).is_ok())
                })?;
                ctx.eval(part, cut > 0);
                if got {
                    return viol_in("truncated text accepted", format!("text cut at {cut} of {}", b.len()), part);
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------
struct Gates {
    magic: [u8; 4],
    version: u32,
    pkg: u32,
    ue5: u32,
    format: u32,
}

impl Gates {
    fn ok(&self) -> bool {
        self.magic == *b"GVAS"
            && (self.version == 2 || self.version == 3)
            && (0x205..=0x20D).contains(&self.pkg)
            && (self.version == 2 || (1000..=1009).contains(&self.ue5))
            && self.format == 3
    }
}

fn near(r: &mut Rng, good: &[u32]) -> u32 {
    let g = *r.pick(good);
    match r.below(12) {
        0..=5 => g,
        6 => g.wrapping_add(r.below(9) as u32).wrapping_sub(4),
        7 => g ^ (1 << r.below(32)),
        8 => r.below(0x1000) as u32,
        9 => g.swap_bytes(),
        10 => {
            let d = dict();
            if d.ints.is_empty() { 0 } else { *r.pick(&d.ints) as u32 }
        }
        _ => r.u32(),
    }
}

pub fn c07_directed() -> u64 {
    4096
}

pub fn c07(idx: u64, r: &mut Rng, ctx: &mut Ctx) -> CR {
    let mut cfg = Cfg::random(r);
    if r.chance(1, 300) {
        cfg.max_str = 131071;
        cfg.budget = 200_000;
        cfg.p_long = 200;
    }
    let mut custom = custom_table(r);
    if r.chance(1, 200) {
        // long tables
        let n = *r.pick(&[100usize, 255, 256, 257, 1000, 5000]);
        for i in 0..n {
            let mut g = [0x33u8; 16];
            g[8..12].copy_from_slice(&(i as u32).to_le_bytes());
            custom.push((g, r.u32()));
        }
    }
    // an entry that comes again: the later version counts
    let mut listed = custom.clone();
    if !custom.is_empty() && r.chance(1, 10) {
        for _ in 0..1 + r.usize(3) {
            let i = r.usize(custom.len());
            let v = match r.below(3) {
                0 => 0,
                1 => custom[i].1,
                _ => r.below(60) as u32,
            };
            custom[i].1 = v;
            listed.push((custom[i].0, v));
        }
    }
    let repeated = listed.len() != custom.len();
    let mut h = Gen::new(r, Ver::of(&custom), cfg).header(custom);
    let mut g = Gates {
        magic: *b"GVAS",
        version: h.version,
        pkg: h.pkg,
        ue5: if h.version == 3 { h.ue5 } else { r.range(1000, 1009) as u32 },
        format: 3,
    };
    if idx < c07_directed() {
        // sweep one gate around its limits
        match idx / 1024 {
            0 => g.version = (idx % 1024) as u32,
            1 => g.pkg = (idx % 1024) as u32,
            2 => {
                g.version = 3;
                g.ue5 = 500 + (idx % 1024) as u32
            }
            _ => g.format = (idx % 1024) as u32,
        }
    } else {
        match r.below(6) {
            0 => g.version = near(r, &[2, 3]),
            1 => g.pkg = near(r, &[0x205, 0x20D, 0x209]),
            2 => {
                g.version = 3;
                g.ue5 = near(r, &[1000, 1009, 1004])
            }
            3 => g.format = near(r, &[3]),
            4 => {
                g.version = near(r, &[2, 3]);
                g.pkg = near(r, &[0x205, 0x20D]);
                g.ue5 = near(r, &[1000, 1009]);
                g.format = near(r, &[3]);
                if r.chance(1, 4) {
                    g.magic[r.usize(4)] ^= 1 << r.below(8);
                }
            }
            _ => {}
        }
        if r.chance(1, 20) {
            g.magic = *r.pick(&[*b"GVAs", *b"SAVG", *b"gvas", *b"GVA\0", *b"\0VAS", *b"PlZ1", *b"GVSA"]);
        }
    }
    let ok = g.ok();
    // layout: the UE5 field exists only in version 3 (and would exist for later ones)
    let (e, _) = with_ver(Ver::of(&h.custom), |e| {
        if r.chance(1, 4) {
            e.alt = Some(r.clone());
        }
        e.buf.extend(g.magic);
        e.u32(g.version, FK::Data);
        e.u32(g.pkg, FK::Data);
        if g.version >= 3 {
            e.u32(g.ue5, FK::Data);
        }
        e.u16(h.major, FK::Data);
        e.u16(h.minor, FK::Data);
        e.u16(h.patch, FK::Data);
        e.u32(h.changelist, FK::Data);
        e.string(&h.branch);
        e.u32(g.format, FK::Data);
        e.u32(listed.len() as u32, FK::Data);
        for (k, v) in &listed {
            e.guid(k);
            e.u32(*v, FK::Data);
        }
        e.string(&h.class);
    });
    let canonical = e.alt.is_none() && !repeated;
    let bytes = e.buf;
    // a header whose branch or class name is missing or malformed
    if ok {
        let lens: Vec<_> = e.fields.iter().filter(|f| matches!(f.kind, FK::StrLen { .. } | FK::StrTerm { .. })).collect();
        let f = *r.pick(&lens);
        let mut bad = bytes.clone();
        let what = if let FK::StrLen { .. } = f.kind {
            let v = *r.pick(&[0, 0, i32::MIN, i32::MAX, 131_073, -131_073, -(1 << 30)]);
            bad[f.off..f.off + 4].copy_from_slice(&v.to_le_bytes());
            format!("length {v} of the string at {}", f.off)
        } else {
            bad[f.off + r.usize(f.len)] = 1 + r.below(255) as u8;
            format!("no terminator at {}", f.off)
        };
        bad.extend(vec![0; r.usize(300)]);
        ctx.eval(&bad, true);
        if must("header read", || GvasHeader::read(&mut Cursor::new(&bad)))?.is_ok() {
            return viol_in("malformed header accepted", format!("a header was accepted with {what}"), &bad);
        }
        ctx.count("malformed string, rejected");
    }
    // at an offset, with something after it
    let before = if r.bool() { 0 } else { r.usize(40) };
    let after = r.usize(40);
    let mut src = r.bytes(before);
    if before > 0 && r.bool() {
        // something that would be a valid header start
        let n = before.min(4);
        src[..n].copy_from_slice(&b"GVAS"[..n]);
    }
    src.extend(&bytes);
    let tail = r.bytes(after);
    src.extend(&tail);
    ctx.eval(&bytes, true);
    ctx.sample(|| format!("version {} pkg {:#x} ue5 {} format {} at offset {before}", g.version, g.pkg, g.ue5, g.format));
    let mut c = Cursor::new(&src);
    c.set_position(before as u64);
    let got = must("header read", || GvasHeader::read(&mut c))?;
    let pos = c.position();
    match (ok, got) {
        (true, Ok(lh)) => {
            ctx.count("supported, accepted");
            h.version = g.version;
            h.pkg = g.pkg;
            h.ue5 = g.ue5;
            let want = to_header(&h);
            let (a, b) = must("inspect", || (fp_header(&want), fp_header(&lh)))?;
            if a != b {
                return viol_in("header fields", format!("a header field was read wrong: {}", diff(&a, &b)), &src);
            }
            if pos != (before + bytes.len()) as u64 {
                return viol_in(
                    "header position",
                    format!("reading a {}-byte header at {before} left the reader at {pos}", bytes.len()),
                    &src,
                );
            }
            let mut out = Cursor::new(vec![0x55u8; before + 3]);
            out.set_position(before as u64);
            match must("header write", || lh.write(&mut out))? {
                Ok(_) => {
                    let end = out.position() as usize;
                    let out = out.into_inner();
                    let mut want = bytes.clone();
                    if !canonical {
                        want = with_ver(Ver::of(&h.custom), |e| e.header(&h)).0.buf;
                    }
                    if out[before..end.max(before)] != want[..] || out[..before] != vec![0x55u8; before] {
                        return viol_in(
                            "header bytes",
                            format!("rewritten header differs: {}", diff(&want, &out[before..])),
                            &src,
                        );
                    }
                }
                Err(e) => return viol_in("header write failed", format!("{e:?}"), &src),
            }
        }
        (true, Err(e)) => {
            return viol_in(
                "supported header rejected",
                format!("version {} pkg {:#x} ue5 {} format {}: {e:?}", g.version, g.pkg, g.ue5, g.format),
                &src,
            );
        }
        (false, Ok(_)) => {
            return viol_in(
                "unsupported header accepted",
                format!(
                    "magic {:?} version {} pkg {:#x} ue5 {} format {} was accepted",
                    g.magic, g.version, g.pkg, g.ue5, g.format
                ),
                &src,
            );
        }
        (false, Err(_)) => ctx.count("unsupported, rejected"),
    }
    // as part of a file
    if r.chance(1, 3) {
        let mut f = bytes.clone();
        f.extend(with_ver(Ver::of(&h.custom), |e| e.string("None")).0.buf);
        f.extend([0; 4]);
        let got = must("read", || read_file(&f, false, &Hints::new()))?;
        ctx.eval(&f, true);
        match (ok, got) {
            (true, Ok(lf)) => {
                let want = to_header(&h);
                if fp_header(&want) != fp_header(&lf.header) {
                    return viol_in("file header fields", "header of the file differs", &f);
                }
            }
            (true, Err(e)) => return viol_in("file with supported header rejected", format!("{e:?}"), &f),
            (false, Ok(_)) => return viol_in("file with unsupported header accepted", "accepted", &f),
            (false, Err(_)) => {}
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------
/// zlib stream with flush points and a level.
fn deflate_blocks(data: &[u8], level: u32, r: &mut Rng) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::new(level));
    let mut i = 0;
    while i < data.len() {
        let n = 1 + r.usize((data.len() - i).min(5000));
        e.write_all(&data[i..i + n]).expect("harness: deflate");
        i += n;
        if r.chance(1, 3) {
            e.flush().expect("harness: deflate");
        }
    }
    e.finish().expect("harness: deflate")
}

fn big_file(r: &mut Rng, thorough: bool) -> File {
    let cfg = Cfg { max_depth: 1, budget: 60, ..Cfg::small(r) };
    let mut m = random_file(r, cfg);
    let most = if thorough { 3 << 20 } else { 400_000 };
    let n = match r.below(4) {
        0 => *r.pick(&[32767usize, 32768, 32769, 65535, 65536, 65537, 131072, 262144]),
        _ => r.usize(most),
    };
    let raw = match r.below(4) {
        0 => vec![r.u64() as u8; n],
        1 => r.bytes(n),
        2 => {
            let unit = {
                let k = 1 + r.usize(300);
                r.bytes(k)
            };
            unit.iter().cycle().take(n).copied().collect()
        }
        _ => (0..n).map(|_| (r.below(4)) as u8).collect(),
    };
    m.props.retain(|(k, _)| k != "Big");
    let at = r.usize(m.props.len() + 1);
    m.props.insert(at, ("Big".into(), P::Unknown("BlobProperty".into(), raw)));
    m
}

pub fn c08(idx: u64, r: &mut Rng, ctx: &mut Ctx) -> CR {
    let b = bulk_case(r, idx, false);
    let large = b.is_some();
    let mut m = match r.below(60) {
        _ if large => b.unwrap(),
        0 => big_file(r, ctx.tier == Tier::Thorough),
        _ => small_file(r, idx),
    };
    let t = [Pal::None, Pal::Zlib, Pal::Twice][(idx % 3) as usize];
    m.pal = if !large && r.chance(1, 12) { None } else { Some(t) };
    let made = make(m);
    let v = must("building a file", || made.value())?;
    ctx.eval(&made.enc.buf, made.nontrivial());
    ctx.sample(|| made.describe());
    // --- written container
    let before = *r.pick(&[0usize, 0, 1, 4, 12, 13, 100]);
    let keep = r.usize(60);
    let mut pre = r.bytes(before);
    let pre_copy = pre.clone();
    pre.extend(vec![0xA5; keep]);
    let mut out = Cursor::new(pre);
    out.set_position(before as u64);
    if let Err(e) = must("write", || v.write(&mut out))? {
        return viol("write failed", format!("writing a container failed: {e:?}"));
    }
    let end = out.position() as usize;
    let data = out.into_inner();
    if data.len() < before || data[..before] != pre_copy[..] {
        return viol_in("earlier bytes changed", format!("writing at {before} changed bytes before it"), &made.enc.buf);
    }
    if end < before || end > data.len() {
        return viol_in("end position", format!("writing at {before} ended at position {end} of {}", data.len()), &made.enc.buf);
    }
    let w = &data[before..end];
    if data.len() > end && data[end..] != vec![0xA5u8; data.len() - end][..] {
        return viol_in("bytes after the end", "bytes beyond the end position were written", w);
    }
    if data.len() < before + keep {
        return viol_in("sink shortened", "the sink holds fewer bytes than before", w);
    }
    match made.m.pal {
        None => {
            if w != made.enc.buf {
                return viol_in("plain bytes", diff(&made.enc.buf, w), w);
            }
            ctx.count("plain written at an offset");
        }
        Some(t) => match unpack(w) {
            Err(e) => return viol_in("broken container", format!("written {t:?} container: {e}"), w),
            Ok((dlen, clen, ty, payload, actual)) => {
                if ty != t {
                    return viol_in("wrong type", format!("asked for {t:?}, wrote {ty:?}"), w);
                }
                if payload != made.enc.buf {
                    return viol_in("wrong payload", format!("{t:?}: {}", diff(&made.enc.buf, &payload)), w);
                }
                if dlen as usize != payload.len() {
                    return viol_in("decompressed length", format!("{t:?}: {dlen} for {} bytes", payload.len()), w);
                }
                if clen as usize != actual {
                    return viol_in("compressed length", format!("{t:?}: {clen} for {actual} bytes"), w);
                }
                ctx.count(&format!("written {t:?}"));
            }
        },
    }
    // --- read containers of any origin
    let Some(t) = made.m.pal else { return Ok(()) };
    let payload = &made.enc.buf;
    let mut c = if r.chance(1, 3) {
        let mut c = container(&[], Pal::None, 0, 0);
        let (ty, body, clen) = match t {
            Pal::None => (0x30, payload.clone(), payload.len()),
            Pal::Zlib => {
                let l = r.below(10) as u32;
                let b = deflate_blocks(payload, l, r);
                let n = b.len();
                (0x31, b, n)
            }
            Pal::Twice => {
                let (l, k) = (r.below(10) as u32, r.below(10) as u32);
                let a = deflate_blocks(payload, l, r);
                let b = deflate_blocks(&a, k, r);
                (0x32u8, b, a.len())
            }
        };
        c[0..4].copy_from_slice(&(payload.len() as u32).to_le_bytes());
        c[4..8].copy_from_slice(&(clen as u32).to_le_bytes());
        c[11] = ty;
        c.extend(body);
        c
    } else {
        container(payload, t, r.below(10) as u32, r.below(10) as u32)
    };
    let want = fp_file(&v);
    let off = *r.pick(&[0usize, 0, 0, 1, 12, 33]);
    let mut src = r.bytes(off);
    src.extend(&c);
    ctx.eval(&src, made.nontrivial());
    let got = must("read", || {
        let mut s = Cursor::new(&src);
        s.set_position(off as u64);
        GvasFile::read_with_hints(&mut s, GameVersion::Palworld, &made.hints)
    })?;
    match got {
        Ok(f) => {
            let b = must("inspect", || fp_file(&f))?;
            if b != want {
                return viol_in("container value", format!("{t:?}: {}", diff(&want, &b)), &src);
            }
            ctx.count(&format!("read {t:?}"));
        }
        Err(e) => return viol_in("container rejected", format!("{t:?} container at {off}: {e:?}"), &src),
    }
    // --- broken containers
    let orig = c.clone();
    let what = match r.below(6) {
        0 => {
            let i = 8 + r.usize(3);
            c[i] ^= 1 + r.below(255) as u8;
            "magic"
        }
        1 => {
            c[11] = loop {
                let b = r.below(256) as u8;
                if !(0x30..=0x32).contains(&b) {
                    break b;
                }
            };
            "type"
        }
        2 | 3 => {
            let d = *r.pick(&[1u64, 1, 2, 4, 13, 1000, u32::MAX as u64]);
            let n = (payload.len() as u64 + d).min(u32::MAX as u64) as u32;
            c[0..4].copy_from_slice(&n.to_le_bytes());
            "declared length"
        }
        _ if t == Pal::None => return Ok(()),
        _ => {
            let mut body = c[12..].to_vec();
            match r.below(4) {
                0 => {
                    let i = r.usize(body.len());
                    body[i] ^= 1 << r.below(8);
                }
                1 => {
                    // the stream's checksum
                    let i = body.len() - 1 - r.usize(4);
                    body[i] ^= 1 << r.below(8);
                }
                2 => {
                    let i = r.usize(body.len());
                    body.truncate(i);
                }
                _ => {
                    blind(&mut body, r);
                }
            }
            c.truncate(12);
            c.extend(&body);
            // what does an independent inflater say
            let stage = |b: &[u8]| -> Option<Vec<u8>> { inflate(b).ok() };
            let trailing = |b: &[u8]| inflate(b).err().map(|e| e.contains("bytes after")).unwrap_or(false);
            if trailing(&body) {
                ctx.count("open: data after the stream");
                return Ok(());
            }
            let p = match t {
                Pal::Zlib => stage(&body),
                _ => match stage(&body) {
                    Some(a) if trailing(&a) => return Ok(()),
                    Some(a) => stage(&a),
                    None => None,
                },
            };
            match p {
                None => "compressed stream",
                Some(p) if p == *payload => {
                    ctx.count("damage without effect");
                    if let Err(e) = must("read", || read_file(&c, true, &made.hints))? {
                        return viol_in("intact stream rejected", format!("{e:?}"), &c);
                    }
                    return Ok(());
                }
                Some(_) => {
                    ctx.count("open: other valid stream");
                    return Ok(());
                }
            }
        }
    };
    ctx.eval(&c, true);
    if must("read", || read_file(&c, true, &made.hints))?.is_ok() && c != orig {
        return viol_in(&format!("bad {what} accepted"), format!("{t:?} container with a bad {what} was accepted"), &c);
    }
    ctx.count(&format!("bad {what} rejected"));
    Ok(())
}

// ---------------------------------------------------------------------------------
pub fn c09(idx: u64, r: &mut Rng, ctx: &mut Ctx) -> CR {
    let d = directed_count();
    let mut made = None;
    for k in 0..40 {
        let mut m = if idx < d && k == 0 {
            small_file(r, idx)
        } else if k == 0
            && let Some(b) = bulk_case(r, idx, false)
        {
            b
        } else if r.chance(1, 5) {
            let n = 1 + r.usize(12);
            deep_file(r, n)
        } else {
            let mut cfg = Cfg::random(r);
            cfg.budget = cfg.budget.max(400);
            cfg.kinds.extend([K::Set, K::Map, K::Map, K::Array, K::Struct(SK::Custom), K::Struct(SK::Custom)]);
            cfg.kinds.push(K::Struct(*r.pick(SKS)));
            random_file(r, cfg)
        };
        if r.chance(1, 40) {
            far(&mut m, r);
        }
        let x = make(m);
        if !x.enc.hints.is_empty() {
            made = Some(x);
            break;
        }
        if idx < full_count() {
            return Ok(());
        }
    }
    let Some(made) = made else { return Ok(()) };
    let made = made.plain();
    let bytes = &made.enc.buf;
    let want = fp_file(&made.value());
    ctx.sample(|| format!("{} header-less structs, {} paths: {}", made.enc.hints.len(), made.hints.len(), made.enc.hints[0].path));
    // --- discovery
    let mut known = Hints::new();
    if r.bool() {
        decoys(&mut known, &made.hints, r);
    }
    let mut steps = 0;
    loop {
        let next = made.enc.hints.iter().find(|h| !known.contains_key(&h.path));
        ctx.eval(&[bytes.as_slice(), &(known.len() as u32).to_le_bytes()].concat(), true);
        let base = if r.chance(1, 8) { *r.pick(FAR) } else { 0 };
        let got = must("read", || GvasFile::read_with_hints(&mut Far::new(bytes, base), GameVersion::Default, &known))?;
        match (next, got) {
            (None, Ok(f)) => {
                let b = must("inspect", || fp_file(&f))?;
                if b != want {
                    return viol_in("hinted value", format!("value with all hints differs: {}", diff(&want, &b)), bytes);
                }
                break;
            }
            (None, Err(e)) => {
                return viol_in("hinted rejected", format!("all hints given, still: {e:?}"), bytes);
            }
            (Some(h), Ok(_)) => {
                return viol_in("missing hint ignored", format!("accepted without a hint for {}", h.path), bytes);
            }
            (Some(h), Err(Error::Deserialize(DE::MissingHint(ty, path, pos)))) => {
                // positions may count from either place
                let right = pos == h.off as u64 || pos == base + h.off as u64;
                if *path != *h.path || !right || &*ty != "StructProperty" {
                    return viol_in(
                        "missing hint report",
                        format!(
                            "the missing hint is {:?} at {base} + {}, reported: {ty} {path:?} at {pos}",
                            h.path, h.off
                        ),
                        bytes,
                    );
                }
                known.insert(path.to_string(), h.ty.clone());
                ctx.count("missing hints reported");
            }
            (Some(h), Err(e)) => {
                return viol_in("missing hint error", format!("hint {} missing, got {e:?}", h.path), bytes);
            }
        }
        steps += 1;
        if steps > 400 {
            break;
        }
    }
    // --- other entries never matter
    let mut more = made.hints.clone();
    decoys(&mut more, &made.hints, r);
    if r.chance(1, 300) {
        // a table for many games
        let n = *r.pick(&[300, 1100, 5000, 70_000]);
        let stem = r.pick(&made.enc.hints).path.clone();
        for i in 0..n {
            more.entry(format!("{stem}{i}")).or_insert_with(|| r.pick(BUILTIN_STRUCTS).to_string());
        }
        ctx.count("large hint tables");
    }
    let pal = r.chance(1, 16);
    let given = if pal { container(bytes, random_pal(r), 1, 1) } else { bytes.clone() };
    let got = must("read", || read_file(&given, pal, &more))?;
    let got = got.map(|mut f| {
        if pal {
            ctx.count("hints used inside containers");
            f.deserialized_game_version = gvas::game_version::DeserializedGameVersion::Default;
        }
        f
    });
    ctx.eval(&[bytes.as_slice(), &(more.len() as u32).to_le_bytes(), b"+"].concat(), true);
    match got {
        Ok(f) if fp_file(&f) == want => ctx.count("irrelevant entries ignored"),
        Ok(_) => return viol_in("irrelevant hint used", "entries for other paths changed the value", bytes),
        Err(e) => return viol_in("irrelevant hint used", format!("entries for other paths changed the result: {e:?}"), bytes),
    }
    // --- a wrong entry is honoured as given
    let mut alt = made.hints.clone();
    let mut keys: Vec<&String> = made.hints.keys().collect();
    keys.sort();
    let k = (*r.pick(&keys)).clone();
    let t = match r.below(6) {
        0 => "Whatever".to_string(),
        1 | 2 => {
            // not a built-in name, but close to the right one or to another
            let t = if r.bool() { made.hints[&k].clone() } else { r.pick(BUILTIN_STRUCTS).to_string() };
            match r.below(12) {
                0 => format!("{t} "),
                1 => format!(" {t}"),
                2 => t.to_lowercase(),
                3 => t.to_uppercase(),
                4 => format!("{t}3"),
                5 => format!("{t}\0"),
                6 => format!("F{t}"),
                7 => format!("/Script/CoreUObject.{t}"),
                8 => format!("{t}\n"),
                9 => t.chars().skip(1).collect(),
                10 => t.chars().take(t.chars().count().saturating_sub(1)).collect(),
                _ => String::new(),
            }
        }
        _ => r.pick(BUILTIN_STRUCTS).to_string(),
    };
    alt.insert(k.clone(), t.clone());
    let got = must("read", || read_file(bytes, false, &alt))?;
    ctx.eval(&[bytes.as_slice(), t.as_bytes(), k.as_bytes()].concat(), true);
    match (verdict(bytes, &alt), got) {
        (Want::Open, _) => {}
        (Want::Accept(m, _), Ok(f)) => {
            let (a, b) = (fp_file(&to_file(&m)), fp_file(&f));
            if a != b {
                return viol_in("hint type", format!("hint {k}={t}: {}", diff(&a, &b)), bytes);
            }
            ctx.count("altered hint, same reading");
        }
        (Want::Reject(_), Err(_)) => ctx.count("altered hint, rejected"),
        (Want::Accept(..), Err(e)) => {
            return viol_in("hint type rejected", format!("hint {k}={t}: {e:?}"), bytes);
        }
        (Want::Reject(e), Ok(_)) => {
            return viol_in("hint type accepted", format!("hint {k}={t} should give {:?}", e.v), bytes);
        }
    }
    // --- a property on its own, below an arbitrary path
    if let Some((_, p)) = made.m.props.iter().find(|(_, p)| matches!(p, P::Set { .. } | P::Map { .. } | P::Struct(..) | P::Array { .. })) {
        let ver = Ver::of(&made.m.header.custom);
        let custom = to_custom(&made.m.header.custom);
        let n = r.usize(4);
        let path: Vec<String> = (0..n).map(|_| r.pick(&["X", "Y.Z", "", "StructProperty", "é"]).to_string()).collect();
        let e = encode_prop(p, ver, &path);
        if let Some(first) = e.hints.first() {
            let mut stack = path.clone();
            let none = Hints::new();
            let (got, _) =
                must("property read", || read_prop(&e.buf, 0, type_name(p), true, &none, &mut stack, &custom))?;
            ctx.eval(&e.buf, true);
            match got {
                Err(Error::Deserialize(DE::MissingHint(_, q, pos))) if *q == *first.path && pos == first.off as u64 => {}
                other => {
                    return viol_in(
                        "property hint report",
                        format!(
                            "expected a missing hint {:?} at {}, got {:?}",
                            first.path,
                            first.off,
                            other.map(|_| "a value")
                        ),
                        &e.buf,
                    );
                }
            }
            let table = hint_table(&e);
            let mut stack = path.clone();
            let (got, _) =
                must("property read", || read_prop(&e.buf, 0, type_name(p), true, &table, &mut stack, &custom))?;
            match got {
                Ok(q) if fp_prop(&q) == fp_prop(&to_prop(p)) => {}
                Ok(_) => return viol_in("property hinted value", "value differs", &e.buf),
                Err(x) => return viol_in("property hinted rejected", format!("{x:?}"), &e.buf),
            }
        }
    }
    Ok(())
}

/// Puts a large property before the others.
fn far(m: &mut File, r: &mut Rng) {
    let n = *r.pick(&[300usize, 33_000, 65_540, 70_000, 140_000]);
    m.props.retain(|(k, _)| k != "Filler");
    m.props.insert(0, ("Filler".into(), P::Unknown("BlobProperty".into(), vec![0x20; n])));
}

/// Entries whose paths resemble, but are not, paths in use.
fn decoys(h: &mut Hints, used: &Hints, r: &mut Rng) {
    let mut keys: Vec<&String> = used.keys().collect();
    keys.sort();
    for _ in 0..1 + r.usize(6) {
        let k = (*r.pick(&keys)).clone();
        let parts: Vec<&str> = k.split('.').collect();
        let cand = match r.below(12) {
            0 => k.to_lowercase(),
            1 => k.to_uppercase(),
            2 => format!("{k}."),
            3 => format!(".{k}"),
            4 => parts[..parts.len() - 1].join("."),
            5 => parts[1..].join("."),
            6 => format!("{k}.StructProperty"),
            7 => k.replace("Key", "Value"),
            8 => k.replace(".StructProperty", ""),
            9 => k.replace('.', "/"),
            10 => parts[parts.len() - 1].to_string(),
            _ => format!("Other.{k}"),
        };
        if !used.contains_key(&cand) {
            let t = if r.chance(1, 4) { "Whatever".to_string() } else { r.pick(BUILTIN_STRUCTS).to_string() };
            h.insert(cand, t);
        }
    }
}

// ---------------------------------------------------------------------------------
fn kind_of(e: &Error) -> String {
    let s = format!("{e:?}");
    s.chars().take_while(|c| c.is_alphanumeric() || *c == '(').collect::<String>().replace("Deserialize(", "")
}

/// Replaces one field by an invalid content and says which report is right.
fn spoil(buf: &[u8], fields: &[Field], i: usize, r: &mut Rng) -> Option<(Vec<u8>, Expect)> {
    let f = fields[i];
    let mut b = buf.to_vec();
    let cur = get(buf, &f);
    let (lo, hi) = (f.off as u64, (f.off + f.len) as u64);
    let put = |b: &mut Vec<u8>, v: u64| {
        let n = f.len.min(8);
        b[f.off..f.off + n].copy_from_slice(&v.to_le_bytes()[..n]);
    };
    let e = match f.kind {
        FK::StrLen { nullable, .. } => {
            let v: i32 = match r.below(6) {
                0 => 131073,
                1 => -131073,
                2 => i32::MAX,
                3 => i32::MIN,
                4 if !nullable => 0,
                _ => {
                    let x = 131073 + (r.u32() >> 2) as i32;
                    if r.bool() { x } else { -x }
                }
            };
            put(&mut b, v as u32 as u64);
            Expect { what: "string length", test: Box::new(move |e| matches!(e, DE::InvalidString(n, p) if *n == v && *p >= lo && *p <= hi)) }
        }
        FK::StrTerm { wide } => {
            let v = if wide {
                {
                    let x = r.u32() as u16 | 1;
                    *r.pick(&[1u16, 0x100, 0xffff, 0x41, x])
                }
            } else {
                1 + r.below(255) as u16
            };
            put(&mut b, v as u64);
            Expect { what: "string terminator", test: Box::new(move |e| matches!(e, DE::InvalidStringTerminator(n, p) if *n == v && *p >= lo && *p <= hi)) }
        }
        FK::StrBody { wide } => {
            // the field as a whole is the string
            let lo = lo - 4;
            let hi = hi + if wide { 2 } else { 1 };
            if wide {
                let k = r.usize(f.len / 2);
                let v = *r.pick(&[0xD800u16, 0xDBFF, 0xDC00, 0xDFFF]);
                b[f.off + 2 * k..f.off + 2 * k + 2].copy_from_slice(&v.to_le_bytes());
                let units: Vec<u16> =
                    b[f.off..f.off + f.len].chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
                if String::from_utf16(&units).is_ok() {
                    return None;
                }
                Expect { what: "UTF-16 text", test: Box::new(move |e| matches!(e, DE::FromUtf16Error(_, p) if *p >= lo && *p <= hi)) }
            } else {
                let k = r.usize(f.len);
                b[f.off + k] = 0x80 + r.below(128) as u8;
                if std::str::from_utf8(&b[f.off..f.off + f.len]).is_ok() {
                    return None;
                }
                Expect { what: "UTF-8 text", test: Box::new(move |e| matches!(e, DE::FromUtf8Error(_, p) if *p >= lo && *p <= hi)) }
            }
        }
        FK::Bool8 => {
            let v = 2 + r.below(254);
            put(&mut b, v);
            Expect { what: "boolean byte", test: Box::new(move |e| matches!(e, DE::InvalidBoolean(n, p) if *n as u64 == v && *p >= lo && *p <= hi)) }
        }
        FK::B32 => {
            let x = 2 + (r.u32() >> 1);
            let v = *r.pick(&[2u32, 0x100, 0x0101, 0x01000000, u32::MAX, x]);
            put(&mut b, v as u64);
            Expect { what: "boolean word", test: Box::new(move |e| matches!(e, DE::InvalidBoolean(n, p) if *n == v && *p >= lo && *p <= hi)) }
        }
        FK::Enum8 { lo: a, hi: z } => {
            let v = loop {
                let v = r.u32() as i8;
                if v < a || v > z {
                    break v;
                }
                if a == i8::MIN && z == i8::MAX {
                    return None;
                }
            };
            put(&mut b, v as u8 as u64);
            Expect { what: "enumeration byte", test: Box::new(move |e| matches!(e, DE::InvalidEnumValue(_, n, p) if *n == v && *p >= lo && *p <= hi)) }
        }
        FK::ArrayIndex => {
            let x = r.u32() | 1;
            let v = *r.pick(&[1u32, 2, 0x100, 0x10000, u32::MAX, x]);
            put(&mut b, v as u64);
            Expect { what: "array index", test: Box::new(move |e| matches!(e, DE::InvalidArrayIndex(n, p) if *n == v && *p >= lo && *p <= hi)) }
        }
        FK::TagTerm => {
            let v = 1 + r.below(255) as u8;
            put(&mut b, v as u64);
            Expect { what: "tag terminator", test: Box::new(move |e| matches!(e, DE::InvalidTerminator(n, p) if *n == v && *p >= lo && *p <= hi)) }
        }
        FK::FixedSize { size } => {
            let (x, y) = (size ^ (1 << r.below(64)), r.u64());
            let v = *r.pick(&[size + 1, size.wrapping_sub(1), x, 0, 1, 2, 4, 8, u64::MAX, y]);
            if v == size {
                return None;
            }
            put(&mut b, v);
            Expect { what: "fixed size", test: Box::new(move |e| matches!(e, DE::InvalidValueSize(w, n, p) if *w == size && *n == v && *p >= lo && *p <= hi)) }
        }
        FK::BodyLen { tag, body, len, free: Some(min) } => {
            let (x, y) = (len ^ (1 << r.below(32)), r.u32());
            let v = *r.pick(&[
                len.wrapping_add(1),
                len.wrapping_sub(1),
                len.wrapping_add(8),
                0,
                min,
                u32::MAX,
                x,
                y,
            ]);
            if v == len || v < min {
                return None;
            }
            put(&mut b, v as u64);
            let (lo, hi) = (tag as u64, body as u64);
            Expect {
                what: "body length",
                test: Box::new(move |e| {
                    matches!(e, DE::InvalidValueSize(w, n, p)
                        if *w == v as u64 && *n == len as u64 && *p >= lo && *p <= hi)
                }),
            }
        }
        _ => return None,
    };
    if b == buf || cur == get(&b, &f) && !matches!(f.kind, FK::StrBody { .. }) {
        return None;
    }
    Some((b, e))
}

/// The same report with a position counted from `base`.
fn moved(e: DE, base: u64) -> DE {
    let m = |p: u64| p.wrapping_sub(base);
    match e {
        DE::InvalidValueSize(a, b, p) => DE::InvalidValueSize(a, b, m(p)),
        DE::InvalidString(a, p) => DE::InvalidString(a, m(p)),
        DE::InvalidStringTerminator(a, p) => DE::InvalidStringTerminator(a, m(p)),
        DE::InvalidBoolean(a, p) => DE::InvalidBoolean(a, m(p)),
        DE::InvalidEnumValue(a, b, p) => DE::InvalidEnumValue(a, b, m(p)),
        DE::InvalidArrayIndex(a, p) => DE::InvalidArrayIndex(a, m(p)),
        DE::InvalidTerminator(a, p) => DE::InvalidTerminator(a, m(p)),
        DE::FromUtf16Error(a, p) => DE::FromUtf16Error(a, m(p)),
        DE::FromUtf8Error(a, p) => DE::FromUtf8Error(a, m(p)),
        other => other,
    }
}

struct Expect {
    what: &'static str,
    test: Box<dyn Fn(&DE) -> bool>,
}

pub fn c10(idx: u64, r: &mut Rng, ctx: &mut Ctx) -> CR {
    let b = bulk_over(r, idx);
    let large = b.is_some();
    if let Some((m, true)) = b {
        // one string is a unit too long, everything else agrees
        let made = make(m);
        let f = made.enc.fields.iter().find(|f| {
            matches!(f.kind, FK::StrLen { .. }) && (get(&made.enc.buf, f) as u32 as i32).unsigned_abs() > 131072
        });
        let Some(f) = f else { return Ok(()) };
        let v = get(&made.enc.buf, f) as u32 as i32;
        let (lo, hi) = (f.off as u64, (f.off + f.len) as u64);
        ctx.eval(&made.enc.buf, true);
        return match must("read", || read_file(&made.enc.buf, false, &made.hints))? {
            Err(Error::Deserialize(DE::InvalidString(n, p))) if n == v && p >= lo && p <= hi => {
                ctx.count("string one unit too long");
                Ok(())
            }
            Err(e) => viol_in("report for a long string", format!("string length {v} at {lo} was reported as {e:?}"), &made.enc.buf),
            Ok(_) => viol_in("accepted a long string", format!("string length {v} at {lo} was accepted"), &made.enc.buf),
        };
    }
    let mut m = b.map(|b| b.0).unwrap_or_else(|| small_file(r, idx));
    m.pal = None;
    if r.chance(1, 40) {
        far(&mut m, r);
    }
    let mut made = make(m);
    if r.chance(1, 5) {
        let a = encode_file_alt(&made.m, r.clone());
        made.hints = hint_table(&a);
        made.enc = a;
    }
    ctx.sample(|| made.describe());
    let n = made.enc.fields.len();
    for i in positions(n, if large { 12 } else { 120 }, r) {
        let Some((b, want)) = spoil(&made.enc.buf, &made.enc.fields, i, r) else { continue };
        ctx.eval(&b, true);
        let f = made.enc.fields[i];
        if r.chance(1, 16) {
            // far away in a larger stream
            let base = *r.pick(FAR);
            let got = must("read", || GvasFile::read_with_hints(&mut Far::new(&b, base), GameVersion::Default, &made.hints))?;
            match got {
                Err(Error::Deserialize(e)) => {
                    let text = format!("{e:?}");
                    // positions may count from either place
                    if !(want.test)(&e) && !(want.test)(&moved(e, base)) {
                        return viol_in(
                            &format!("far report for {}", want.what),
                            format!("invalid {} at {base} + {}..{} was reported as {text}", want.what, f.off, f.off + f.len),
                            &b,
                        );
                    }
                    ctx.count("reports far into a stream");
                }
                other => {
                    return viol_in(
                        &format!("far report for {}", want.what),
                        format!("invalid {} at {base} + {}..{}: {}", want.what, f.off, f.off + f.len, brief(&outcome(&other))),
                        &b,
                    );
                }
            }
        }
        if r.chance(1, 40) {
            // inside a container
            let c = container(&b, random_pal(r), 1, 1);
            match must("read", || read_file(&c, true, &made.hints))? {
                Err(Error::Deserialize(e)) if (want.test)(&e) => ctx.count("reports from containers"),
                other => {
                    return viol_in(
                        &format!("report for {} in a container", want.what),
                        format!("invalid {} at {}..{} of the payload: {}", want.what, f.off, f.off + f.len, brief(&outcome(&other))),
                        &c,
                    );
                }
            }
        }
        match must("read", || read_file(&b, false, &made.hints))? {
            Err(Error::Deserialize(e)) if (want.test)(&e) => ctx.count(want.what),
            Err(e) => {
                return viol_in(
                    &format!("report for {}: {}", want.what, kind_of(&e)),
                    format!(
                        "invalid {} at {}..{} (content {:#x}) was reported as {e:?}",
                        want.what,
                        f.off,
                        f.off + f.len,
                        get(&b, &f)
                    ),
                    &b,
                );
            }
            Ok(_) => {
                return viol_in(
                    &format!("accepted {}", want.what),
                    format!("invalid {} at {}..{} was accepted", want.what, f.off, f.off + f.len),
                    &b,
                );
            }
        }
    }
    if large || made.m.props.is_empty() {
        return Ok(());
    }
    // one property of it, read on its own anywhere in a stream
    let (name, p) = r.pick(&made.m.props).clone();
    let stack = vec![name];
    let e = encode_prop(&p, Ver::of(&made.m.header.custom), &stack);
    let hints = hint_table(&e);
    let custom = to_custom(&made.m.header.custom);
    let ty = type_name(&p);
    for i in positions(e.fields.len(), 24, r) {
        let Some((b, want)) = spoil(&e.buf, &e.fields, i, r) else { continue };
        let before = r.usize(40);
        let base = if r.chance(1, 2) { *r.pick(FAR) } else { r.below(1 << 20) };
        let all = [r.bytes(before), b].concat();
        ctx.eval(&all, true);
        let f = e.fields[i];
        let mut src = Far::new(&all, base);
        src.set_position(before as u64);
        let mut st = stack.clone();
        let got = must("read a property", || options(&hints, &mut st, &custom, |o| Property::new(&mut src, ty, true, o, None)))?;
        match got {
            Err(Error::Deserialize(e)) => {
                let text = format!("{e:?}");
                if !(want.test)(&moved(e, base + before as u64)) {
                    return viol_in(
                        &format!("report for {} in a property", want.what),
                        format!("invalid {} at {} + {}..{} of a {ty} was reported as {text}", want.what, base + before as u64, f.off, f.off + f.len),
                        &all,
                    );
                }
                ctx.count("reports of single properties");
            }
            other => {
                return viol_in(
                    &format!("report for {} in a property", want.what),
                    format!("invalid {} at {}..{} of a {ty}: {}", want.what, f.off, f.off + f.len, if other.is_ok() { "accepted" } else { "not a deserialization error" }),
                    &all,
                );
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------
fn read_src(src: &mut Src, pal: bool, hints: &Hints) -> Result<GvasFile, Error> {
    let gv = if pal { GameVersion::Palworld } else { GameVersion::Default };
    GvasFile::read_with_hints(src, gv, hints)
}

fn chunkings(r: &mut Rng) -> (Chunk, u64) {
    let c = match r.below(6) {
        0 => Chunk::All,
        1 | 2 => Chunk::Fixed(1),
        3 => Chunk::Fixed(1 + r.usize(9)),
        _ => Chunk::Random(*r.pick(&[2usize, 3, 7, 40])),
    };
    (c, *r.pick(&[0u64, 0, 1, 3]))
}

pub fn c11(idx: u64, r: &mut Rng, ctx: &mut Ctx) -> CR {
    let large = (directed_count()..full_count()).contains(&idx);
    let (bytes, pal, hints) = if large {
        let mut m = bulk_case(r, idx, false).expect("harness: bulk case");
        if r.chance(1, 5) {
            m.pal = Some(random_pal(r));
        }
        let made = make(m);
        (made.bytes(r), made.m.pal.is_some(), made.hints)
    } else if r.chance(1, 3) {
        let h = hostile(r, idx, false);
        (h.bytes, h.pal, h.hints)
    } else {
        let mut m = small_file(r, idx);
        if r.chance(1, 5) {
            m.pal = Some(random_pal(r));
        }
        let made = make(m);
        (made.bytes(r), made.m.pal.is_some(), made.hints)
    };
    let base_r = must("read", || read_file(&bytes, pal, &hints))?;
    let base = must("inspect", || outcome(&base_r))?;
    ctx.count(if base.is_ok() { "valid inputs" } else { "rejected inputs" });
    ctx.sample(|| format!("{} bytes, pal {pal}, {}", bytes.len(), brief(&base)));
    // delivery
    for k in 0..3 {
        let (chunk, ints) = match k {
            _ if large => (Chunk::Random(*r.pick(&[500, 9000, 70_000, 200_000])), 1),
            0 => (Chunk::Fixed(1), 2),
            _ => chunkings(r),
        };
        let mut s = Src::new(&bytes, chunk, ints, r.clone());
        r.u64();
        let got_r = must("read", || read_src(&mut s, pal, &hints))?;
        let got = must("inspect", || outcome(&got_r))?;
        ctx.eval(&bytes, bytes.len() > 8);
        ctx.add("reads", s.reads);
        ctx.add("interrupted reads", s.interrupted);
        if got != base {
            return viol_in(
                "delivery matters",
                format!("{chunk:?}, interrupts {ints}/8: {} instead of {}", brief(&got), brief(&base)),
                &bytes,
            );
        }
    }
    // a source that does not start at its beginning
    if large || r.chance(1, 3) {
        let n = *r.pick(&[1usize, 4, 12, 13, 40, 1000]);
        let mut lead = if r.bool() { bytes[..n.min(bytes.len())].to_vec() } else { r.bytes(n) };
        if lead.is_empty() {
            lead.push(0);
        }
        let mut all = lead.clone();
        all.extend_from_slice(&bytes);
        let (chunk, ints) = if large { (Chunk::All, 0) } else { chunkings(r) };
        let mut s = Src::new(&all, chunk, ints, r.clone());
        s.pos = lead.len() as u64;
        if r.bool() {
            s.base = *r.pick(FAR);
        }
        r.u64();
        let got_r = must("read", || read_src(&mut s, pal, &hints))?;
        ctx.count("sources read from the middle");
        let same = match (&got_r, &base) {
            // positions in errors may count from either place
            (Err(_), Err(_)) => true,
            _ => must("inspect", || outcome(&got_r))? == base,
        };
        if !same {
            let got = must("inspect", || outcome(&got_r))?;
            return viol_in(
                "start position matters",
                format!("read from position {}: {} instead of {}", lead.len(), brief(&got), brief(&base)),
                &bytes,
            );
        }
    }
    // failing sources
    let most = match ctx.tier {
        _ if large => 9,
        Tier::Thorough => 400,
        Tier::Quick => 100,
    };
    for at in positions(bytes.len() + 1, most, r) {
        let kind = *r.pick(KINDS);
        let (chunk, ints) = if large { (Chunk::Random(100_000), 1) } else { chunkings(r) };
        let mut s = Src::new(&bytes, chunk, ints, r.clone());
        s.fail_at = Some((at as u64, kind));
        s.once = r.bool();
        r.u64();
        let got = must("read", || read_src(&mut s, pal, &hints))?;
        ctx.eval(&bytes[..at], at > 0);
        if !s.failed {
            let o = must("inspect", || outcome(&got))?;
            if o != base {
                return viol_in("delivery matters", format!("{chunk:?}: {} instead of {}", brief(&o), brief(&base)), &bytes);
            }
            continue;
        }
        ctx.count("injected errors");
        match &got {
            Err(Error::Io(e)) if e.kind() == kind => {}
            other => {
                return viol_in(
                    "I/O error lost",
                    format!(
                        "the source failed with {kind:?} after {at} bytes, reading returned {}",
                        match other {
                            Ok(_) => "a file".to_string(),
                            Err(e) => format!("{e:?}"),
                        }
                    ),
                    &bytes,
                );
            }
        }
        if s.reads_after_fail > 0 {
            return viol_in(
                "reads after an error",
                format!("{} more reads after the source failed at {at}", s.reads_after_fail),
                &bytes,
            );
        }
    }
    // header and single property
    if !pal && base.is_ok() && (large || r.chance(1, 8)) {
        header_delivery(&bytes, large, r, ctx)?;
    }
    if !large && r.chance(1, 2) {
        let m = small_file(r, idx);
        if let Some((name, p)) = m.props.first() {
            prop_delivery(p, name, &m.header.custom, r, ctx)?;
        }
    }
    Ok(())
}

/// A header from a source with short reads and errors, failing at each of its bytes.
fn header_delivery(bytes: &[u8], large: bool, r: &mut Rng, ctx: &mut Ctx) -> CR {
    let mut s = Src::new(bytes, Chunk::All, 0, r.clone());
    let base = match must("header read", || GvasHeader::read(&mut s))? {
        Ok(h) => fp_header(&h),
        Err(e) => return viol_in("header of a valid file rejected", format!("{e:?}"), bytes),
    };
    let end = s.pos as usize;
    let calls = s.queries;
    let same = |got: &Result<GvasHeader, Error>| matches!(got, Ok(h) if fp_header(h) == base);
    for at in positions(end, if large { 9 } else { 400 }, r) {
        let kind = *r.pick(KINDS);
        let (chunk, ints) = if large { (Chunk::Random(9000), 1) } else { chunkings(r) };
        let mut s = Src::new(bytes, chunk, ints, r.clone());
        r.u64();
        s.fail_at = Some((at as u64, kind));
        s.once = r.bool();
        let got = must("header read", || GvasHeader::read(&mut s))?;
        ctx.eval(&bytes[..at], false);
        ctx.count("header reads");
        match got {
            got if !s.failed => {
                if !same(&got) {
                    return viol_in("delivery matters (header)", format!("{chunk:?}, interrupts {ints}/8"), bytes);
                }
            }
            Err(Error::Io(e)) if e.kind() == kind => {}
            Ok(_) => return viol_in("I/O error lost (header)", format!("{kind:?} at {at}: header accepted"), bytes),
            Err(e) => return viol_in("I/O error lost (header)", format!("{kind:?} at {at} became {e:?}"), bytes),
        }
        if s.reads_after_fail > 0 {
            return viol_in("reads after an error (header)", format!("{} more reads", s.reads_after_fail), bytes);
        }
    }
    // the position of the source cannot be told
    for at in positions(calls as usize, if large { 9 } else { 60 }, r) {
        let kind = *r.pick(KINDS);
        let mut s = Src::new(bytes, Chunk::All, 0, r.clone());
        s.fail_query = Some((at as u64, kind));
        let got = must("header read", || GvasHeader::read(&mut s))?;
        query_verdict("header", kind, s.query_failed, same(&got), got.err(), bytes, ctx)?;
    }
    Ok(())
}

/// A failed position query of a valid input either goes unused or is reported.
fn query_verdict(what: &str, kind: ErrorKind, failed: bool, same: bool, err: Option<Error>, bytes: &[u8], ctx: &mut Ctx) -> CR {
    ctx.count("failed position queries");
    match err {
        None if same => Ok(()),
        None => viol_in(&format!("position error lost ({what})"), "another value was read", bytes),
        Some(Error::Io(e)) if failed && e.kind() == kind => Ok(()),
        Some(e) => viol_in(&format!("position error lost ({what})"), format!("{kind:?} became {e:?}"), bytes),
    }
}

/// A single property from a source with short reads and errors.
fn prop_delivery(p: &P, name: &str, custom: &[([u8; 16], u32)], r: &mut Rng, ctx: &mut Ctx) -> CR {
    let e = encode_prop(p, Ver::of(custom), &[name.to_string()]);
    let hints = hint_table(&e);
    let custom = to_custom(custom);
    let mut bytes = e.buf.clone();
    if r.chance(1, 3) {
        bytes = crate::mutate::mutate(&e, r).0;
    }
    let ty = type_name(p);
    let read = |s: &mut Src| {
        let mut stack = vec![name.to_string()];
        let got = options(&hints, &mut stack, &custom, |o| Property::new(s, ty, true, o, None));
        (got, stack)
    };
    let show = |x: &Result<Property, Error>| match x {
        Ok(p) => Ok(fp_prop(p)),
        Err(e) => Err(format!("{e:?}")),
    };
    let mut s = Src::new(&bytes, Chunk::All, 0, r.clone());
    let (base, _) = must("property read", || read(&mut s))?;
    let base = show(&base);
    if base.is_ok() {
        for at in positions(s.queries as usize, 12, r) {
            let kind = *r.pick(KINDS);
            let mut s = Src::new(&bytes, Chunk::All, 0, r.clone());
            s.fail_query = Some((at as u64, kind));
            let (got, _) = must("property read", || read(&mut s))?;
            let same = got.is_ok() && show(&got) == base;
            query_verdict("property", kind, s.query_failed, same, got.err(), &bytes, ctx)?;
        }
    }
    for k in 0..12 {
        let (chunk, ints) = if k == 0 { (Chunk::Fixed(1), 2) } else { chunkings(r) };
        let kind = *r.pick(KINDS);
        let mut s = Src::new(&bytes, chunk, ints, r.clone());
        r.u64();
        let at = r.usize(bytes.len() + 1);
        if k > 2 {
            s.fail_at = Some((at as u64, kind));
            s.once = r.bool();
        }
        let (got, _) = must("property read", || read(&mut s))?;
        ctx.eval(&bytes[..if k > 2 { at } else { bytes.len() }], at > 0);
        ctx.count("property reads");
        match (&got, s.failed) {
            (got, false) => {
                if show(got) != base {
                    return viol_in("delivery matters (property)", format!("{ty} with {chunk:?}, interrupts {ints}/8"), &bytes);
                }
            }
            (Err(Error::Io(e)), true) if e.kind() == kind => {}
            (Ok(_), true) => return viol_in("I/O error lost (property)", format!("{ty} accepted"), &bytes),
            (Err(e), true) => return viol_in("I/O error lost (property)", format!("{ty}: {kind:?} became {e:?}"), &bytes),
        }
        if s.reads_after_fail > 0 {
            return viol_in("reads after an error (property)", format!("{ty}: {} more reads", s.reads_after_fail), &bytes);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------
enum Job<'a> {
    File(&'a GvasFile),
    Header(&'a GvasHeader),
    Prop(&'a Property, bool, &'a gvas::types::map::HashableIndexMap<gvas::types::Guid, u32>),
}

impl Job<'_> {
    fn run(&self, s: &mut Sink) -> Result<(), Error> {
        match self {
            Job::File(f) => f.write(s),
            Job::Header(h) => h.write(s).map(|_| ()),
            Job::Prop(p, tagged, custom) => {
                let hints = HashMap::new();
                options(&hints, &mut vec![], custom, |o| p.write(s, *tagged, o)).map(|_| ())
            }
        }
    }
    fn name(&self) -> &'static str {
        match self {
            Job::File(_) => "file",
            Job::Header(_) => "header",
            Job::Prop(..) => "property",
        }
    }
}

pub fn c12(idx: u64, r: &mut Rng, ctx: &mut Ctx) -> CR {
    let b = bulk_case(r, idx, false);
    let large = b.is_some();
    let mut m = match b {
        Some(b) => b,
        None if r.chance(1, 40) => big_file(r, false),
        None => small_file(r, idx),
    };
    m.pal = match idx % 4 {
        0 => None,
        1 => Some(Pal::None),
        2 => Some(Pal::Zlib),
        _ => Some(Pal::Twice),
    };
    let made = make(m);
    let v = must("building a file", || made.value())?;
    let custom = to_custom(&made.m.header.custom);
    let prop = made.m.props.first().map(|(_, p)| to_prop(p));
    let mut jobs = vec![Job::File(&v)];
    if r.chance(1, 4) {
        jobs.push(Job::Header(&v.header));
    }
    if let Some(p) = &prop
        && r.chance(1, 2)
    {
        jobs.push(Job::Prop(p, r.bool(), &custom));
    }
    ctx.sample(|| made.describe());
    for job in jobs {
        // reference
        let mut s = Sink::new(Chunk::All, 0, r.clone());
        if let Err(e) = must("write", || job.run(&mut s))? {
            return viol("write failed", format!("{e:?}"));
        }
        let want = s.data;
        let most = match ctx.tier {
            _ if large => 8,
            Tier::Thorough => 300,
            Tier::Quick => 80,
        };
        // short and interrupted writes
        for k in 0..3 {
            let (chunk, ints) = match k {
                0 if want.len() > 2_000_000 => (Chunk::Random(5000), 0),
                0 => (Chunk::Fixed(1), 0),
                _ => chunkings(r),
            };
            if want.len() > 100_000 && k > 0 {
                continue;
            }
            let mut s = Sink::new(chunk, ints, r.clone());
            if r.chance(1, 4) {
                s.base = *r.pick(FAR);
            }
            r.u64();
            let got = must("write", || job.run(&mut s))?;
            ctx.eval(&want, want.len() > 8);
            match got {
                Ok(()) => {
                    if s.data != want {
                        return viol_in(
                            "incomplete write",
                            format!("{} write reported success, {chunk:?}: {}", job.name(), diff(&want, &s.data)),
                            &want,
                        );
                    }
                }
                Err(e) if ints == 0 => {
                    return viol_in("short writes fail", format!("{} write with {chunk:?}: {e:?}", job.name()), &want);
                }
                Err(_) => ctx.count("interrupted writes reported as errors"),
            }
            ctx.count(&format!("{} short-write runs", job.name()));
        }
        // failures at every call
        let chunk = *r.pick(&[Chunk::All, Chunk::All, Chunk::Fixed(7), Chunk::Random(30)]);
        let rr = r.clone();
        let mut s = Sink::new(chunk, 0, rr.clone());
        let _ = must("write", || job.run(&mut s))?;
        let calls = s.calls as usize;
        for at in positions(calls, most, r) {
            let mut s = Sink::new(chunk, 0, rr.clone());
            let kind = *r.pick(KINDS);
            let mode = r.below(4);
            match mode {
                0 => s.zero_from = Some(at as u64),
                1 => s.fail_bytes = Some((r.usize(want.len() + 1) as u64, kind)),
                _ => s.fail_call = Some((at as u64, kind)),
            }
            s.sticky = r.bool();
            let got = must("write", || job.run(&mut s))?;
            ctx.eval(&[&want[..at.min(want.len())], &[mode as u8]].concat(), true);
            if s.failures > 0 {
                ctx.count("injected failures");
                if got.is_ok() {
                    return viol_in(
                        "write error lost",
                        format!(
                            "the sink failed at call {at} of {calls} (mode {mode}, {kind:?}, {}) and the {} write reported success",
                            if s.sticky { "for good" } else { "once" },
                            job.name()
                        ),
                        &want,
                    );
                }
            } else {
                match got {
                    Ok(()) if s.data == want => {}
                    Ok(()) => return viol_in("incomplete write", diff(&want, &s.data), &want),
                    Err(e) => return viol_in("write failed", format!("no failure injected: {e:?}"), &want),
                }
            }
        }
        // failing seeks never go unnoticed either: a sink that cannot seek
        if let Job::File(f) = &job {
            struct NoSeek(Sink, u64);
            impl std::io::Write for NoSeek {
                fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                    self.0.write(b)
                }
                fn flush(&mut self) -> std::io::Result<()> {
                    self.0.flush()
                }
            }
            impl Seek for NoSeek {
                fn seek(&mut self, _: SeekFrom) -> std::io::Result<u64> {
                    self.1 += 1;
                    Err(std::io::Error::new(ErrorKind::Other, Marker))
                }
            }
            let mut s = NoSeek(Sink::new(Chunk::All, 0, r.clone()), 0);
            let got = must("write", || f.write(&mut s))?;
            if got.is_ok() && s.0.data != want {
                return viol_in("incomplete write", format!("sink without seek: {}", diff(&want, &s.0.data)), &want);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------
/// Every property inside (and including) `p`.
pub fn walk_p(p: &P, f: &mut dyn FnMut(&P)) {
    f(p);
    match p {
        P::Struct(_, _, sv) | P::SVal(sv) => walk_sv(sv, f),
        P::Array { elems, .. } | P::Set { elems, .. } => elems.iter().for_each(|e| walk_p(e, f)),
        P::Map { entries, .. } => entries.iter().for_each(|(k, v)| {
            walk_p(k, f);
            walk_p(v, f);
        }),
        _ => {}
    }
}
fn walk_sv(sv: &SV, f: &mut dyn FnMut(&P)) {
    if let SV::Custom(m) = sv {
        m.iter().for_each(|(_, v)| v.iter().for_each(|p| walk_p(p, f)));
    }
}
pub enum TextPart<'a> {
    Text(&'a Text),
    Hist(&'a Hist),
    Arg(&'a Arg),
    Opts(&'a NumOpts),
}
pub fn walk_text<'a>(t: &'a Text, f: &mut dyn FnMut(TextPart<'a>)) {
    f(TextPart::Text(t));
    f(TextPart::Hist(&t.hist));
    fn arg<'a>(a: &'a Arg, f: &mut dyn FnMut(TextPart<'a>)) {
        f(TextPart::Arg(a));
        if let Arg::Text(t) = a {
            walk_text(t, f);
        }
    }
    match &t.hist {
        Hist::Named(t, a) | Hist::Argument(t, a) => {
            walk_text(t, f);
            a.iter().for_each(|(_, a)| arg(a, f));
        }
        Hist::Ordered(t, a) => {
            walk_text(t, f);
            a.iter().for_each(|a| arg(a, f));
        }
        Hist::Number(a, o, _) | Hist::Percent(a, o, _) | Hist::Currency(_, a, o, _) => {
            arg(a, f);
            if let Some(o) = o {
                f(TextPart::Opts(o));
            }
        }
        Hist::Transform(t, _) => walk_text(t, f),
        _ => {}
    }
}

fn sized(
    ctx: &mut Ctx,
    r: &mut Rng,
    what: &str,
    f: &mut dyn FnMut(&mut Sink) -> Result<usize, Error>,
) -> CR {
    let chunk = *r.pick(&[Chunk::All, Chunk::All, Chunk::Fixed(1), Chunk::Random(6)]);
    let mut s = Sink::new(chunk, 0, r.clone());
    let got = must(&format!("{what} write"), || f(&mut s))?;
    match got {
        Ok(n) => {
            ctx.eval(&s.data, !s.data.is_empty());
            ctx.count(what);
            if n as u64 != s.accepted || s.data.len() as u64 != s.accepted {
                return viol_in(
                    &format!("size of {what}"),
                    format!("{what} reported {n} bytes, the sink got {} ({chunk:?})", s.accepted),
                    &s.data,
                );
            }
            Ok(())
        }
        Err(e) => viol_in(&format!("{what} write failed"), format!("{e:?}"), &s.data),
    }
}

pub fn c13(idx: u64, r: &mut Rng, ctx: &mut Ctx) -> CR {
    let made = make(case_file(r, idx, false));
    let custom = to_custom(&made.m.header.custom);
    let hints = HashMap::new();
    ctx.sample(|| made.describe());
    let h = to_header(&made.m.header);
    sized(ctx, r, "header", &mut |s| h.write(s))?;
    let mut ps: Vec<P> = vec![];
    for (_, p) in &made.m.props {
        walk_p(p, &mut |p| {
            if ps.len() < 60 {
                ps.push(p.clone())
            }
        });
    }
    for p in &ps {
        let lp = to_prop(p);
        let ty = type_name(p).to_string();
        let ty = if KNOWN_TYPES.contains(&ty.as_str()) { ty } else { "unknown type".into() };
        let headless = matches!(p, P::SVal(_));
        if !headless {
            sized(ctx, r, &format!("tagged {ty}"), &mut |s| {
                options(&hints, &mut vec![], &custom, |o| lp.write(s, true, o))
            })?;
        }
        sized(ctx, r, &format!("untagged {ty}"), &mut |s| {
            options(&hints, &mut vec![], &custom, |o| lp.write(s, false, o))
        })?;
        sized(ctx, r, &format!("body of {ty}"), &mut |s| {
            options(&hints, &mut vec![], &custom, |o| lp.write_body(s, o))
        })?;
        if let P::Text(t) = p {
            let mut parts: Vec<(u8, Vec<u8>)> = vec![];
            let _ = &mut parts;
            let mut res: CR = Ok(());
            let mut n = 0;
            walk_text(t, &mut |part| {
                if res.is_err() || n > 60 {
                    return;
                }
                n += 1;
                res = match part {
                    TextPart::Text(t) => {
                        let v = to_text(t);
                        sized(ctx, r, "text", &mut |s| options(&hints, &mut vec![], &custom, |o| v.write(s, o)))
                    }
                    TextPart::Hist(h) => {
                        let v = to_hist(h);
                        sized(ctx, r, "text history", &mut |s| options(&hints, &mut vec![], &custom, |o| v.write(s, o)))
                    }
                    TextPart::Arg(a) => {
                        let v = to_arg(a);
                        sized(ctx, r, "format argument", &mut |s| {
                            options(&hints, &mut vec![], &custom, |o| v.write(s, o))
                        })
                    }
                    TextPart::Opts(o) => {
                        let v = to_opts(o);
                        sized(ctx, r, "number options", &mut |s| v.write(s))
                    }
                };
            });
            res?;
        }
        if let P::Str(v) | P::Name(_, v) = p {
            sized(ctx, r, "nullable string", &mut |s| s.write_fstring(v.as_deref()))?;
            if let Some(v) = v {
                sized(ctx, r, "string", &mut |s| s.write_string(v))?;
            }
        }
        if let P::Enum(_, v) | P::Object(v) = p {
            sized(ctx, r, "string", &mut |s| s.write_string(v))?;
        }
    }
    Ok(())
}
