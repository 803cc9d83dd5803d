//! C01..C05: identity, layout, robustness, validity.
use crate::bulk::*;
use crate::conv::*;
use crate::ctx::*;
use crate::dec::*;
use crate::enc::*;
use crate::gen_::*;
use crate::model::*;
use crate::mutate::*;
use crate::rng::Rng;
use gvas::error::Error;
use gvas::properties::text_property::FText;
use gvas::properties::{Property, PropertyOptions, PropertyTrait};
use gvas::types::{Guid, map::HashableIndexMap};
use std::collections::HashMap;
use std::io::Cursor;
use std::sync::OnceLock;

static DIRECTED: OnceLock<Vec<(K, Pos)>> = OnceLock::new();
pub fn directed() -> &'static Vec<(K, Pos)> {
    DIRECTED.get_or_init(directed_list)
}
/// Number of directed cases at the start of each run.
pub fn directed_count() -> u64 {
    directed().len() as u64 * 2
}
static BULK: OnceLock<Vec<(Site, usize)>> = OnceLock::new();
pub fn bulk() -> &'static Vec<(Site, usize)> {
    BULK.get_or_init(bulk_list)
}
/// Directed cases of the checks that also take the bulk files.
pub fn full_count() -> u64 {
    directed_count() + bulk().len() as u64
}
/// Like `bulk_case`, with some strings one unit longer than allowed.
pub fn bulk_over(r: &mut Rng, idx: u64) -> Option<(File, bool)> {
    let i = idx.checked_sub(directed_count())?;
    bulk().get(i as usize).map(|&(site, n)| match site {
        Site::Str(..) if n == 65535 => (bulk_file(r, (site, STR_MAX + 1), false), true),
        _ => (bulk_file(r, (site, n), false), false),
    })
}
/// The bulk file of a case number, if it is one.
pub fn bulk_case(r: &mut Rng, idx: u64, finite: bool) -> Option<File> {
    let i = idx.checked_sub(directed_count())?;
    bulk().get(i as usize).map(|b| bulk_file(r, *b, finite))
}

pub fn case_file(r: &mut Rng, idx: u64, finite: bool) -> File {
    let d = directed();
    if idx < d.len() as u64 * 2 {
        return directed_file(r, d[idx as usize % d.len()], finite);
    }
    if let Some(f) = bulk_case(r, idx, finite) {
        return f;
    }
    match r.below(400) {
        0 => {
            let mut cfg = Cfg::random(r);
            cfg.finite = finite;
            cfg.max_str = 131071;
            cfg.budget = 300_000;
            cfg.p_long = 128;
            cfg.p_count = 200;
            cfg.max_depth = 2;
            random_file(r, cfg)
        }
        1..=6 => {
            let mut cfg = Cfg::random(r);
            cfg.finite = finite;
            cfg.max_str = 5000;
            cfg.budget = 20_000;
            cfg.p_count = 128;
            random_file(r, cfg)
        }
        7..=14 => {
            let most = if finite || r.bool() { 12 } else { 30 };
            let n = 1 + r.usize(most);
            let mut f = deep_file(r, n);
            f.pal = None;
            f
        }
        15..=18 => {
            let custom = custom_table(r);
            let ver = Ver::of(&custom);
            let most = if finite || r.bool() { 10 } else { 29 };
            let n = 1 + r.usize(most);
            let t = deep_text(r, ver, n);
            let cfg = Cfg { finite, ..Cfg::small(r) };
            let mut f = file_with(r, cfg, custom);
            f.props.retain(|(k, _)| k != "T");
            f.props.push(("T".into(), P::Text(t)));
            f
        }
        _ => {
            let mut cfg = Cfg::random(r);
            cfg.finite = finite;
            random_file(r, cfg)
        }
    }
}

pub fn small_file(r: &mut Rng, idx: u64) -> File {
    let d = directed();
    if idx < d.len() as u64 * 2 {
        return directed_file(r, d[idx as usize % d.len()], false);
    }
    let cfg = if r.chance(1, 3) {
        Cfg::small(r)
    } else {
        let mut c = Cfg::random(r);
        c.budget = 300;
        c
    };
    random_file(r, cfg)
}

pub fn options<T>(
    hints: &Hints,
    stack: &mut Vec<String>,
    custom: &HashableIndexMap<Guid, u32>,
    f: impl FnOnce(&mut PropertyOptions) -> T,
) -> T {
    let mut o = PropertyOptions { hints, properties_stack: stack, custom_versions: custom };
    f(&mut o)
}

/// Property after its type name, tagged.
pub fn read_prop(
    bytes: &[u8],
    at: u64,
    ty: &str,
    tagged: bool,
    hints: &Hints,
    stack: &mut Vec<String>,
    custom: &HashableIndexMap<Guid, u32>,
) -> (Result<Property, Error>, u64) {
    let mut c = Cursor::new(bytes);
    c.set_position(at);
    let r = options(hints, stack, custom, |o| Property::new(&mut c, ty, tagged, o, None));
    (r, c.position())
}

pub fn write_prop(
    p: &Property,
    tagged: bool,
    custom: &HashableIndexMap<Guid, u32>,
) -> Result<(usize, Vec<u8>), Error> {
    let mut out = Vec::new();
    let hints = HashMap::new();
    let mut stack = vec![];
    let n = options(&hints, &mut stack, custom, |o| p.write(&mut out, tagged, o))?;
    Ok((n, out))
}

fn show(e: &Error) -> String {
    let s = format!("{e:?}");
    s.chars().take(300).collect()
}

// ---------------------------------------------------------------------------------
pub fn c01(idx: u64, r: &mut Rng, ctx: &mut Ctx) -> CR {
    let made = make(case_file(r, idx, false));
    let v = must("building a file", || made.value())?;
    let bytes = match must("write", || write_file(&v))? {
        Ok(b) => b,
        Err(e) => return viol("write failed", format!("writing a well-formed file failed: {}", show(&e))),
    };
    ctx.eval(&bytes, made.nontrivial());
    ctx.sample(|| made.describe());
    let back = match must("read", || read_file(&bytes, made.m.pal.is_some(), &made.hints))? {
        Ok(b) => b,
        Err(e) => {
            return viol_in("read failed", format!("reading back a written file failed: {}", show(&e)), &bytes);
        }
    };
    let (a, b) = must("inspect", || (fp_file(&v), fp_file(&back)))?;
    if a != b {
        return viol_in("value differs", format!("value read back differs: {}", diff(&a, &b)), &bytes);
    }
    if must("compare", || v != back)? {
        return viol_in("not equal", "file read back does not compare equal", &bytes);
    }
    // single properties
    let custom = to_custom(&made.m.header.custom);
    for (name, p) in made.m.props.iter().take(2) {
        let lp = to_prop(p);
        let (_, b) = match must("property write", || write_prop(&lp, true, &custom))? {
            Ok(x) => x,
            Err(e) => return viol("property write failed", show(&e)),
        };
        let ty = type_name(p);
        let (e, _) = with_ver(Ver::of(&made.m.header.custom), |e| e.string(ty));
        let skip = e.buf.len();
        let mut stack = vec![name.clone()];
        if b.len() < skip {
            return viol_in("property bytes short", "property encoding is shorter than its type name", &b);
        }
        // the type name as written must be readable as that type name
        let (got, pos) =
            must("property read", || read_prop(&b, skip as u64, ty, true, &made.hints, &mut stack, &custom))?;
        ctx.eval(&b, true);
        match got {
            Ok(q) => {
                let (a, c) = must("inspect", || (fp_prop(&lp), fp_prop(&q)))?;
                if a != c {
                    return viol_in("property differs", format!("property read back differs: {}", diff(&a, &c)), &b);
                }
                if pos != b.len() as u64 {
                    return viol_in(
                        "property position",
                        format!("property read consumed {pos} of {} bytes", b.len()),
                        &b,
                    );
                }
            }
            Err(e) => return viol_in("property read failed", show(&e), &b),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------
static BUNDLED: OnceLock<Vec<(String, Vec<u8>)>> = OnceLock::new();
const HINTS: &str = include_str!("../hints.json");

pub fn bundled() -> &'static Vec<(String, Vec<u8>)> {
    BUNDLED.get_or_init(|| {
        let mut v = vec![];
        if cfg!(miri) {
            return v;
        }
        if let Ok(rd) = std::fs::read_dir("/repo/resources/test") {
            let mut paths: Vec<_> = rd.flatten().map(|e| e.path()).collect();
            paths.sort();
            for p in paths {
                let ext = p.extension().and_then(|e| e.to_str()).unwrap_or("");
                if !["sav", "bin"].contains(&ext) {
                    continue;
                }
                if let Ok(b) = std::fs::read(&p)
                    && b.len() < 300_000
                {
                    v.push((p.file_name().unwrap().to_string_lossy().to_string(), b));
                }
            }
        }
        v
    })
}

pub fn bundled_hints(name: &str) -> Hints {
    let v: serde_json::Value = serde_json::from_str(HINTS).expect("harness: hints.json");
    let mut h = Hints::new();
    if let Some(o) = v.get(name).and_then(|o| o.as_object()) {
        for (k, t) in o {
            h.insert(k.clone(), t.as_str().unwrap_or("").to_string());
        }
    }
    h
}

pub fn c02(idx: u64, r: &mut Rng, ctx: &mut Ctx) -> CR {
    let nb = bundled().len() as u64;
    if idx < nb {
        let (name, data) = &bundled()[idx as usize];
        let pal = name.starts_with("palworld");
        let hints = bundled_hints(name);
        ctx.count("bundled saves");
        let f = match must("read", || read_file(data, pal, &hints))? {
            Ok(f) => f,
            Err(_) => return Ok(()), // some bundled files are error fixtures
        };
        let out = match must("write", || write_file(&f))? {
            Ok(o) => o,
            Err(e) => return viol("bundled write failed", format!("{name}: {}", show(&e))),
        };
        ctx.eval(data, true);
        let (want, got) = if pal {
            let a = unpack(data);
            let b = unpack(&out);
            match (a, b) {
                (Ok(a), Ok(b)) => (a.3, b.3),
                (Err(_), _) => return Ok(()),
                (_, Err(e)) => return viol_in("bundled container", e, &out),
            }
        } else {
            (data.clone(), out)
        };
        // known non-canonical fixtures are compared only up to what they declare
        let v = crate::dec::Dec::new(&want, &hints).file();
        if v.is_ok() && want != got && is_canonical(&want, &hints) {
            return viol_in("bundled differs", format!("{name}: {}", diff(&want, &got)), &want);
        }
        return Ok(());
    }
    let made = make(case_file(r, idx - nb, false));
    let bytes = made.bytes(r);
    ctx.eval(&bytes, made.nontrivial());
    ctx.sample(|| made.describe());
    let f = match must("read", || read_file(&bytes, made.m.pal.is_some(), &made.hints))? {
        Ok(f) => f,
        Err(e) => return viol_in("read failed", format!("reading a valid save failed: {}", show(&e)), &bytes),
    };
    let out = match must("write", || write_file(&f))? {
        Ok(o) => o,
        Err(e) => return viol_in("write failed", format!("writing a file just read failed: {}", show(&e)), &bytes),
    };
    let got = if made.m.pal.is_some() {
        match unpack(&out) {
            Ok(x) => x.3,
            Err(e) => return viol_in("container", format!("written container is broken: {e}"), &bytes),
        }
    } else {
        out
    };
    if got != made.enc.buf {
        return viol_in("bytes differ", format!("rewritten bytes differ: {}", diff(&made.enc.buf, &got)), &bytes);
    }
    Ok(())
}

/// Re-encoding what the reference decoder sees gives the same bytes.
fn is_canonical(b: &[u8], hints: &Hints) -> bool {
    let mut d = Dec::new(b, hints);
    match d.file() {
        Ok(m) => encode_file(&m).buf == b,
        Err(_) => false,
    }
}

// ---------------------------------------------------------------------------------
pub fn c03(idx: u64, r: &mut Rng, ctx: &mut Ctx) -> CR {
    let made = make(case_file(r, idx, false)).plain();
    let want = &made.enc.buf;
    let v = must("building a file", || made.value())?;
    ctx.eval(want, made.nontrivial());
    ctx.sample(|| made.describe());
    // written bytes follow the layout
    match must("write", || write_file(&v))? {
        Ok(b) => {
            if b != *want {
                return viol_in(
                    "written layout",
                    format!("written bytes differ from the layout: {}", diff(want, &b)),
                    want,
                );
            }
        }
        Err(e) => return viol("write failed", show(&e)),
    }
    // laid-out bytes are read as the described value
    let alt = if r.chance(1, 3) { Some(encode_file_alt(&made.m, r.clone())) } else { None };
    for (b, tag) in [(Some(want), "canonical"), (alt.as_ref().map(|a| &a.buf), "alternative string encodings")] {
        let Some(b) = b else { continue };
        ctx.eval(b, made.nontrivial());
        match must("read", || read_file(b, false, &made.hints))? {
            Ok(f) => {
                let (x, y) = must("inspect", || (fp_file(&v), fp_file(&f)))?;
                if x != y {
                    return viol_in("read layout", format!("{tag}: value read differs: {}", diff(&x, &y)), b);
                }
            }
            Err(e) => {
                // lengths of bodies differ in the alternative encoding, the encoder accounts for that
                return viol_in("read failed", format!("{tag}: {}", show(&e)), b);
            }
        }
    }
    // bodies and parts on their own
    let custom = to_custom(&made.m.header.custom);
    let ver = Ver::of(&made.m.header.custom);
    for (name, p) in made.m.props.iter().take(3) {
        let lp = to_prop(p);
        let (e, _) = with_ver(ver, |e| {
            e.stack.push(name.clone());
            e.tagged(p)
        });
        let (b, _) = with_ver(ver, |e| {
            e.stack.push(name.clone());
            e.body(p)
        });
        for (tagged, want) in [(true, &e.buf), (false, &b.buf)] {
            ctx.eval(want, true);
            match must("property write", || write_prop(&lp, tagged, &custom))? {
                Ok((_, got)) => {
                    if got != *want {
                        return viol_in(
                            "property layout",
                            format!("property (tag {tagged}) differs from the layout: {}", diff(want, &got)),
                            want,
                        );
                    }
                }
                Err(e) => return viol("property write failed", show(&e)),
            }
        }
        if let P::Text(t) = p {
            let (e, _) = with_ver(ver, |e| e.text(t));
            let lt = to_text(t);
            let got = must("text write", || {
                let hints = HashMap::new();
                let mut stack = vec![];
                options(&hints, &mut stack, &custom, |o| {
                    let mut out = Vec::new();
                    lt.write(&mut out, o).map(|_| out)
                })
            })?;
            match got {
                Ok(g) if g == e.buf => {}
                Ok(g) => return viol_in("text layout", diff(&e.buf, &g), &e.buf),
                Err(x) => return viol("text write failed", show(&x)),
            }
            let back = must("text read", || {
                let hints = HashMap::new();
                let mut stack = vec![];
                options(&hints, &mut stack, &custom, |o| {
                    let mut c = Cursor::new(&e.buf);
                    FText::read(&mut c, o).map(|t| (t, c.position()))
                })
            })?;
            match back {
                Ok((t, pos)) => {
                    if fp_text(&t) != fp_text(&lt) || pos != e.buf.len() as u64 {
                        return viol_in("text read", "text read on its own differs", &e.buf);
                    }
                }
                Err(x) => return viol("text read failed", show(&x)),
            }
            ctx.eval(&e.buf, true);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------
fn bomb(r: &mut Rng) -> (Vec<u8>, Hints, String) {
    let custom = simple_table(r.bool(), r.bool(), r.bool());
    let ver = Ver::of(&custom);
    let (mut e, _) = with_ver(ver, |e| {
        let h = Header {
            version: 2,
            pkg: 0x20D,
            ue5: 0,
            major: 4,
            minor: 27,
            patch: 2,
            changelist: 0,
            branch: "b".into(),
            custom: custom.clone(),
            class: "c".into(),
        };
        e.header(&h);
    });
    let depth = *r.pick(&[20usize, 60, 100, 126, 127, 128, 129, 130, 200, 300, 1000, 5000, 20000, 50000]);
    let mut hints = Hints::new();
    let kind = r.below(9);
    let s = |e: &mut Enc, s: &str| e.string(s);
    let raw32 = |e: &mut Enc, v: u32| e.u32(v, FK::Data);
    s(&mut e, "A");
    let term = r.bool();
    match kind {
        0 | 1 => {
            // structs in structs
            for _ in 0..depth {
                s(&mut e, "StructProperty");
                raw32(&mut e, 100);
                raw32(&mut e, 0);
                s(&mut e, "S");
                e.guid(&[0; 16]);
                e.u8(0, FK::Data);
                s(&mut e, "A");
            }
        }
        2 => {
            for _ in 0..depth {
                s(&mut e, "ArrayProperty");
                raw32(&mut e, 100);
                raw32(&mut e, 0);
                s(&mut e, "StructProperty");
                e.u8(0, FK::Data);
                raw32(&mut e, 1);
                s(&mut e, "A");
                s(&mut e, "StructProperty");
                e.u64(100, FK::Data);
                s(&mut e, "S");
                e.guid(&[0; 16]);
                e.u8(0, FK::Data);
                s(&mut e, "A");
            }
        }
        3 | 4 => {
            // header-less structs; every level needs its own hint
            let mut path = String::from("A");
            let n = depth.min(400);
            for _ in 0..n {
                if kind == 3 {
                    path.push_str(".SetProperty.StructProperty");
                    hints.insert(path.clone(), "S".into());
                    s(&mut e, "SetProperty");
                    raw32(&mut e, 100);
                    raw32(&mut e, 0);
                    s(&mut e, "StructProperty");
                } else {
                    path.push_str(".MapProperty.Key.StructProperty");
                    hints.insert(path.clone(), "S".into());
                    s(&mut e, "MapProperty");
                    raw32(&mut e, 100);
                    raw32(&mut e, 0);
                    s(&mut e, "StructProperty");
                    s(&mut e, "IntProperty");
                }
                e.u8(0, FK::Data);
                raw32(&mut e, 0);
                raw32(&mut e, 1);
                s(&mut e, "A");
                path.push_str(".A");
            }
        }
        _ => {
            s(&mut e, "TextProperty");
            raw32(&mut e, 100);
            raw32(&mut e, 0);
            e.u8(0, FK::Data);
            for _ in 0..depth {
                match kind {
                    5 => {
                        raw32(&mut e, 0);
                        e.u8(10, FK::Data); // transform
                    }
                    6 => {
                        raw32(&mut e, 0);
                        e.u8(1, FK::Data); // named format
                    }
                    7 => {
                        // number with a text argument
                        raw32(&mut e, 0);
                        e.u8(4, FK::Data);
                        e.u8(4, FK::Data);
                    }
                    _ => {
                        // ordered format: empty text, one text argument
                        raw32(&mut e, 0);
                        e.u8(2, FK::Data);
                        raw32(&mut e, 0);
                        e.u8(0xff, FK::Data);
                        if ver.invariant {
                            raw32(&mut e, 0);
                        }
                        raw32(&mut e, 1);
                        e.u8(4, FK::Data);
                    }
                }
            }
        }
    }
    if term {
        s(&mut e, "IntProperty");
        e.u64(4, FK::Data);
        e.u8(0, FK::Data);
        raw32(&mut e, 1);
        for _ in 0..depth.min(3000) {
            s(&mut e, "None");
        }
    }
    (e.buf, hints, format!("nesting kind {kind} depth {depth}"))
}

/// Hint tables that send the reader down unusual roads.
pub fn hostile_hints(base: &Hints, r: &mut Rng) -> Hints {
    let mut h = Hints::new();
    let mut keys: Vec<&String> = base.keys().collect();
    keys.sort();
    for k in keys {
        if r.chance(5, 6) {
            let t = if r.chance(1, 3) { r.pick(BUILTIN_STRUCTS).to_string() } else { base[k].clone() };
            h.insert(k.clone(), t);
        }
    }
    for _ in 0..r.below(4) {
        let names = ["A", "B", "C", "Items", "Pos", ""];
        let n = *r.pick(&names);
        let p = *r.pick(&[
            "SetProperty.StructProperty",
            "MapProperty.Key.StructProperty",
            "MapProperty.Value.StructProperty",
            "ArrayProperty.StructProperty",
            "StructProperty",
        ]);
        let t = if r.bool() { r.pick(BUILTIN_STRUCTS).to_string() } else { "X".to_string() };
        h.insert(format!("{n}.{p}"), t);
    }
    h
}

pub struct Hostile {
    pub bytes: Vec<u8>,
    pub pal: bool,
    pub hints: Hints,
    pub desc: String,
}

/// Nested lists, each of which claims to be longer than it is.
fn open_lists(r: &mut Rng) -> Hostile {
    let nests: Vec<Site> = bulk().iter().filter(|b| matches!(b.0, Site::Nest(_)) && b.1 == 8).map(|b| b.0).collect();
    let site = *r.pick(&nests);
    let depth = 1 + r.usize(64);
    let made = make(bulk_file(r, (site, depth), false));
    let v = match r.below(4) {
        0 => i32::MAX as u32,
        1 => r.u32() >> 1,
        _ => 1 << r.below(31),
    };
    let mut bytes = made.enc.buf.clone();
    for f in &made.enc.fields {
        if f.off >= made.enc.header_end && matches!(f.kind, FK::Count { .. } | FK::CountI { .. }) && f.len == 4 && r.chance(15, 16) {
            bytes[f.off..f.off + 4].copy_from_slice(&v.to_le_bytes());
        }
    }
    Hostile { bytes, pal: false, hints: made.hints, desc: format!("{depth} nested lists ({site:?}) of {v} elements") }
}

/// An arbitrary, mostly damaged input.
pub fn hostile(r: &mut Rng, idx: u64, bombs: bool) -> Hostile {
    if let Some((m, over)) = bulk_over(r, idx) {
        let made = make(m);
        let desc = format!("bulk {:?}", bulk()[(idx - directed_count()) as usize]);
        let bytes = if over || r.bool() { made.enc.buf.clone() } else { mutate(&made.enc, r).0 };
        return Hostile { bytes, pal: false, hints: made.hints, desc };
    }
    if bombs && r.chance(1, 40) {
        let (bytes, hints, desc) = bomb(r);
        return Hostile { bytes, pal: false, hints, desc };
    }
    if bombs && r.chance(1, 60) {
        return open_lists(r);
    }
    if r.chance(1, 60) {
        let n = r.usize(300);
        let mut bytes = r.bytes(n);
        if r.bool() {
            bytes.splice(0..bytes.len().min(4), *b"GVAS");
        }
        let pal = r.bool();
        return Hostile { bytes, pal, hints: Hints::new(), desc: "noise".into() };
    }
    let mut m = small_file(r, idx);
    if r.chance(1, 16) {
        // long names, most of them not ASCII
        for (i, (n, _)) in m.props.iter_mut().enumerate() {
            let k = *r.pick(&[10usize, 60, 130, 260, 520, 1100]);
            let k = r.usize(k);
            *n = (0..k).map(|_| *r.pick(&['a', '.', 'é', 'ß', '日', '\u{ffff}', '😀'])).collect::<String>() + &i.to_string();
        }
        let made = make(m);
        let hints = if r.bool() { Hints::new() } else { hostile_hints(&made.hints, r) };
        let bytes = if r.bool() { made.enc.buf } else { mutate(&made.enc, r).0 };
        return Hostile { bytes, pal: false, hints, desc: "long names".into() };
    }
    let mut made = make(m);
    if r.chance(1, 10) {
        let a = encode_file_alt(&made.m, r.clone());
        made.hints = hint_table(&a);
        made.enc = a;
    }
    let (mut bytes, mut desc) = mutate(&made.enc, r);
    let hints = if r.chance(1, 4) { hostile_hints(&made.hints, r) } else { made.hints.clone() };
    let mut pal = false;
    if r.chance(1, 12) {
        pal = true;
        let t = random_pal(r);
        let payload = if r.bool() { made.enc.buf.clone() } else { bytes.clone() };
        bytes = container(&payload, t, r.below(10) as u32, r.below(10) as u32);
        desc = format!("container {t:?} of {desc}");
        match r.below(6) {
            0 => {
                let v = *r.pick(&[0u32, 1, 0x7fffffff, 0xffffffff, payload.len() as u32 + 1, (payload.len() as u32).wrapping_sub(1)]);
                bytes[0..4].copy_from_slice(&v.to_le_bytes());
                desc += "; declared length";
            }
            1 => {
                let i = r.usize(12);
                bytes[i] ^= 1 << r.below(8);
                desc += "; preamble";
            }
            2 | 3 => desc = format!("{desc}; {}", blind(&mut bytes, r)),
            _ => {}
        }
    }
    Hostile { bytes, pal, hints, desc }
}

/// Everything one may do with a result.
pub fn use_result(f: &gvas::GvasFile, budget: usize) -> usize {
    use std::hash::{DefaultHasher, Hash, Hasher};
    let mut n = 0;
    if budget < 200_000 {
        n += format!("{f:?}").len();
        n += format!("{f:#?}").len();
    }
    let c = f.clone();
    if c == *f {
        n += 1;
    }
    let mut h = DefaultHasher::new();
    for (k, p) in &f.properties {
        k.hash(&mut h);
        p.hash(&mut h);
    }
    n = n.wrapping_add(h.finish() as usize & 1);
    drop(c);
    let mut out = Cursor::new(Vec::new());
    if f.write(&mut out).is_ok() {
        n += out.get_ref().len();
    }
    n
}

pub fn c04(idx: u64, r: &mut Rng, ctx: &mut Ctx) -> CR {
    let h = hostile(r, idx, true);
    ctx.eval(&h.bytes, h.bytes.len() > 8);
    let pal = h.pal;
    let res = match lib(|| read_file(&h.bytes, pal, &h.hints)) {
        Ok(x) => x,
        Err(p) => {
            return viol_in("panic in read", format!("reading panicked: {p} (input: {})", h.desc), &h.bytes);
        }
    };
    match res {
        Ok(f) => {
            ctx.count("accepted");
            if let Err(p) = lib(|| use_result(&f, h.bytes.len())) {
                return viol_in(
                    "panic after read",
                    format!("using an accepted file panicked: {p} (input: {})", h.desc),
                    &h.bytes,
                );
            }
            if let Err(p) = lib(move || drop(f)) {
                return viol_in("panic in drop", p, &h.bytes);
            }
        }
        Err(e) => {
            ctx.count("rejected");
            if let Err(p) = lib(|| (format!("{e}"), format!("{e:?}"))) {
                return viol_in("panic printing an error", p, &h.bytes);
            }
        }
    }
    ctx.sample(|| h.desc.clone());
    // entry points below file level
    if !h.pal && r.chance(1, 4) {
        let custom = to_custom(&simple_table(r.bool(), r.bool(), r.bool()));
        let start = r.usize(h.bytes.len() + 1) as u64;
        let ty = *r.pick(KNOWN_TYPES);
        let tagged = r.bool();
        let sugg = *r.pick(&[None, Some(0), Some(1), Some(2), Some(3), Some(17), Some(u32::MAX)]);
        let out = lib(|| {
            let mut c = Cursor::new(&h.bytes);
            c.set_position(start);
            let mut stack = vec!["A".to_string()];
            options(&h.hints, &mut stack, &custom, |o| match Property::new(&mut c, ty, tagged, o, sugg) {
                Ok(p) => {
                    let mut v = Vec::new();
                    let _ = p.write(&mut v, true, o);
                    let _ = p.write(&mut v, false, o);
                    let _ = p.write_body(&mut v, o);
                    format!("{p:?}").len()
                }
                Err(e) => format!("{e}").len(),
            })
        });
        ctx.eval(&h.bytes, false);
        if let Err(p) = out {
            return viol_in("panic in property read", format!("{ty} at {start} tagged={tagged} sugg={sugg:?}: {p}"), &h.bytes);
        }
        let out = lib(|| {
            let mut c = Cursor::new(&h.bytes);
            c.set_position(start);
            gvas::GvasHeader::read(&mut c).is_ok()
        });
        if let Err(p) = out {
            return viol_in("panic in header read", p, &h.bytes);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------
/// Reference verdict on a plain file or container.
pub enum Want {
    Accept(Box<File>, Notes),
    Reject(DErr),
    Open,
}

pub fn verdict(bytes: &[u8], hints: &Hints) -> Want {
    let mut d = Dec::new(bytes, hints);
    match d.file() {
        Ok(f) => Want::Accept(Box::new(f), d.notes),
        Err(e) if e.v == V::Deep => Want::Open,
        Err(e) => Want::Reject(e),
    }
}

pub fn c05(idx: u64, r: &mut Rng, ctx: &mut Ctx) -> CR {
    let h = loop {
        let h = hostile(r, idx, false);
        if !h.pal {
            break h;
        }
    };
    let want = verdict(&h.bytes, &h.hints);
    let got = must("read", || read_file(&h.bytes, false, &h.hints))?;
    if matches!(want, Want::Open) {
        ctx.count("left open (deep nesting)");
        return Ok(());
    }
    ctx.eval(&h.bytes, true);
    ctx.sample(|| h.desc.clone());
    match (want, got) {
        (Want::Accept(m, _), Ok(f)) => {
            ctx.count("valid, accepted");
            let (a, b) = must("inspect", || (fp_file(&to_file(&m)), fp_file(&f)))?;
            if a != b {
                return viol_in(
                    "wrong value",
                    format!("accepted bytes were given another value: {} ({})", diff(&a, &b), h.desc),
                    &h.bytes,
                );
            }
        }
        (Want::Accept(..), Err(e)) => {
            return viol_in("valid rejected", format!("a valid save was rejected: {} ({})", show(&e), h.desc), &h.bytes);
        }
        (Want::Reject(e), Ok(_)) => {
            return viol_in(
                &format!("accepted invalid {}", format!("{:?}", e.v).split('(').next().unwrap_or("")),
                format!("a malformed save was accepted: {:?} near {} ({})", e.v, e.lo, h.desc),
                &h.bytes,
            );
        }
        (Want::Reject(e), Err(_)) => {
            ctx.count(&format!("rejected {}", format!("{:?}", e.v).split('(').next().unwrap_or("")));
        }
        (Want::Open, _) => {}
    }
    Ok(())
}
