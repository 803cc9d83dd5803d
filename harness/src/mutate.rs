//! Damage to encoded saves.
use crate::enc::*;
use crate::gen_::dict;
use crate::model::KNOWN_TYPES;
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Damage {
    pub what: String,
    pub field: Option<usize>,
}

fn le(v: u64, n: usize) -> Vec<u8> {
    v.to_le_bytes()[..n].to_vec()
}

pub fn get(buf: &[u8], f: &Field) -> u64 {
    let mut b = [0u8; 8];
    let n = f.len.min(8);
    b[..n].copy_from_slice(&buf[f.off..f.off + n]);
    u64::from_le_bytes(b)
}

/// Replacement contents (same width) worth trying for a field.
pub fn replacements(buf: &[u8], f: &Field, r: &mut Rng) -> Vec<Vec<u8>> {
    let cur = get(buf, f);
    let d = dict();
    let n = f.len.min(8);
    let mut v: Vec<u64> = vec![];
    match f.kind {
        FK::Magic => {
            let mut out = vec![];
            for i in 0..4 {
                let mut b = buf[f.off..f.off + 4].to_vec();
                b[i] ^= 1 << r.below(8);
                out.push(b);
            }
            return out;
        }
        FK::SaveVersion => v.extend([0, 1, 2, 3, 4, 5, 0x10002, 0x02000000, u32::MAX as u64]),
        FK::PkgVersion => v.extend([0, 0x204, 0x205, 0x20D, 0x20E, 0x105, 0x305, 0x10205, u32::MAX as u64]),
        FK::Ue5Version => v.extend([0, 999, 1000, 1009, 1010, 1011, 2000, u32::MAX as u64]),
        FK::CustomFormat => v.extend([0, 1, 2, 3, 4, 0x103, u32::MAX as u64]),
        FK::StrLen { units, .. } => {
            let u = units as i64;
            for x in [
                0,
                1,
                -1,
                2,
                -2,
                u + 1,
                u - 1,
                -u,
                -(u + 1),
                -(u - 1),
                u * 2,
                -(u / 2),
                131071,
                131072,
                131073,
                -131071,
                -131072,
                -131073,
                i32::MAX as i64,
                i32::MIN as i64,
                i32::MIN as i64 + 1,
                65536,
            ] {
                v.push(x as i32 as u32 as u64);
            }
        }
        FK::BodyLen { len, .. } => {
            let l = len as u64;
            v.extend([
                0,
                1,
                2,
                3,
                4,
                5,
                7,
                8,
                l.wrapping_add(1),
                l.wrapping_sub(1),
                l.wrapping_add(4),
                l.wrapping_sub(4),
                l.wrapping_add(8),
                l.wrapping_sub(8),
                l * 2,
                l | 0x8000_0000,
                l ^ 0x100,
                l ^ 0x10000,
                u32::MAX as u64,
                i32::MAX as u64,
            ]);
        }
        FK::FixedSize { size } => v.extend([
            0,
            1,
            2,
            4,
            8,
            size + 1,
            size.wrapping_sub(1),
            size | 1 << 32,
            size | 1 << 63,
            size | 0x100,
            1 << 32,
            u64::MAX,
        ]),
        FK::ArrayIndex => v.extend([0, 1, 2, 0x100, 0x10000, 0x1000000, 0x80000000, u32::MAX as u64]),
        FK::NameIndex => v.extend([0, 1, 0x100, u32::MAX as u64]),
        FK::TagTerm => v.extend([0, 1, 2, 0x10, 0x7f, 0x80, 0xff]),
        FK::Bool8 => v.extend([0, 1, 2, 3, 0x10, 0x80, 0xfe, 0xff]),
        FK::B32 => v.extend([0, 1, 2, 0x100, 0x101, 0x10000, 0x1000000, 0x80000000, 0x80000001, u32::MAX as u64]),
        FK::Enum8 { lo, hi } => {
            for x in [lo as i64 - 1, lo as i64, hi as i64, hi as i64 + 1, hi as i64 + 2, hi as i64 + 3, -2, -128, 127, 100] {
                v.push(x as i8 as u8 as u64);
            }
            for x in lo..=hi {
                v.push(x as u8 as u64);
            }
        }
        FK::Count { n } => {
            let c = n as u64;
            v.extend([
                0,
                1,
                c + 1,
                c.wrapping_sub(1),
                c * 2,
                c | 0x100,
                c | 0x10000,
                c | 0x8000_0000,
                0xffff,
                0x10000,
                1 << 20,
                1 << 28,
                i32::MAX as u64,
                1 << 31,
                u32::MAX as u64,
            ]);
        }
        FK::CountI { n } => {
            let c = n as u64;
            v.extend([
                0,
                1,
                c + 1,
                c.wrapping_sub(1),
                0x10000,
                1 << 28,
                i32::MAX as u64,
                1 << 31,
                u32::MAX as u64,
                u32::MAX as u64 - 1,
            ]);
        }
        FK::StructsSize { size, .. } => v.extend([
            0,
            1,
            size + 1,
            size.wrapping_sub(1),
            size | 1 << 32,
            size | 1 << 63,
            u64::MAX,
            u32::MAX as u64,
        ]),
        FK::StrTerm { wide } => {
            if wide {
                v.extend([0, 1, 0x41, 0x100, 0x4100, 0xd800, 0xffff])
            } else {
                v.extend([0, 1, 0x41, 0x80, 0xff])
            }
        }
        FK::StrBody { wide } => {
            let mut out = vec![];
            let body = &buf[f.off..f.off + f.len];
            for _ in 0..3 {
                let mut b = body.to_vec();
                if wide {
                    let i = r.usize(b.len() / 2);
                    let u = *r.pick(&[0xd800u16, 0xdbff, 0xdc00, 0xdfff, 0, 0x41, 0xffff, 0xd83d]);
                    b[i * 2..i * 2 + 2].copy_from_slice(&u.to_le_bytes());
                } else {
                    let i = r.usize(b.len());
                    b[i] = *r.pick(&[0x80, 0xc0, 0xc3, 0xe2, 0xf0, 0xff, 0xfe, 0xed, 0, 0x41, 0x7f]);
                }
                out.push(b);
            }
            // a different name of the same length
            let names: Vec<&&str> = KNOWN_TYPES.iter().filter(|t| !wide && t.len() == f.len).collect();
            for t in names {
                out.push(t.as_bytes().to_vec());
            }
            if !wide && f.len == 4 {
                out.push(b"None".to_vec());
            }
            return out;
        }
        FK::Padding => {
            return vec![vec![1, 0, 0, 0], vec![0xff; 4]];
        }
        FK::Data | FK::Guid | FK::Raw => {
            let mut b = buf[f.off..f.off + f.len].to_vec();
            let i = r.usize(b.len());
            b[i] ^= 1 << r.below(8);
            return vec![b, vec![0xff; f.len], vec![0; f.len], r.bytes(f.len)];
        }
    }
    for k in 0..8 {
        if k / 8 < n {
            v.push(cur ^ (1 << r.below(8 * n as u64)));
        }
    }
    if !d.new_ints.is_empty() {
        let x = *r.pick(&d.new_ints);
        v.push(x);
        v.push(x.wrapping_add(1));
        v.push(x.wrapping_neg());
    }
    v.sort_unstable();
    v.dedup();
    v.into_iter().map(|x| le(x, n)).filter(|b| b[..] != buf[f.off..f.off + f.len]).collect()
}

/// Damages one field; None when the field has no replacement.
pub fn damage_field(buf: &[u8], fields: &[Field], i: usize, r: &mut Rng) -> Option<(Vec<u8>, Damage)> {
    let f = &fields[i];
    let reps = replacements(buf, f, r);
    if reps.is_empty() {
        return None;
    }
    let rep = r.pick(&reps).clone();
    let mut out = buf.to_vec();
    out[f.off..f.off + f.len].copy_from_slice(&rep);
    Some((out, Damage { what: format!("{:?}@{}={:02x?}", f.kind, f.off, &rep[..rep.len().min(16)]), field: Some(i) }))
}

/// Replaces a length-prefixed string by another one, in place (lengths of enclosing
/// bodies are not adjusted).
fn replace_string(buf: &[u8], fields: &[Field], r: &mut Rng) -> Option<(Vec<u8>, String)> {
    let cands: Vec<usize> = (0..fields.len()).filter(|i| matches!(fields[*i].kind, FK::StrLen { .. })).collect();
    if cands.is_empty() {
        return None;
    }
    let f = &fields[*r.pick(&cands)];
    let FK::StrLen { units, wide, .. } = f.kind else { return None };
    let old = 4 + units as usize * if wide { 2 } else { 1 };
    let s: String = match r.below(5) {
        0 | 1 => r.pick(KNOWN_TYPES).to_string(),
        2 => "None".into(),
        3 if !dict().strs.is_empty() => r.pick(&dict().strs).clone(),
        _ => r.pick(crate::model::BUILTIN_STRUCTS).to_string(),
    };
    let mut new = vec![];
    if s.is_ascii() && r.chance(5, 6) {
        new.extend((s.len() as i32 + 1).to_le_bytes());
        new.extend(s.as_bytes());
        new.push(0);
    } else {
        let u: Vec<u16> = s.encode_utf16().collect();
        new.extend((-(u.len() as i32 + 1)).to_le_bytes());
        u.iter().for_each(|x| new.extend(x.to_le_bytes()));
        new.extend([0, 0]);
    }
    let end = (f.off + old).min(buf.len());
    let mut out = buf[..f.off].to_vec();
    out.extend(new);
    out.extend_from_slice(&buf[end..]);
    Some((out, format!("string@{}={s:?}", f.off)))
}

/// One splice of a structural change. `at` is a place the change belongs to: the
/// declared lengths of the bodies around it (and of `own`) follow the change.
struct Splice {
    at: usize,
    off: usize,
    old: usize,
    new: Vec<u8>,
    own: Option<usize>,
}

fn string_bytes(s: &str, wide: bool, term: bool) -> Vec<u8> {
    let mut new = vec![];
    if wide {
        let u: Vec<u16> = s.encode_utf16().collect();
        new.extend((-(u.len() as i32 + term as i32)).to_le_bytes());
        u.iter().for_each(|x| new.extend(x.to_le_bytes()));
        if term {
            new.extend([0, 0]);
        }
    } else {
        new.extend((s.len() as i32 + term as i32).to_le_bytes());
        new.extend(s.as_bytes());
        if term {
            new.push(0);
        }
    }
    new
}

/// Changes the structure of a file and keeps the declared lengths of everything around
/// the change right.
pub fn restructure(e: &Enc, r: &mut Rng) -> Option<(Vec<u8>, String)> {
    let strings: Vec<usize> = (0..e.fields.len()).filter(|i| matches!(e.fields[*i].kind, FK::StrLen { .. })).collect();
    let bodies: Vec<usize> =
        (0..e.fields.len()).filter(|i| matches!(e.fields[*i].kind, FK::BodyLen { .. } | FK::StructsSize { .. })).collect();
    let total = |i: usize| match e.fields[i].kind {
        FK::StrLen { units, wide, .. } => 4 + units as usize * if wide { 2 } else { 1 },
        _ => 0,
    };
    let range = |i: usize| match e.fields[i].kind {
        FK::BodyLen { body, len, .. } => (body, body + len as usize),
        FK::StructsSize { body, size } => (body, body + size as usize),
        _ => (0, 0),
    };
    let mut list: Vec<Splice> = vec![];
    let mut desc = vec![];
    for _ in 0..*r.pick(&[1usize, 1, 1, 2, 3]) {
        let s = match r.below(10) {
            0..=5 if !strings.is_empty() => {
                let past: Vec<usize> = strings.iter().copied().filter(|i| e.fields[*i].off >= e.header_end).collect();
                let i = if past.is_empty() || r.chance(1, 10) { *r.pick(&strings) } else { *r.pick(&past) };
                let f = e.fields[i];
                let old = total(i);
                let word = match r.below(6) {
                    0 => "None".to_string(),
                    1 => r.pick(KNOWN_TYPES).to_string(),
                    2 => String::new(),
                    3 if !dict().strs.is_empty() => r.pick(&dict().strs).clone(),
                    4 => r.pick(crate::model::BUILTIN_STRUCTS).to_string(),
                    _ => "\u{e9}\u{4e2d}x".to_string(),
                };
                let wide = !word.is_ascii() || r.chance(1, 4);
                let (new, what) = match r.below(8) {
                    0..=3 => (vec![0; 4], "null".to_string()),
                    4 => (string_bytes(&word, wide, false), format!("open {word:?}")),
                    5 => (string_bytes(&word, false, true), format!("bytes of {word:?}")),
                    _ => (string_bytes(&word, wide, true), format!("{word:?}")),
                };
                desc.push(format!("string@{} {what}", f.off));
                Splice { at: f.off, off: f.off, old, new, own: None }
            }
            6 | 7 if !bodies.is_empty() => {
                let i = *r.pick(&bodies);
                let (a, b) = range(i);
                let n = *r.pick(&[1usize, 1, 2, 3, 4, 4, 8, 16]);
                if r.bool() {
                    desc.push(format!("body end@{b} +{n}"));
                    let new = if r.bool() { vec![0; n] } else { r.bytes(n) };
                    Splice { at: e.fields[i].off, off: b, old: 0, new, own: Some(i) }
                } else {
                    let n = n.min(b - a);
                    desc.push(format!("body end@{b} -{n}"));
                    Splice { at: e.fields[i].off, off: b - n, old: n, new: vec![], own: Some(i) }
                }
            }
            8 if !e.props.is_empty() => {
                let (a, b) = *r.pick(&e.props);
                let name = strings.iter().copied().find(|i| e.fields[*i].off + total(*i) == a);
                let start = name.map_or(a, |i| e.fields[i].off);
                if r.bool() {
                    desc.push(format!("property@{start} twice"));
                    Splice { at: start, off: start, old: 0, new: e.buf[start..b].to_vec(), own: None }
                } else {
                    desc.push(format!("property@{start} left out"));
                    Splice { at: start, off: start, old: b - start, new: vec![], own: None }
                }
            }
            9 if e.props.len() > 1 => {
                // a property in the place of another one
                let (a, b) = *r.pick(&e.props);
                let (c, d) = *r.pick(&e.props);
                desc.push(format!("property@{a} replaced by @{c}"));
                Splice { at: a, off: a, old: b - a, new: e.buf[c..d].to_vec(), own: None }
            }
            _ => continue,
        };
        if s.off + s.old > e.buf.len() || list.iter().any(|x| s.off < x.off + x.old.max(1) && x.off < s.off + s.old.max(1)) {
            desc.pop();
            continue;
        }
        list.push(s);
    }
    if list.is_empty() {
        return None;
    }
    let mut buf = e.buf.clone();
    for &i in &bodies {
        let f = e.fields[i];
        let (a, b) = range(i);
        let d: i64 = list
            .iter()
            .filter(|s| s.own == Some(i) || (a <= s.at && s.at < b))
            .map(|s| s.new.len() as i64 - s.old as i64)
            .sum();
        if d != 0 {
            let v = get(&buf, &f).wrapping_add(d as u64);
            buf[f.off..f.off + f.len].copy_from_slice(&le(v, f.len));
        }
    }
    list.sort_by_key(|s| std::cmp::Reverse(s.off));
    for s in list {
        buf.splice(s.off..s.off + s.old, s.new);
    }
    Some((buf, desc.join("; ")))
}

/// Blind damage.
pub fn blind(buf: &mut Vec<u8>, r: &mut Rng) -> String {
    if buf.is_empty() {
        buf.push(r.u64() as u8);
        return "push".into();
    }
    let i = r.usize(buf.len());
    match r.below(9) {
        0 => {
            buf[i] ^= 1 << r.below(8);
            format!("flip@{i}")
        }
        1 => {
            buf[i] = *r.pick(&[0, 1, 2, 0x7f, 0x80, 0xff]);
            format!("set@{i}")
        }
        2 => {
            let n = 1 + r.usize(8.min(buf.len() - i));
            buf.drain(i..i + n.min(buf.len() - i));
            format!("delete@{i}+{n}")
        }
        3 => {
            let n = 1 + r.usize(8);
            let b = if r.bool() { vec![0; n] } else { r.bytes(n) };
            buf.splice(i..i, b);
            format!("insert@{i}+{n}")
        }
        4 => {
            let n = 1 + r.usize(64.min(buf.len() - i));
            let chunk = buf[i..(i + n).min(buf.len())].to_vec();
            let j = r.usize(buf.len());
            buf.splice(j..j, chunk);
            format!("copy {i}+{n}->{j}")
        }
        5 => {
            buf.truncate(i);
            format!("truncate@{i}")
        }
        6 => {
            let n = (r.below(9)) as usize;
            let b = r.bytes(n);
            buf.extend(b);
            format!("append+{n}")
        }
        7 => {
            if i + 4 <= buf.len() {
                let v = *r.pick(&[0u32, 1, 2, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffe0000, 0x20000, 0x20001]);
                buf[i..i + 4].copy_from_slice(&v.to_le_bytes());
            }
            format!("u32@{i}")
        }
        _ => {
            let d = dict();
            if !d.ints.is_empty() && i + 4 <= buf.len() {
                let pool = if !d.new_ints.is_empty() && r.bool() { &d.new_ints } else { &d.ints };
                let v = *r.pick(pool) as u32;
                buf[i..i + 4].copy_from_slice(&v.to_le_bytes());
            }
            format!("dict@{i}")
        }
    }
}

/// A damaged copy of an encoded file.
pub fn mutate(e: &Enc, r: &mut Rng) -> (Vec<u8>, String) {
    if r.chance(1, 4)
        && let Some(x) = restructure(e, r)
    {
        return x;
    }
    let mut desc = vec![];
    let mut buf = e.buf.clone();
    let n = *r.pick(&[1usize, 1, 1, 1, 2, 3, 5]);
    // fields that matter structurally are preferred
    let structural: Vec<usize> = (0..e.fields.len())
        .filter(|i| !matches!(e.fields[*i].kind, FK::Data | FK::Guid | FK::Raw | FK::Padding))
        .collect();
    let past_header: Vec<usize> = structural.iter().copied().filter(|i| e.fields[*i].off >= e.header_end).collect();
    let mut fixed_layout = true;
    for _ in 0..n {
        if fixed_layout && r.chance(3, 4) {
            if r.chance(1, 6) {
                if let Some((b, d)) = replace_string(&buf, &e.fields, r) {
                    buf = b;
                    desc.push(d);
                    fixed_layout = false;
                }
                continue;
            }
            let pool = if !past_header.is_empty() && r.chance(4, 5) { &past_header } else { &structural };
            let i = if r.chance(1, 12) || pool.is_empty() { r.usize(e.fields.len()) } else { *r.pick(pool) };
            if let Some((b, d)) = damage_field(&buf, &e.fields, i, r) {
                buf = b;
                desc.push(d.what);
            }
        } else {
            desc.push(blind(&mut buf, r));
            fixed_layout = false;
        }
    }
    (buf, desc.join("; "))
}
