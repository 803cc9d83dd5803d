//! Files with one long list, long string, large blob or full-depth nesting in every place that can hold one.
use crate::gen_::*;
use crate::model::*;
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Site {
    Arr(K),
    Set(K),
    Map(K, K),
    ArrUnknown,
    SetUnknown,
    Members,
    SameName,
    SameNames,
    Top,
    Tags,
    MInline,
    MSparse,
    Path,
    Named,
    Ordered,
    Argument,
    Versions,
    Raw,
    /// String place, ASCII or wide.
    Str(usize, bool),
    /// Nesting: 0 structs, 1 arrays, 2 sets, 3 map values, 4 map keys, 5.. texts.
    Nest(usize),
}

/// Places a string can be in.
pub const PLACES: usize = 55;
pub const NESTS: usize = 12;
/// Longest string with a valid length field.
pub const STR_MAX: usize = 131071;

fn simple(k: K) -> bool {
    !matches!(k, K::Array | K::Set | K::Map | K::Unknown)
}

pub fn bulk_list() -> Vec<(Site, usize)> {
    let mut v = vec![];
    let few = 300;
    let many = 66_000;
    for k in all_kinds() {
        if !simple(k) {
            continue;
        }
        for n in [129, few, many] {
            v.push((Site::Arr(k), n));
            v.push((Site::Set(k), n));
        }
    }
    for n in [few, many] {
        v.push((Site::ArrUnknown, n));
        v.push((Site::SetUnknown, n));
    }
    let keys = [K::I32, K::I64, K::U32, K::Str, K::Name, K::Enum, K::Object, K::Struct(SK::Guid), K::F64];
    let vals = [K::Bool, K::I32, K::Str, K::F32, K::Byte, K::Struct(SK::Custom), K::Struct(SK::V), K::Text(HK::Base)];
    for k in keys {
        for w in vals {
            v.push((Site::Map(k, w), few));
        }
    }
    for k in [K::Enum, K::Name, K::I32, K::Str] {
        for w in [K::Bool, K::I32, K::F32, K::Struct(SK::Custom)] {
            v.push((Site::Map(k, w), many));
        }
    }
    for s in [
        Site::Members,
        Site::SameName,
        Site::SameNames,
        Site::Top,
        Site::Tags,
        Site::MInline,
        Site::MSparse,
        Site::Path,
        Site::Named,
        Site::Ordered,
        Site::Argument,
        Site::Versions,
    ] {
        for n in [65, 129, few, 1100, many] {
            v.push((s, n));
        }
    }
    for n in [few, 4097, many, 1 << 20, 17 << 20, 17 << 20, 17 << 20] {
        v.push((Site::Raw, n));
    }
    for p in 0..PLACES {
        for wide in [false, true] {
            for n in [255, 256, 4096, 32768, 65535, 65536, STR_MAX] {
                if n >= 32768 || p % 3 == n % 3 {
                    v.push((Site::Str(p, wide), n));
                }
            }
        }
    }
    for s in 0..NESTS {
        for d in [8, 16, 24, 31, 32] {
            v.push((Site::Nest(s), d));
        }
    }
    v
}

/// Text of exactly `n` UTF-16 units.
fn text(r: &mut Rng, wide: bool, n: usize) -> String {
    let k = r.usize(26);
    let mut s: String = (0..n).map(|i| (b'a' + ((i + k) % 26) as u8) as char).collect();
    if wide && n > 0 {
        match r.below(3) {
            0 => {
                s.pop();
                s.push('é');
            }
            1 => {
                s.remove(0);
                s.insert(0, '日');
            }
            _ if n >= 2 => {
                // every character outside the basic plane
                s = std::iter::repeat_n('😀', n / 2).collect();
                if n % 2 == 1 {
                    s.push('ÿ');
                }
            }
            _ => s = "\u{ffff}".into(),
        }
    }
    s
}

fn key(k: K, i: usize) -> P {
    match k {
        K::I32 => P::I32((i as i32).wrapping_mul(0x10001)),
        K::I64 => P::I64(i as i64 - 100),
        K::U32 => P::U32(i as u32),
        K::Str => P::Str(Some(format!("k{i}"))),
        K::Name => P::Name(0, Some(format!("n{i}"))),
        K::Enum => P::Enum(None, format!("E::{i}")),
        K::Object => P::Object(format!("/o/{i}")),
        K::F64 => P::F64((i as f64 + 0.5).to_bits()),
        _ => {
            let mut g = [7u8; 16];
            g[3..11].copy_from_slice(&(i as u64).to_le_bytes());
            P::SVal(SV::Guid(g))
        }
    }
}

fn leaf(r: &mut Rng, i: usize) -> P {
    match (i + r.usize(2)) % 5 {
        0 => P::I32(i as i32),
        1 => P::Bool(i % 3 == 0),
        2 => P::Str(Some(format!("{i}"))),
        3 => P::I64(-(i as i64)),
        _ => P::U16(i as u16),
    }
}

fn txt(hist: Hist) -> P {
    P::Text(Text { flags: 1, hist })
}
fn base() -> Box<Text> {
    Box::new(Text { flags: 0, hist: Hist::Base(None, Some("b".into()), None) })
}
fn custom(m: Vec<(String, Vec<P>)>) -> P {
    P::Struct([9; 16], "Bulk".into(), SV::Custom(m))
}

/// Puts `s` at string place `p`: properties, header changes.
fn place(p: usize, s: String, header: &mut Header, inv: bool) -> (String, P) {
    let x = || "x".to_string();
    let o = Some(s.clone());
    let d = |object: &str, func: &str| Deleg { object: object.into(), func: func.into() };
    let arr = |ty: &str, e: P| P::Array { ty: ty.into(), info: None, elems: vec![e.clone(), e] };
    let set = |ty: &str, e: P| P::Set { ty: ty.into(), flags: 0, elems: vec![e] };
    let map = |kt: &str, vt: &str, k: P, v: P| P::Map { kt: kt.into(), vt: vt.into(), flags: 0, entries: vec![(k, v)] };
    let info = |field: String, ty: String| P::Array {
        ty: "StructProperty".into(),
        info: Some(SInfo { field, ty, guid: [3; 16] }),
        elems: vec![P::SVal(SV::Custom(vec![("a".into(), vec![P::I8(1)])]))],
    };
    let int = || Box::new(Arg::F32(0));
    let v = match p {
        0 => P::Str(o),
        1 => P::Name(0, o),
        2 => P::Name(5, o),
        3 => P::Object(s),
        4 => P::Enum(Some(s), x()),
        5 => P::Enum(Some(x()), s),
        6 => P::Byte(Some(s), ByteV::Byte(3)),
        7 => P::Byte(Some(x()), ByteV::Name(s)),
        8 => P::Delegate(d(&s, "f")),
        9 => P::Delegate(d("o", &s)),
        10 => P::MInline(vec![d("o", "f"), d(&s, "f")]),
        11 => P::MInline(vec![d("o", &s), d("o", "f")]),
        12 => P::MSparse(vec![d("o", "f"), d(&s, "f")]),
        13 => P::MSparse(vec![d("o", &s), d("o", "f")]),
        14 => P::FieldPath(vec![x(), s], x()),
        15 => P::FieldPath(vec![x()], s),
        16 => P::Unknown(format!("{s}_"), vec![1, 2, 3]),
        17 => P::Struct([0; 16], s, SV::Custom(vec![("a".into(), vec![P::I8(1)])])),
        18 => custom(vec![(s, vec![P::I8(1)])]),
        19 => custom(vec![("a".into(), vec![P::Str(o)])]),
        20 => return (s, P::I32(1)),
        21 => {
            header.branch = s;
            P::I32(1)
        }
        22 => {
            header.class = s;
            P::I32(1)
        }
        23 => info(s, "T".into()),
        24 => info("f".into(), s),
        25 => P::Struct([0; 16], "GameplayTagContainer".into(), SV::Tags(vec![x(), s])),
        26 => arr("StrProperty", P::Str(o)),
        27 => arr("NameProperty", P::Name(0, o)),
        28 => arr("EnumProperty", P::Enum(None, s)),
        29 => arr("ObjectProperty", P::Object(s)),
        30 => set("StrProperty", P::Str(o)),
        31 => set("NameProperty", P::Name(0, o)),
        32 => set("EnumProperty", P::Enum(None, s)),
        33 => map("StrProperty", "IntProperty", P::Str(o), P::I32(1)),
        34 => map("NameProperty", "BoolProperty", P::Name(0, o), P::Bool(true)),
        35 => map("NameProperty", "IntProperty", P::Name(0, o), P::I32(1)),
        36 => map("NameProperty", "StrProperty", P::Name(0, o.clone()), P::Str(o)),
        37 => map("EnumProperty", "BoolProperty", P::Enum(None, s), P::Bool(true)),
        38 => map("EnumProperty", "IntProperty", P::Enum(None, s), P::I32(1)),
        39 => map("EnumProperty", "StrProperty", P::Enum(None, s), P::Str(o)),
        40 => map("IntProperty", "NameProperty", P::I32(1), P::Name(0, o)),
        41 => txt(Hist::Base(o, None, None)),
        42 => txt(Hist::Base(None, o, None)),
        43 => txt(Hist::Base(None, None, o)),
        44 => txt(Hist::Table(s, x())),
        45 => txt(Hist::Table(x(), s)),
        46 => txt(Hist::Named(base(), vec![(s, Arg::F64(0))])),
        47 => txt(Hist::Argument(base(), vec![(s, Arg::F64(0))])),
        48 => txt(Hist::Number(int(), None, o)),
        49 => txt(Hist::Percent(int(), None, o)),
        50 => txt(Hist::Currency(o, int(), None, None)),
        51 => txt(Hist::Date(1, 0, s)),
        52 => txt(Hist::Time(1, 0, x(), s)),
        53 => txt(Hist::DateTime(1, 0, 0, s, x())),
        _ => {
            if inv {
                txt(Hist::None(o))
            } else {
                txt(Hist::Transform(Box::new(Text { flags: 0, hist: Hist::Base(None, None, o) }), 0))
            }
        }
    };
    ("P".into(), v)
}

/// A chain of `depth` nested containers or texts.
/// Any property that needs no hint and opens no deeper level.
fn small(g: &mut Gen) -> P {
    loop {
        let k = *g.r.pick(&all_kinds());
        if !matches!(k, K::Array | K::Set | K::Map | K::Text(_) | K::Struct(SK::Custom)) {
            return g.tagged_of(k);
        }
    }
}

fn nest(g: &mut Gen, style: usize, depth: usize) -> P {
    if style >= 6 {
        let mut t = Text { flags: 2, hist: Hist::Base(None, Some("b".into()), Some("c".into())) };
        // the property's own text is the first level
        for _ in 1..depth {
            let b = Box::new(t);
            let e = || Box::new(Text { flags: 0, hist: Hist::Empty });
            let arg = |b| Box::new(Arg::Text(b));
            let hist = match style {
                6 => Hist::Named(b, vec![]),
                7 => Hist::Ordered(e(), vec![Arg::F32(1), Arg::Text(b)]),
                8 => Hist::Argument(e(), vec![("k".into(), Arg::Text(b))]),
                9 => Hist::Currency(Some("EUR".into()), arg(b), None, None),
                10 => Hist::Transform(b, 1),
                _ => match g.r.below(4) {
                    0 => Hist::Number(arg(b), None, None),
                    1 => Hist::Percent(arg(b), None, Some("de".into())),
                    2 => Hist::Named(e(), vec![("a".into(), Arg::Text(b))]),
                    _ => Hist::Ordered(b, vec![]),
                },
            };
            t = Text { flags: 0, hist };
        }
        return P::Text(t);
    }
    let mut p = P::I32(depth as i32);
    let mut others = 2 + g.r.usize(8);
    for i in (0..depth).rev() {
        let mut members = vec![(format!("n{i}"), vec![p])];
        // properties of other kinds at the deepest levels and at some above them
        while others > 0 && (i + 2 >= depth || g.r.chance(1, 16)) {
            others -= 1;
            members.push((format!("m{others}"), vec![small(g)]));
            if g.r.bool() {
                break;
            }
        }
        let inner = SV::Custom(members);
        let s = if style == 5 { g.r.usize(5) } else { style };
        p = match s {
            0 => P::Struct([i as u8; 16], "S".into(), inner),
            1 => P::Array {
                ty: "StructProperty".into(),
                info: Some(SInfo { field: "F".into(), ty: "S".into(), guid: [0; 16] }),
                elems: vec![P::SVal(inner)],
            },
            2 => P::Set { ty: "StructProperty".into(), flags: 0, elems: vec![P::SVal(inner)] },
            3 => P::Map {
                kt: "IntProperty".into(),
                vt: "StructProperty".into(),
                flags: 0,
                entries: vec![(P::I32(7), P::SVal(inner))],
            },
            _ => P::Map {
                kt: "StructProperty".into(),
                vt: "BoolProperty".into(),
                flags: 0,
                entries: vec![(P::SVal(inner), P::Bool(true))],
            },
        };
    }
    p
}

pub fn bulk_file(r: &mut Rng, (site, n): (Site, usize), finite: bool) -> File {
    let mut table = match r.below(4) {
        0 => simple_table(true, true, true),
        1 => simple_table(false, true, false),
        2 => simple_table(false, false, true),
        _ => simple_table(false, false, false),
    };
    if site == Site::Versions {
        for i in 0..n {
            let mut g = [0x5Au8; 16];
            g[5..13].copy_from_slice(&(i as u64).to_le_bytes());
            table.push((g, i as u32 ^ 0x1234));
        }
        if r.bool() {
            table.reverse();
        }
    }
    let ver = Ver::of(&table);
    let mut cfg = Cfg::small(r);
    cfg.finite = finite;
    cfg.budget = 0;
    cfg.max_depth = 0;
    let mut g = Gen::new(r, ver, cfg);
    let mut header = g.header(table);
    let mut props: Vec<(String, P)> = vec![];
    g.stack.push("P".into());
    let many = |g: &mut Gen, k: K| -> Vec<P> {
        // few distinct elements, repeated, when there are many
        let m = n.min(500);
        let mut v: Vec<P> = (0..m).map(|_| g.untagged(k)).collect();
        while v.len() < n {
            let i = v.len() * 7 % m;
            v.push(v[i].clone());
        }
        v
    };
    let p = match site {
        Site::Arr(K::Struct(s)) => {
            g.stack.push("ArrayProperty".into());
            let m = n.min(500);
            let mut p = g.array_n(K::Struct(s), m);
            if let P::Array { elems, .. } = &mut p {
                while elems.len() < n {
                    let i = elems.len() * 7 % m;
                    elems.push(elems[i].clone());
                }
            }
            p
        }
        Site::Arr(k) => {
            g.stack.push("ArrayProperty".into());
            P::Array { ty: kind_type(k).unwrap().into(), info: None, elems: many(&mut g, k) }
        }
        Site::Set(k) => {
            g.stack.push("SetProperty".into());
            P::Set { ty: kind_type(k).unwrap().into(), flags: 0, elems: many(&mut g, k) }
        }
        Site::ArrUnknown | Site::SetUnknown => {
            let ty = "OddProperty".to_string();
            let elems = (0..n).map(|i| P::Unknown(ty.clone(), vec![i as u8, (i >> 8) as u8, 3])).collect();
            if site == Site::ArrUnknown {
                P::Array { ty, info: None, elems }
            } else {
                P::Set { ty, flags: 0, elems }
            }
        }
        Site::Map(k, w) => {
            g.stack.push("MapProperty".into());
            g.stack.push("Value".into());
            let entries = (0..n).map(|i| (key(k, i), g.untagged(w))).collect();
            P::Map { kt: kind_type(k).unwrap().into(), vt: kind_type(w).unwrap().into(), flags: 0, entries }
        }
        Site::Members => custom((0..n).map(|i| (format!("m{i}"), vec![leaf(g.r, i)])).collect()),
        Site::SameName => custom(vec![
            ("a".into(), vec![P::I8(1)]),
            ("m".into(), (0..n).map(|i| leaf(g.r, i)).collect()),
            ("z".into(), vec![P::I8(2)]),
        ]),
        Site::SameNames => custom(
            (0..n / 3).map(|i| (format!("m{i}"), (0..3 + i % 2).map(|j| leaf(g.r, i + j)).collect())).collect(),
        ),
        Site::Top => {
            props.extend((0..n).map(|i| (format!("t{i}"), leaf(g.r, i))));
            P::Bool(true)
        }
        Site::Tags => P::Struct(
            [0; 16],
            "GameplayTagContainer".into(),
            SV::Tags((0..n).map(|i| format!("tag.{}", i % 1000)).collect()),
        ),
        Site::MInline | Site::MSparse => {
            let v = (0..n).map(|i| Deleg { object: format!("o{i}"), func: format!("f{}", i % 10) }).collect();
            if site == Site::MInline { P::MInline(v) } else { P::MSparse(v) }
        }
        Site::Path => P::FieldPath((0..n).map(|i| format!("p{i}")).collect(), "owner".into()),
        Site::Named | Site::Argument => {
            let a = (0..n).map(|i| (format!("k{i}"), if i % 2 == 0 { Arg::F32(0x3f80_0000) } else { Arg::F64(i as u64) })).collect();
            txt(if site == Site::Named { Hist::Named(base(), a) } else { Hist::Argument(base(), a) })
        }
        Site::Ordered => txt(Hist::Ordered(
            base(),
            (0..n).map(|i| if i % 5 == 0 { Arg::Text(base()) } else { Arg::F64(i as u64) }).collect(),
        )),
        Site::Versions => P::I32(1),
        Site::Raw => {
            let n = if finite { n.min(1 << 20) } else { n };
            let raw = match g.r.below(3) {
                _ if n > 1 << 20 => {
                    let unit = g.r.bytes(997);
                    unit.iter().cycle().take(n).copied().collect()
                }
                0 => vec![0; n],
                1 => g.r.bytes(n),
                _ => (0..n).map(|i| (i / 3) as u8).collect(),
            };
            P::Unknown("BlobProperty".into(), raw)
        }
        Site::Str(p, wide) => {
            let n = if p == 16 { n - 1 } else { n };
            let s = text(g.r, wide, n);
            let (name, v) = place(p, s, &mut header, ver.invariant);
            props.push((name, v));
            P::I32(3)
        }
        // JSON parsers limit the depth themselves
        Site::Nest(s) => nest(&mut g, s, if finite { n.min(10) } else { n }),
    };
    let last = if matches!(site, Site::Str(..)) { "after" } else { "P" };
    props.push((last.into(), p));
    if g.r.bool() {
        props.push(("end".into(), P::I32(42)));
    }
    File { pal: None, header, props }
}
