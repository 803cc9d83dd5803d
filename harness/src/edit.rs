//! Single edits of models: every stored field is a slot.
use crate::dec::canon;
use crate::model::*;
use crate::rng::Rng;

pub enum Slot<'a> {
    S(&'a mut String),
    O(&'a mut Option<String>),
    Bool(&'a mut bool),
    /// Small enumeration below a limit.
    E(&'a mut u8, u8),
    U8(&'a mut u8),
    I8(&'a mut i8),
    I16(&'a mut i16),
    U16(&'a mut u16),
    I32(&'a mut i32),
    U32(&'a mut u32),
    I64(&'a mut i64),
    U64(&'a mut u64),
    F32(&'a mut u32),
    F64(&'a mut u64),
    G(&'a mut [u8; 16]),
    Raw(&'a mut Vec<u8>),
    Strings(&'a mut Vec<String>),
    Delegs(&'a mut Vec<Deleg>),
    Elems(&'a mut Vec<P>),
    /// Tagged property whose kind may change.
    Kind(&'a mut P),
    Members(&'a mut Vec<(String, Vec<P>)>),
    Entries(&'a mut Vec<(P, P)>),
    Named(&'a mut Vec<(String, Arg)>),
    Args(&'a mut Vec<Arg>),
    Arg(&'a mut Arg),
    Opts(&'a mut Option<NumOpts>),
}

type F<'f> = &'f mut dyn FnMut(Slot);

pub fn slots_p(p: &mut P, f: F) {
    if !matches!(p, P::SVal(_)) {
        f(Slot::Kind(p));
    }
    match p {
        P::I8(v) => f(Slot::I8(v)),
        P::Byte(n, v) => {
            f(Slot::O(n));
            match v {
                ByteV::Byte(b) => f(Slot::U8(b)),
                ByteV::Name(s) => f(Slot::S(s)),
            }
        }
        P::I16(v) => f(Slot::I16(v)),
        P::U16(v) => f(Slot::U16(v)),
        P::I32(v) => f(Slot::I32(v)),
        P::U32(v) => f(Slot::U32(v)),
        P::I64(v) => f(Slot::I64(v)),
        P::U64(v) => f(Slot::U64(v)),
        P::F32(v) => f(Slot::F32(v)),
        P::F64(v) => f(Slot::F64(v)),
        P::Bool(v) => f(Slot::Bool(v)),
        P::Enum(t, v) => {
            f(Slot::O(t));
            f(Slot::S(v));
        }
        P::Str(v) => f(Slot::O(v)),
        P::Name(i, v) => {
            f(Slot::U32(i));
            f(Slot::O(v));
        }
        P::Object(v) => f(Slot::S(v)),
        P::Text(t) => slots_text(t, f),
        P::Delegate(d) => slots_deleg(d, f),
        P::MInline(v) | P::MSparse(v) => {
            f(Slot::Delegs(v));
            v.iter_mut().for_each(|d| slots_deleg(d, f));
        }
        P::FieldPath(v, o) => {
            f(Slot::Strings(v));
            v.iter_mut().for_each(|s| f(Slot::S(s)));
            f(Slot::S(o));
        }
        P::Struct(g, t, sv) => {
            f(Slot::G(g));
            f(Slot::S(t));
            slots_sv(sv, f);
        }
        P::SVal(sv) => slots_sv(sv, f),
        P::Array { ty, info, elems } => {
            match info {
                Some(i) => {
                    f(Slot::S(&mut i.field));
                    f(Slot::S(&mut i.ty));
                    f(Slot::G(&mut i.guid));
                }
                None => f(Slot::S(ty)),
            }
            f(Slot::Elems(elems));
            elems.iter_mut().for_each(|e| slots_p(e, f));
        }
        P::Set { ty, flags, elems } => {
            f(Slot::S(ty));
            f(Slot::U32(flags));
            f(Slot::Elems(elems));
            elems.iter_mut().for_each(|e| slots_p(e, f));
        }
        P::Map { kt, vt, flags, entries } => {
            f(Slot::S(kt));
            f(Slot::S(vt));
            f(Slot::U32(flags));
            f(Slot::Entries(entries));
            entries.iter_mut().for_each(|(k, v)| {
                slots_p(k, f);
                slots_p(v, f);
            });
        }
        P::Unknown(t, raw) => {
            f(Slot::S(t));
            f(Slot::Raw(raw));
        }
    }
}

fn slots_deleg(d: &mut Deleg, f: F) {
    f(Slot::S(&mut d.object));
    f(Slot::S(&mut d.func));
}

fn slots_sv(sv: &mut SV, f: F) {
    match sv {
        SV::V2F(v) => v.iter_mut().for_each(|x| f(Slot::F32(x))),
        SV::V2D(v) => v.iter_mut().for_each(|x| f(Slot::F64(x))),
        SV::VF(v) | SV::RF(v) => v.iter_mut().for_each(|x| f(Slot::F32(x))),
        SV::VD(v) | SV::RD(v) => v.iter_mut().for_each(|x| f(Slot::F64(x))),
        SV::QF(v) | SV::Color(v) => v.iter_mut().for_each(|x| f(Slot::F32(x))),
        SV::QD(v) => v.iter_mut().for_each(|x| f(Slot::F64(x))),
        SV::DateTime(t) | SV::Timespan(t) => f(Slot::U64(t)),
        SV::Guid(g) => f(Slot::G(g)),
        SV::IntPoint(v) => v.iter_mut().for_each(|x| f(Slot::I32(x))),
        SV::Tags(v) => {
            f(Slot::Strings(v));
            v.iter_mut().for_each(|s| f(Slot::S(s)));
        }
        SV::Custom(m) => {
            f(Slot::Members(m));
            m.iter_mut().for_each(|(k, v)| {
                f(Slot::S(k));
                f(Slot::Elems(v));
                v.iter_mut().for_each(|p| slots_p(p, f));
            });
        }
    }
}

fn slots_arg(a: &mut Arg, f: F) {
    f(Slot::Arg(a));
    match a {
        Arg::Int(v) => f(Slot::I32(v)),
        Arg::UInt(v) => f(Slot::U32(v)),
        Arg::F32(v) => f(Slot::F32(v)),
        Arg::F64(v) => f(Slot::F64(v)),
        Arg::Text(t) => slots_text(t, f),
        Arg::Int64(v) => f(Slot::I64(v)),
        Arg::UInt64(v) => f(Slot::U64(v)),
    }
}

fn slots_opts(o: &mut Option<NumOpts>, f: F) {
    f(Slot::Opts(o));
    if let Some(o) = o {
        f(Slot::Bool(&mut o.sign));
        f(Slot::Bool(&mut o.group));
        f(Slot::E(&mut o.rounding, 7));
        o.digits.iter_mut().for_each(|d| f(Slot::I32(d)));
    }
}

pub fn slots_text(t: &mut Text, f: F) {
    f(Slot::U32(&mut t.flags));
    match &mut t.hist {
        Hist::Empty => {}
        Hist::None(s) => f(Slot::O(s)),
        Hist::Base(a, b, c) => {
            f(Slot::O(a));
            f(Slot::O(b));
            f(Slot::O(c));
        }
        Hist::Named(t, a) | Hist::Argument(t, a) => {
            slots_text(t, f);
            f(Slot::Named(a));
            a.iter_mut().for_each(|(k, a)| {
                f(Slot::S(k));
                slots_arg(a, f);
            });
        }
        Hist::Ordered(t, a) => {
            slots_text(t, f);
            f(Slot::Args(a));
            a.iter_mut().for_each(|a| slots_arg(a, f));
        }
        Hist::Number(a, o, c) | Hist::Percent(a, o, c) => {
            slots_arg(a, f);
            slots_opts(o, f);
            f(Slot::O(c));
        }
        Hist::Currency(code, a, o, c) => {
            f(Slot::O(code));
            slots_arg(a, f);
            slots_opts(o, f);
            f(Slot::O(c));
        }
        Hist::Date(t, s, c) => {
            f(Slot::U64(t));
            f(Slot::E(s, 5));
            f(Slot::S(c));
        }
        Hist::Time(t, s, z, c) => {
            f(Slot::U64(t));
            f(Slot::E(s, 5));
            f(Slot::S(z));
            f(Slot::S(c));
        }
        Hist::DateTime(t, d, s, z, c) => {
            f(Slot::U64(t));
            f(Slot::E(d, 5));
            f(Slot::E(s, 5));
            f(Slot::S(z));
            f(Slot::S(c));
        }
        Hist::Transform(t, k) => {
            slots_text(t, f);
            f(Slot::E(k, 2));
        }
        Hist::Table(a, b) => {
            f(Slot::S(a));
            f(Slot::S(b));
        }
    }
}

fn edit_string(s: &mut String, r: &mut Rng) {
    match r.below(7) {
        0 => s.push('x'),
        1 => {
            if s.pop().is_none() {
                s.push('y')
            }
        }
        2 => {
            let t: String = s.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
            *s = t;
        }
        3 => s.insert(0, ' '),
        4 => s.push(' '),
        5 => s.push('\u{e9}'),
        _ => {
            let mut v: Vec<char> = s.chars().collect();
            if v.is_empty() {
                v.push('q');
            } else {
                let i = r.usize(v.len());
                v[i] = if v[i] == 'z' { 'Z' } else { 'z' };
            }
            *s = v.into_iter().collect();
        }
    }
}

fn edit_list<T: Clone>(v: &mut Vec<T>, r: &mut Rng) {
    if v.is_empty() {
        return;
    }
    match r.below(4) {
        0 => {
            v.pop();
        }
        1 => {
            let i = r.usize(v.len());
            v.remove(i);
        }
        2 => {
            let i = r.usize(v.len());
            let x = v[i].clone();
            v.push(x);
        }
        _ => {
            let (i, j) = (r.usize(v.len()), r.usize(v.len()));
            v.swap(i, j);
        }
    }
}

fn edit_kind(p: &mut P) {
    let q = match &*p {
        P::I8(v) => P::Byte(None, ByteV::Byte(*v as u8)),
        P::Byte(None, ByteV::Byte(v)) => P::I8(*v as i8),
        P::Byte(Some(t), ByteV::Name(s)) => P::Enum(Some(t.clone()), s.clone()),
        P::Byte(t, ByteV::Byte(b)) => P::Byte(t.clone(), ByteV::Name(b.to_string())),
        P::I16(v) => P::U16(*v as u16),
        P::U16(v) => P::I16(*v as i16),
        P::I32(v) => P::U32(*v as u32),
        P::U32(v) => P::F32(*v),
        P::F32(v) => P::I32(*v as i32),
        P::I64(v) => P::U64(*v as u64),
        P::U64(v) => P::F64(*v),
        P::F64(v) => P::I64(*v as i64),
        P::Enum(None, v) => P::Str(Some(v.clone())),
        P::Str(v) => P::Name(0, v.clone()),
        P::Name(_, Some(v)) => P::Object(v.clone()),
        P::Object(v) => P::Enum(None, v.clone()),
        P::Delegate(d) => P::MInline(vec![d.clone()]),
        P::MInline(d) => P::MSparse(d.clone()),
        P::MSparse(d) => P::MInline(d.clone()),
        P::Set { ty, elems, flags: _ } => P::Array { ty: ty.clone(), info: None, elems: elems.clone() },
        _ => return,
    };
    *p = q;
}

fn edit_slot(s: Slot, r: &mut Rng) {
    macro_rules! int {
        ($v:expr, $t:ty) => {
            *$v = match r.below(5) {
                0 => $v.wrapping_add(1),
                1 => *$v ^ (1 << r.below(<$t>::BITS as u64)),
                2 => 0,
                3 => $v.swap_bytes(),
                _ => r.u64() as $t,
            }
        };
    }
    match s {
        Slot::S(s) => edit_string(s, r),
        Slot::O(o) => match o {
            None => *o = Some(if r.bool() { String::new() } else { "v".into() }),
            Some(_) if r.chance(1, 3) => *o = None,
            Some(s) => edit_string(s, r),
        },
        Slot::Bool(b) => *b = !*b,
        Slot::E(v, n) => *v = (*v + 1 + r.below(n as u64 - 1) as u8) % n,
        Slot::U8(v) => int!(v, u8),
        Slot::I8(v) => int!(v, i8),
        Slot::I16(v) => int!(v, i16),
        Slot::U16(v) => int!(v, u16),
        Slot::I32(v) => int!(v, i32),
        Slot::U32(v) => int!(v, u32),
        Slot::I64(v) => int!(v, i64),
        Slot::U64(v) => int!(v, u64),
        Slot::F32(v) => {
            let f = f32::from_bits(*v);
            *v = match r.below(6) {
                0 if f == 0.0 || f.is_nan() => *v ^ 0x8000_0000,
                1 if f.is_nan() => *r.pick(&[0x7fc0_0000u32, 0xffc0_0001, 0x7f80_0001]),
                2 => 0x8000_0000,
                3 => *v ^ 1,
                4 => *v ^ 0x8000_0000,
                _ => *v ^ (1 << r.below(32)),
            }
        }
        Slot::F64(v) => {
            let f = f64::from_bits(*v);
            *v = match r.below(6) {
                0 if f == 0.0 || f.is_nan() => *v ^ (1 << 63),
                1 if f.is_nan() => *r.pick(&[0x7ff8u64 << 48, 0xfff8u64 << 48 | 1, 0x7ff0u64 << 48 | 1]),
                2 => 1 << 63,
                3 => *v ^ 1,
                4 => *v ^ (1 << 63),
                _ => *v ^ (1 << r.below(64)),
            }
        }
        Slot::G(g) => g[r.usize(16)] ^= 1 << r.below(8),
        Slot::Raw(v) => {
            if v.is_empty() || r.chance(1, 4) {
                v.push(0)
            } else {
                let i = r.usize(v.len());
                v[i] ^= 1 << r.below(8);
            }
        }
        Slot::Strings(v) => edit_list(v, r),
        Slot::Delegs(v) => edit_list(v, r),
        Slot::Elems(v) => edit_list(v, r),
        Slot::Args(v) => edit_list(v, r),
        Slot::Kind(p) => edit_kind(p),
        Slot::Members(v) => edit_map(v, r),
        Slot::Entries(v) => edit_map(v, r),
        Slot::Named(v) => edit_map(v, r),
        Slot::Arg(a) => {
            let n = match &*a {
                Arg::Int(v) => Arg::UInt(*v as u32),
                Arg::UInt(v) => Arg::F32(*v),
                Arg::F32(v) => Arg::Int(*v as i32),
                Arg::Int64(v) => Arg::UInt64(*v as u64),
                Arg::UInt64(v) => Arg::F64(*v),
                Arg::F64(v) => Arg::Int64(*v as i64),
                Arg::Text(_) => return,
            };
            *a = n;
        }
        Slot::Opts(o) => {
            *o = match o {
                Some(_) => None,
                None => Some(NumOpts { sign: false, group: true, rounding: 0, digits: [1, 324, 0, 3] }),
            }
        }
    }
}

fn edit_map<T: Clone>(v: &mut Vec<T>, r: &mut Rng) {
    if v.is_empty() {
        return;
    }
    if r.bool() {
        let (i, j) = (r.usize(v.len()), r.usize(v.len()));
        v.swap(i, j);
    } else {
        let i = r.usize(v.len());
        v.remove(i);
    }
}

pub fn count(p: &P) -> usize {
    let mut q = p.clone();
    let mut n = 0;
    slots_p(&mut q, &mut |_| n += 1);
    n
}

/// A copy with slot number `k` edited.
pub fn edited(p: &P, k: usize, r: &mut Rng) -> P {
    let mut q = p.clone();
    let mut n = 0;
    slots_p(&mut q, &mut |s| {
        if n == k {
            edit_slot(s, r);
        }
        n += 1;
    });
    q
}

/// A copy with all unordered collections shuffled.
pub fn shuffled(p: &P, r: &mut Rng) -> P {
    let mut q = p.clone();
    slots_p(&mut q, &mut |s| match s {
        Slot::Members(v) => r.shuffle(v),
        Slot::Entries(v) => r.shuffle(v),
        Slot::Named(v) => r.shuffle(v),
        _ => {}
    });
    q
}

/// A copy in which zeros and NaNs take another form.
pub fn refloated(p: &P, r: &mut Rng) -> P {
    let mut q = p.clone();
    slots_p(&mut q, &mut |s| match s {
        Slot::F32(v) => {
            let f = f32::from_bits(*v);
            if f == 0.0 && r.bool() {
                *v ^= 0x8000_0000;
            } else if f.is_nan() {
                *v = *r.pick(&[0x7fc0_0000u32, 0xffc0_0001, 0x7f80_0001, 0xffff_ffff]);
            }
        }
        Slot::F64(v) => {
            let f = f64::from_bits(*v);
            if f == 0.0 && r.bool() {
                *v ^= 1 << 63;
            } else if f.is_nan() {
                *v = *r.pick(&[0x7ff8u64 << 48, 0xfff8u64 << 48 | 1, 0x7ff0u64 << 48 | 1, u64::MAX]);
            }
        }
        _ => {}
    });
    q
}

/// Some unordered collection holds a key twice.
pub fn has_dups(p: &P) -> bool {
    let mut q = p.clone();
    let mut bad = false;
    slots_p(&mut q, &mut |s| {
        let mut keys: Vec<Vec<u8>> = match s {
            Slot::Members(v) => v.iter().map(|(k, _)| k.clone().into_bytes()).collect(),
            Slot::Named(v) => v.iter().map(|(k, _)| k.clone().into_bytes()).collect(),
            Slot::Entries(v) => v.iter().map(|(k, _)| canon(k)).collect(),
            _ => return,
        };
        let n = keys.len();
        keys.sort();
        keys.dedup();
        bad |= keys.len() != n;
    });
    bad
}

/// Makes all numbers finite.
pub fn finite(p: &mut P) {
    slots_p(p, &mut |s| match s {
        Slot::F32(v) if !f32::from_bits(*v).is_finite() => *v ^= 0x4000_0000,
        Slot::F64(v) if !f64::from_bits(*v).is_finite() => *v ^= 1 << 62,
        _ => {}
    });
}
