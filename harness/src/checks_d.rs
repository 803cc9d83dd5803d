//! C23..C26: typed readers and stream helpers, constructors and conversions, version identities, text forms.
use crate::checks_a::*;
use crate::checks_b::*;
use crate::conv::*;
use crate::ctx::*;
use crate::dec::{Dec, V};
use crate::edit::has_dups;
use crate::enc::*;
use crate::gen_::*;
use crate::io::{FAR, Far};
use crate::model::*;
use crate::mutate::*;
use crate::rng::Rng;
use gvas::cursor_ext::{ReadExt, WriteExt};
use gvas::custom_version::*;
use gvas::engine_version::{EngineVersion, FEngineVersion};
use gvas::error::{DeserializeError, Error, SerializeError};
use gvas::game_version::{DeserializedGameVersion, GameVersion, PalworldCompressionType};
use gvas::object_version::EUnrealEngineObjectUE5Version;
use gvas::properties::{
    Property, PropertyOptions, array_property::ArrayProperty, delegate_property::*,
    enum_property::EnumProperty,
    field_path_property::{FieldPath, FieldPathProperty},
    int_property::*,
    map_property::MapProperty,
    name_property::NameProperty,
    object_property::ObjectProperty,
    set_property::SetProperty,
    str_property::StrProperty,
    struct_property::{StructProperty, StructPropertyValue},
    struct_types::*,
    text_property::*,
    unknown_property::UnknownProperty,
};
use gvas::savegame_version::SaveGameVersion;
use gvas::types::{Guid, map::HashableIndexMap};
use gvas::GvasFile;
use std::collections::HashMap;
use std::error::Error as _;
use std::fmt::Debug;
use std::io::{Cursor, Seek, SeekFrom};

fn short(v: &dyn Debug) -> String {
    format!("{v:?}").chars().take(300).collect()
}

/// `bytes` between other bytes: the whole and where the middle starts.
fn framed(bytes: &[u8], r: &mut Rng) -> (Vec<u8>, u64) {
    let lead = *r.pick(&[0usize, 0, 1, 3, 4, 7, 8, 300]);
    let trail = *r.pick(&[0usize, 0, 1, 2, 5, 16]);
    let mut v = r.bytes(lead);
    v.extend_from_slice(bytes);
    v.extend(r.bytes(trail));
    (v, lead as u64)
}

/// A value read by `f` from the middle of other bytes, and how many bytes were taken.
fn read_at<T>(all: &[u8], at: u64, f: impl FnOnce(&mut Far) -> Result<T, Error>) -> (Result<T, Error>, i64) {
    // where the stream begins does not matter either
    let base = all.iter().fold(all.len(), |h, b| h.wrapping_mul(31).wrapping_add(*b as usize)) % 64;
    let mut c = Far::new(all, FAR.get(base).copied().unwrap_or(0));
    c.set_position(at);
    let v = f(&mut c);
    let n = c.position() as i64 - at as i64;
    (v, n)
}

// ---------------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Tagged,
    Bare,
    Header,
}

/// Reads through the reader of the property's own type, where that reader is public.
fn typed(ty: &str, how: How, c: &mut Far, o: &mut PropertyOptions) -> Option<Result<Property, Error>> {
    macro_rules! plain {
        ($t:ident) => {
            match how {
                How::Tagged => $t::read(c, true).map(Property::$t),
                How::Bare => $t::read(c, false).map(Property::$t),
                How::Header => $t::read_header(c).map(Property::$t),
            }
        };
    }
    Some(match (ty, how) {
        ("StrProperty", _) => plain!(StrProperty),
        ("NameProperty", _) => plain!(NameProperty),
        ("ObjectProperty", _) => plain!(ObjectProperty),
        ("DelegateProperty", _) => plain!(DelegateProperty),
        ("MulticastInlineDelegateProperty", _) => plain!(MulticastInlineDelegateProperty),
        ("MulticastSparseDelegateProperty", _) => plain!(MulticastSparseDelegateProperty),
        ("FieldPathProperty", _) => plain!(FieldPathProperty),
        ("TextProperty", How::Tagged) => TextProperty::read(c, true, o).map(Property::TextProperty),
        ("TextProperty", How::Bare) => TextProperty::read(c, false, o).map(Property::TextProperty),
        ("TextProperty", How::Header) => TextProperty::read_header(c, o).map(Property::TextProperty),
        ("EnumProperty", How::Header) => EnumProperty::read_header(c).map(Property::EnumProperty),
        ("ArrayProperty", How::Header) => ArrayProperty::read_header(c, o).map(Property::ArrayProperty),
        ("SetProperty", How::Header) => SetProperty::read_header(c, o).map(Property::SetProperty),
        ("MapProperty", How::Header) => MapProperty::read_header(c, o).map(Property::MapProperty),
        _ => return None,
    })
}

const TYPED: &[K] = &[
    K::Str,
    K::Name,
    K::Object,
    K::Delegate,
    K::MInline,
    K::MSparse,
    K::FieldPath,
    K::Text(HK::Base),
    K::Enum,
    K::Array,
    K::Set,
    K::Map,
];

pub fn c23_directed() -> u64 {
    TYPED.len() as u64 * 40 + 512
}

fn typed_case(k: K, r: &mut Rng, ctx: &mut Ctx) -> CR {
    let table = if r.bool() { custom_table(r) } else { simple_table(r.bool(), r.bool(), r.bool()) };
    let ver = Ver::of(&table);
    let custom = to_custom(&table);
    let mut cfg = Cfg::random(r);
    cfg.budget = 400;
    cfg.max_depth = 3;
    let mut g = Gen::new(r, ver, cfg);
    let name = g.name();
    g.stack.push(name.clone());
    let k = if let K::Text(_) = k { K::Text(*g.r.pick(HKS)) } else { k };
    let p = g.tagged_of(k);
    drop(g);
    if has_dups(&p) {
        return Ok(());
    }
    let ty = type_name(&p).to_string();
    let e = encode_prop(&p, ver, &[name.clone()]);
    let hints = hint_table(&e);
    let stack = || vec![name.clone(), ty.clone()];
    ctx.sample(|| short(&p));
    for how in [How::Tagged, How::Header, How::Bare] {
        let mut q = p.clone();
        let mut own = None;
        let bytes = if how == How::Bare {
            match &mut q {
                P::Name(i, _) => *i = 0,
                P::Str(_) | P::Object(_) | P::Delegate(_) | P::MInline(_) | P::MSparse(_) | P::FieldPath(..) | P::Text(_) => {}
                _ => continue,
            }
            own.insert(with_ver(ver, |x| x.body(&q)).0).buf.clone()
        } else {
            e.buf.clone()
        };
        let want = fp_prop(&to_prop(&q));
        let (all, at) = framed(&bytes, r);
        let base = if r.chance(1, 8) { *r.pick(FAR) } else { 0 };
        let run = |all: &[u8], at: u64| {
            must("typed read", || {
                let mut s = stack();
                let out = options(&hints, &mut s, &custom, |o| {
                    let mut c = Far::new(all, base);
                    c.set_position(at);
                    let v = typed(&ty, how, &mut c, o);
                    v.map(|v| (v, c.position() as i64 - at as i64))
                });
                (out, s)
            })
        };
        let (out, after) = run(&all, at)?;
        let Some((got, n)) = out else { continue };
        ctx.eval(&all, true);
        ctx.count(&format!("{how:?} reads"));
        if after != stack() {
            return viol_in("typed read leaves the path changed", format!("{ty} {how:?}: {after:?}"), &all);
        }
        match got {
            Ok(v) => {
                let f = fp_prop(&v);
                if f != want {
                    return viol_in("typed value", format!("{ty} {how:?}: {}", diff(&want, &f)), &all);
                }
                if n != bytes.len() as i64 {
                    return viol_in("typed length", format!("{ty} {how:?}: took {n} of {} bytes", bytes.len()), &all);
                }
            }
            Err(x) => return viol_in("typed read failed", format!("{ty} {how:?}: {x:?}"), &all),
        }
        // any shorter source is too short
        for cut in positions(bytes.len(), 24, r) {
            let cutb = &all[..at as usize + cut];
            ctx.eval(cutb, cut > 4);
            if let (Some((Ok(v), _)), _) = run(cutb, at)? {
                return viol_in("typed read of a cut value", format!("{ty} {how:?}: {cut} of {} bytes gave {}", bytes.len(), short(&v)), cutb);
            }
        }
        // damaged bytes: as the layout says, and as through the general reader
        let enc = own.as_ref().unwrap_or(&e);
        for _ in 0..4 {
            if bytes.is_empty() || enc.fields.is_empty() {
                continue;
            }
            let bad = match restructure(enc, r) {
                Some(x) if r.bool() => x.0,
                _ => mutate(enc, r).0,
            };
            let (all, at) = framed(&bad, r);
            ctx.eval(&all, true);
            let (mine, after) = run(&all, at)?;
            let Some((mine, n)) = mine else { continue };
            let mut s = vec![name.clone()];
            let (gen_, pos) = must("property read", || read_prop(&all, at, &ty, how != How::Bare, &hints, &mut s, &custom))?;
            let mut d = Dec::new(&all, &hints);
            (d.pos, d.ver, d.stack) = (at as usize, ver, vec![name.clone()]);
            match (d.prop(&ty, how != How::Bare, None), &mine) {
                (Err(x), _) if x.v == V::Deep => continue,
                (Ok(q), Ok(v)) => {
                    let (a, b) = (fp_prop(&to_prop(&q)), fp_prop(v));
                    if a != b {
                        return viol_in("typed value of damaged bytes", format!("{ty} {how:?}: {}", diff(&a, &b)), &all);
                    }
                    if n != d.pos as i64 - at as i64 {
                        return viol_in("typed length of damaged bytes", format!("{ty} {how:?}: took {n} of {} bytes", d.pos as i64 - at as i64), &all);
                    }
                }
                (Err(x), Ok(v)) => {
                    return viol_in("typed accepts damaged bytes", format!("{ty} {how:?}: {} for {:?}", short(v), x.v), &all);
                }
                (Ok(_), Err(x)) => return viol_in("typed refuses valid bytes", format!("{ty} {how:?}: {x:?}"), &all),
                (Err(_), Err(_)) => {}
            }
            match (&mine, &gen_) {
                (Ok(a), Ok(b)) => {
                    let (a, b) = (fp_prop(a), fp_prop(b));
                    if a != b {
                        return viol_in("typed differs from general", format!("{ty} {how:?}: {}", diff(&b, &a)), &all);
                    }
                    if n != pos as i64 - at as i64 {
                        return viol_in("typed length differs from general", format!("{ty} {how:?}: {n} against {}", pos as i64 - at as i64), &all);
                    }
                    if after != stack() {
                        return viol_in("typed read leaves the path changed", format!("{ty} {how:?}: {after:?}"), &all);
                    }
                    ctx.count("damaged, both accept");
                }
                (Err(_), Err(_)) => ctx.count("damaged, both refuse"),
                (Ok(a), Err(x)) => return viol_in("typed accepts what general refuses", format!("{ty} {how:?}: {} against {x:?}", short(a)), &all),
                (Err(x), Ok(a)) => return viol_in("typed refuses what general accepts", format!("{ty} {how:?}: {} against {x:?}", short(a)), &all),
            }
        }
    }
    Ok(())
}

/// Parts of a text through their own readers and writers.
fn text_parts(r: &mut Rng, ctx: &mut Ctx) -> CR {
    let table = if r.bool() { custom_table(r) } else { simple_table(r.bool(), r.bool(), r.bool()) };
    let ver = Ver::of(&table);
    let custom = to_custom(&table);
    let mut cfg = Cfg::random(r);
    cfg.budget = 300;
    cfg.max_depth = 3;
    let mut g = Gen::new(r, ver, cfg);
    let t = g.text();
    let no = g.numopts();
    drop(g);
    if has_dups(&P::Text(t.clone())) {
        return Ok(());
    }
    let hints = Hints::new();
    macro_rules! part {
        ($what:expr, $bytes:expr, $want:expr, $fp:expr, $read:expr) => {{
            let bytes: Vec<u8> = $bytes;
            let (all, at) = framed(&bytes, r);
            ctx.eval(&all, true);
            ctx.count($what);
            let run = |all: &[u8]| {
                must("text part read", || {
                    let mut s = vec!["T".to_string()];
                    options(&hints, &mut s, &custom, |o| read_at(all, at, |c| $read(c, o)))
                })
            };
            match run(&all)? {
                (Ok(v), n) => {
                    let (w, f) = ($fp(&$want), $fp(&v));
                    if w != f {
                        return viol_in("text part value", format!("{}: {}", $what, diff(&w, &f)), &all);
                    }
                    if n != bytes.len() as i64 {
                        return viol_in("text part length", format!("{}: took {n} of {} bytes", $what, bytes.len()), &all);
                    }
                }
                (Err(x), _) => return viol_in("text part read failed", format!("{}: {x:?}", $what), &all),
            }
            for cut in positions(bytes.len(), 12, r) {
                if let (Ok(_), _) = run(&all[..at as usize + cut])? {
                    return viol_in("text part read of a cut value", format!("{}: {cut} of {} bytes", $what, bytes.len()), &all[..at as usize + cut]);
                }
            }
            let out = must("text part write", || {
                let mut s = vec![];
                options(&hints, &mut s, &custom, |o| {
                    let mut b = vec![];
                    let _ = &o;
                    let n = WritePart::put(&$want, &mut b, o)?;
                    Ok::<_, Error>((n, b))
                })
            })?;
            match out {
                Ok((n, b)) => {
                    if b != bytes {
                        return viol_in("text part bytes", format!("{}: {}", $what, diff(&bytes, &b)), &b);
                    }
                    if n != b.len() {
                        return viol_in("text part size", format!("{}: reports {n}, wrote {}", $what, b.len()), &b);
                    }
                }
                Err(x) => return viol("text part write failed", format!("{}: {x:?}", $what)),
            }
        }};
    }
    let enc = with_ver(ver, |x| x.text(&t)).0;
    for _ in 0..2 {
        // damaged texts: as the layout says
        let bad = match restructure(&enc, r) {
            Some(x) if r.bool() => x.0,
            _ => mutate(&enc, r).0,
        };
        let (all, at) = framed(&bad, r);
        ctx.eval(&all, true);
        let mut s = vec!["T".to_string()];
        let (got, n) = must("text read", || options(&hints, &mut s, &custom, |o| read_at(&all, at, |c| FText::read(c, o))))?;
        let mut d = Dec::new(&all, &hints);
        (d.pos, d.ver) = (at as usize, ver);
        match (d.text(), got) {
            (Err(x), _) if x.v == V::Deep => {}
            (Err(_), Err(_)) => ctx.count("damaged texts refused"),
            (Ok(q), Ok(v)) => {
                let (a, b) = (fp_text(&to_text(&q)), fp_text(&v));
                if a != b {
                    return viol_in("value of a damaged text", diff(&a, &b), &all);
                }
                if n != d.pos as i64 - at as i64 {
                    return viol_in("length of a damaged text", format!("took {n} of {} bytes", d.pos as i64 - at as i64), &all);
                }
                ctx.count("damaged texts accepted");
            }
            (Ok(_), Err(x)) => return viol_in("refused a valid text", format!("{x:?}"), &all),
            (Err(x), Ok(v)) => return viol_in("accepted a damaged text", format!("{} for {:?}", short(&v), x.v), &all),
        }
    }
    let whole = enc.buf;
    part!("texts", whole, to_text(&t), fp_text, |c: &mut Far, o: &mut PropertyOptions| FText::read(c, o));
    let hist = with_ver(ver, |x| x.hist(&t.hist)).0.buf;
    part!(
        "histories",
        hist,
        to_hist(&t.hist),
        |h: &FTextHistory| fp_text(&FText { flags: 0, history: h.clone() }),
        |c: &mut Far, o: &mut PropertyOptions| FTextHistory::read(c, o)
    );
    let opts = with_ver(ver, |x| x.numopts(&no)).0.buf;
    part!(
        "number options",
        opts,
        to_opts(&no),
        |o: &NumberFormattingOptions| {
            format!(
                "{} {} {} {} {} {} {}",
                o.always_include_sign,
                o.use_grouping,
                o.rounding_mode as i8,
                o.minimum_integral_digits,
                o.maximum_integral_digits,
                o.minimum_fractional_digits,
                o.maximum_fractional_digits
            )
            .into_bytes()
        },
        |c: &mut Far, _: &mut PropertyOptions| NumberFormattingOptions::read(c)
    );
    Ok(())
}

trait WritePart {
    fn put(&self, b: &mut Vec<u8>, o: &mut PropertyOptions) -> Result<usize, Error>;
}
impl WritePart for FText {
    fn put(&self, b: &mut Vec<u8>, o: &mut PropertyOptions) -> Result<usize, Error> {
        self.write(b, o)
    }
}
impl WritePart for FTextHistory {
    fn put(&self, b: &mut Vec<u8>, o: &mut PropertyOptions) -> Result<usize, Error> {
        self.write(b, o)
    }
}
impl WritePart for NumberFormattingOptions {
    fn put(&self, b: &mut Vec<u8>, _: &mut PropertyOptions) -> Result<usize, Error> {
        self.write(b)
    }
}

fn one_enum<T>(byte: u8, lo: i8, hi: i8, r: &mut Rng, ctx: &mut Ctx) -> CR
where
    T: TryFrom<i8> + Into<i8> + Debug + Copy,
{
    let (all, at) = framed(&[byte], r);
    ctx.eval(&[&all[..], std::any::type_name::<T>().as_bytes()].concat(), true);
    let v = byte as i8;
    let name = std::any::type_name::<T>();
    let (got, n) = must("read_enum", || read_at(&all, at, |c| c.read_enum::<T>()))?;
    match got {
        Ok(x) => {
            if !(lo..=hi).contains(&v) {
                return viol_in("enum accepts a value outside its range", format!("{name} from {v}: {x:?}"), &all);
            }
            let back: i8 = x.into();
            if back != v {
                return viol_in("enum value", format!("{name} from {v}: {x:?} = {back}"), &all);
            }
            if n != 1 {
                return viol_in("enum length", format!("{name}: {n}"), &all);
            }
            let mut b = vec![];
            match must("write_enum", || b.write_enum(x))? {
                Ok(()) if b == [byte] => {}
                other => return viol("enum bytes", format!("{name} {x:?}: {other:?} {b:?}")),
            }
            ctx.count("enum values accepted");
        }
        Err(x) => {
            if (lo..=hi).contains(&v) {
                return viol_in("enum refuses a value of its range", format!("{name} from {v}: {x:?}"), &all);
            }
            match x {
                Error::Deserialize(DeserializeError::InvalidEnumValue(_, w, _)) if w == v => {}
                x => return viol_in("enum error", format!("{name} from {v}: {x:?}"), &all),
            }
            ctx.count("enum values refused");
        }
    }
    if let (Ok(x), _) = must("read_enum", || read_at(&all[..at as usize], at, |c| c.read_enum::<T>()))? {
        return viol("enum out of nothing", format!("{name}: {x:?}"));
    }
    Ok(())
}

fn enums(byte: u8, r: &mut Rng, ctx: &mut Ctx) -> CR {
    one_enum::<TextHistoryType>(byte, -1, 13, r, ctx)?;
    one_enum::<FormatArgumentType>(byte, 0, 5, r, ctx)?;
    one_enum::<RoundingMode>(byte, 0, 6, r, ctx)?;
    one_enum::<DateTimeStyle>(byte, 0, 4, r, ctx)?;
    one_enum::<TransformType>(byte, 0, 1, r, ctx)?;
    one_enum::<PalworldCompressionType>(byte, 0x30, 0x32, r, ctx)?;
    // the named value of each number
    macro_rules! named {
        ($($t:ident: $($n:literal $v:ident),*;)*) => { $($(
            if byte as i8 == $n {
                let (got, _) = must("read_enum", || read_at(&[byte], 0, |c| c.read_enum::<$t>()))?;
                match got {
                    Ok($t::$v) => {}
                    x => return viol("named enum value", format!("{} {} is not {}: {x:?}", stringify!($t), $n, stringify!($v))),
                }
            }
        )*)* };
    }
    named!(
        TextHistoryType: -1 None, 0 Base, 1 NamedFormat, 2 OrderedFormat, 3 ArgumentFormat, 4 AsNumber, 5 AsPercent,
            6 AsCurrency, 7 AsDate, 8 AsTime, 9 AsDateTime, 10 Transform, 11 StringTableEntry, 12 TextGenerator, 13 RawText;
        FormatArgumentType: 0 Int, 1 UInt, 2 Float, 3 Double, 4 Text, 5 Gender;
        RoundingMode: 0 HalfToEven, 1 HalfFromZero, 2 HalfToZero, 3 FromZero, 4 ToZero, 5 ToNegativeInfinity, 6 ToPositiveInfinity;
        DateTimeStyle: 0 Default, 1 Short, 2 Medium, 3 Long, 4 Full;
        TransformType: 0 ToLower, 1 ToUpper;
        PalworldCompressionType: 0x30 None, 0x31 Zlib, 0x32 ZlibTwice;
    );
    Ok(())
}

fn booleans(byte: u8, r: &mut Rng, ctx: &mut Ctx) -> CR {
    let word = match r.below(5) {
        0 => byte as u32,
        1 => (byte as u32) << 8,
        2 => (byte as u32) << 24 | r.below(2) as u32,
        3 => u32::from_le_bytes([byte; 4]),
        _ => r.u32(),
    };
    for (v, bytes, wide) in [(byte as u32, vec![byte], false), (word, word.to_le_bytes().to_vec(), true)] {
        let (all, at) = framed(&bytes, r);
        ctx.eval(&all, true);
        let f = |c: &mut Far| if wide { c.read_b32() } else { c.read_bool() };
        let (got, n) = must("boolean read", || read_at(&all, at, f))?;
        match (got, v) {
            (Ok(false), 0) | (Ok(true), 1) if n == bytes.len() as i64 => {
                let mut b = vec![];
                let w = must("boolean write", || if wide { b.write_b32(v == 1) } else { b.write_bool(v == 1) })?;
                if w.is_err() || b != bytes {
                    return viol("boolean bytes", format!("{v}: {w:?} {b:?}"));
                }
            }
            (Err(Error::Deserialize(DeserializeError::InvalidBoolean(w, _))), 2..) if w == v => {}
            (got, _) => return viol_in("boolean", format!("{v} ({} bytes): {got:?}, took {n}", bytes.len()), &all),
        }
        for cut in 0..bytes.len() {
            if let (Ok(x), _) = must("boolean read", || read_at(&all[..at as usize + cut], at, f))? {
                return viol("boolean of a cut value", format!("{x} from {cut} bytes"));
            }
        }
    }
    Ok(())
}

fn strings(r: &mut Rng, ctx: &mut Ctx) -> CR {
    let ver = Ver::of(&[]);
    let mut cfg = Cfg::random(r);
    if r.chance(1, 40) {
        cfg.max_str = 131_071;
        cfg.p_long = 200;
    }
    let mut g = Gen::new(r, ver, cfg);
    let s = g.fstring();
    drop(g);
    let s = if r.chance(1, 8) { None } else { s };
    let plain = with_ver(ver, |x| x.fstring(&s)).0.buf;
    let seed = r.u64();
    let other = with_ver(ver, |x| {
        x.alt = Some(Rng::new(seed));
        x.fstring(&s)
    })
    .0
    .buf;
    for bytes in [&plain, &other] {
        let (all, at) = framed(bytes, r);
        ctx.eval(&all, true);
        match must("read_fstring", || read_at(&all, at, |c| c.read_fstring()))? {
            (Ok(v), n) if v == s && n == bytes.len() as i64 => {}
            (v, n) => return viol_in("string value", format!("{}: {} ({n} of {} bytes)", short(&s), short(&v), bytes.len()), &all),
        }
        match (must("read_string", || read_at(&all, at, |c| c.read_string()))?, &s) {
            ((Ok(v), n), Some(s)) if v == *s && n == bytes.len() as i64 => {}
            ((Err(_), _), None) => {}
            ((v, n), _) => return viol_in("required string value", format!("{}: {} ({n} of {} bytes)", short(&s), short(&v), bytes.len()), &all),
        }
        for cut in positions(bytes.len(), 12, r) {
            let part = &all[..at as usize + cut];
            if let (Ok(v), _) = must("read_fstring", || read_at(part, at, |c| c.read_fstring()))? {
                return viol_in("string of a cut value", format!("{} from {cut} of {} bytes", short(&v), bytes.len()), part);
            }
        }
    }
    // written forms and reported sizes
    let mut b = vec![];
    match must("write_fstring", || b.write_fstring(s.as_deref()))? {
        Ok(n) if b == plain && n == b.len() => {}
        x => return viol("string bytes", format!("{}: {x:?}: {}", short(&s), diff(&plain, &b))),
    }
    if let Some(s) = &s {
        for owned in [false, true] {
            let mut b = vec![];
            match must("write_string", || if owned { b.write_string(s.clone()) } else { b.write_string(s.as_str()) })? {
                Ok(n) if b == plain && n == b.len() => {}
                x => return viol("required string bytes", format!("{}: {x:?}: {}", short(s), diff(&plain, &b))),
            }
        }
    }
    // GUIDs
    let g = r.guid();
    let (all, at) = framed(&g, r);
    ctx.eval(&all, true);
    match must("read_guid", || read_at(&all, at, |c| c.read_guid()))? {
        (Ok(v), 16) if v.0 == g => {}
        x => return viol_in("guid value", short(&x), &all),
    }
    let cut = r.usize(16);
    if let (Ok(v), _) = must("read_guid", || read_at(&all[..at as usize + cut], at, |c| c.read_guid()))? {
        return viol("guid of a cut value", format!("{v:?} from {cut} bytes"));
    }
    let mut b = vec![];
    let w = must("write_guid", || b.write_guid(&Guid(g)))?;
    if w.is_err() || b != g {
        return viol("guid bytes", format!("{g:?}: {w:?} {b:?}"));
    }
    ctx.count("strings and GUIDs");
    Ok(())
}

/// Reading without hints is reading with an empty hint table.
fn plain_read(idx: u64, r: &mut Rng, ctx: &mut Ctx) -> CR {
    let made = make(small_file(r, idx));
    let mut bytes = made.bytes(r);
    match r.below(4) {
        0 => blind(&mut bytes, r).len(),
        1 if made.m.pal.is_none() => {
            bytes = mutate(&made.enc, r).0;
            0
        }
        _ => 0,
    };
    let pal = if r.chance(1, 16) { made.m.pal.is_none() } else { made.m.pal.is_some() };
    ctx.eval(&bytes, bytes.len() > 8);
    let none = Hints::new();
    let a = must("read", || outcome(&read_file(&bytes, pal, &none)))?;
    let b = must("read", || {
        let gv = if pal { GameVersion::Palworld } else { GameVersion::Default };
        outcome(&GvasFile::read(&mut Cursor::new(&bytes[..]), gv))
    })?;
    if a != b {
        return viol_in("read without hints", format!("{} against {}", brief(&b), brief(&a)), &bytes);
    }
    // a save that needs no hint reads as with one
    if made.hints.is_empty() && bytes == made.enc.buf && !pal {
        match b {
            Ok(_) => ctx.count("saves read without hints"),
            Err(_) if made.m.pal.is_some() => {}
            Err(e) => return viol_in("read without hints failed", e, &bytes),
        }
    }
    ctx.count("plain reads");
    Ok(())
}

pub fn c23(idx: u64, r: &mut Rng, ctx: &mut Ctx) -> CR {
    let n = TYPED.len() as u64 * 40;
    if idx < n {
        return typed_case(TYPED[(idx % TYPED.len() as u64) as usize], r, ctx);
    }
    if idx < n + 512 {
        let b = ((idx - n) & 255) as u8;
        enums(b, r, ctx)?;
        return booleans(b, r, ctx);
    }
    match r.below(12) {
        0..=5 => typed_case(*r.pick(TYPED), r, ctx),
        6..=7 => text_parts(r, ctx),
        8..=9 => strings(r, ctx),
        10 => {
            let b = r.u32() as u8;
            enums(b, r, ctx)?;
            booleans(b, r, ctx)
        }
        _ => plain_read(idx, r, ctx),
    }
}

// ---------------------------------------------------------------------------------
fn by_new_sv(sv: &SV) -> Option<StructPropertyValue> {
    let f = |v: u32| f32::from_bits(v);
    let d = |v: u64| f64::from_bits(v);
    Some(match sv {
        SV::V2F(v) => Vector2F::new(f(v[0]), f(v[1])).into(),
        SV::V2D(v) => Vector2D::new(d(v[0]), d(v[1])).into(),
        SV::VF(v) => VectorF::new(f(v[0]), f(v[1]), f(v[2])).into(),
        SV::VD(v) => VectorD::new(d(v[0]), d(v[1]), d(v[2])).into(),
        SV::RF(v) => RotatorF::new(f(v[0]), f(v[1]), f(v[2])).into(),
        SV::RD(v) => RotatorD::new(d(v[0]), d(v[1]), d(v[2])).into(),
        SV::QF(v) => QuatF::new(f(v[0]), f(v[1]), f(v[2]), f(v[3])).into(),
        SV::QD(v) => QuatD::new(d(v[0]), d(v[1]), d(v[2]), d(v[3])).into(),
        SV::DateTime(v) => DateTime::new(*v).into(),
        SV::Timespan(v) => Timespan::new(*v).into(),
        SV::Guid(g) => Guid(*g).into(),
        SV::Color(v) => LinearColor::new(f(v[0]), f(v[1]), f(v[2]), f(v[3])).into(),
        SV::IntPoint(v) => IntPoint::new(v[0], v[1]).into(),
        SV::Tags(_) | SV::Custom(_) => return None,
    })
}

fn by_new_text(t: &Text) -> Option<FText> {
    Some(match &t.hist {
        Hist::Empty => FText::new_none(t.flags, None),
        Hist::None(s) => FText::new_none(t.flags, Some(s.clone())),
        Hist::Base(a, b, c) => FText::new_base(t.flags, a.clone(), b.clone(), c.clone()),
        _ => return None,
    })
}

/// The property built through each of its constructors and conversions.
fn by_new(p: &P) -> Vec<Property> {
    let deleg = |d: &Deleg| Delegate::new(d.object.clone(), d.func.clone());
    let multi = |v: &[Deleg]| MulticastScriptDelegate::new(v.iter().map(deleg).collect());
    match p {
        P::I8(v) => vec![Int8Property::new(*v).into()],
        P::I16(v) => vec![Int16Property::new(*v).into()],
        P::U16(v) => vec![UInt16Property::new(*v).into()],
        P::I32(v) => vec![IntProperty::new(*v).into()],
        P::U32(v) => vec![UInt32Property::new(*v).into()],
        P::I64(v) => vec![Int64Property::new(*v).into()],
        P::U64(v) => vec![UInt64Property::new(*v).into()],
        P::F32(v) => vec![FloatProperty::new(f32::from_bits(*v)).into()],
        P::F64(v) => vec![DoubleProperty::new(f64::from_bits(*v)).into()],
        P::Bool(v) => vec![BoolProperty::new(*v).into()],
        P::Byte(n, ByteV::Byte(v)) => {
            vec![ByteProperty::new_byte(n.clone(), *v).into(), ByteProperty::new(n.clone(), BytePropertyValue::Byte(*v)).into()]
        }
        P::Byte(n, ByteV::Name(v)) => vec![
            ByteProperty::new_namespaced(n.clone(), v.clone()).into(),
            ByteProperty::new(n.clone(), BytePropertyValue::Namespaced(v.clone())).into(),
        ],
        P::Enum(t, v) => vec![EnumProperty::new(t.clone(), v.clone()).into()],
        P::Str(None) => vec![StrProperty::new(None).into()],
        P::Str(Some(v)) => vec![
            StrProperty::new(Some(v.clone())).into(),
            StrProperty::from(v.as_str()).into(),
            StrProperty::from(v.clone()).into(),
        ],
        P::Name(0, None) => vec![NameProperty::from(None).into()],
        P::Name(0, Some(v)) => vec![
            NameProperty::from(Some(v.clone())).into(),
            NameProperty::from(v.as_str()).into(),
            NameProperty::from(v.clone()).into(),
        ],
        P::Object(v) => vec![ObjectProperty::new(v.clone()).into(), ObjectProperty::from(v.as_str()).into()],
        P::Text(t) => match by_new_text(t) {
            Some(t) => vec![TextProperty::new(t).into()],
            None => vec![TextProperty::new(to_text(t)).into()],
        },
        P::Delegate(d) => vec![DelegateProperty::new(deleg(d)).into()],
        P::MInline(v) => vec![MulticastInlineDelegateProperty::new(multi(v)).into()],
        P::MSparse(v) => vec![MulticastSparseDelegateProperty::new(multi(v)).into()],
        P::FieldPath(v, o) => vec![FieldPathProperty::new(FieldPath::new(v.clone(), o.clone())).into()],
        P::Struct(g, t, sv) => {
            let v = by_new_sv(sv).unwrap_or_else(|| to_sv(sv));
            vec![StructProperty::new(Guid(*g), t.clone(), v).into()]
        }
        P::SVal(sv) => vec![by_new_sv(sv).unwrap_or_else(|| to_sv(sv)).into()],
        P::Set { ty, flags, elems } => {
            vec![SetProperty::new(ty.clone(), *flags, elems.iter().map(to_prop).collect()).into()]
        }
        P::Unknown(t, v) => vec![UnknownProperty::new(t.clone(), v.clone()).into()],
        _ => vec![],
    }
}

/// Which typed values the property converts into, each turned back into a property.
fn into_typed(p: &Property) -> Vec<(&'static str, Property)> {
    let mut out = vec![];
    macro_rules! each {
        ($($t:ident)*) => { $(
            if let Ok(v) = TryInto::<$t>::try_into(p.clone()) {
                out.push((stringify!($t), Property::from(v)));
            }
        )* };
    }
    each!(
        ArrayProperty BoolProperty ByteProperty DoubleProperty EnumProperty FloatProperty Int16Property Int64Property
        Int8Property IntProperty UInt16Property UInt32Property UInt64Property MapProperty NameProperty ObjectProperty
        DelegateProperty MulticastInlineDelegateProperty MulticastSparseDelegateProperty FieldPathProperty SetProperty
        StrProperty StructProperty StructPropertyValue TextProperty UnknownProperty
    );
    out
}

fn rust_type(p: &P) -> &'static str {
    match p {
        P::SVal(_) => "StructPropertyValue",
        P::Unknown(..) => "UnknownProperty",
        _ => KNOWN_TYPES.iter().find(|t| **t == type_name(p)).expect("harness: type name"),
    }
}

pub fn c24_directed() -> u64 {
    all_kinds().len() as u64 * 20
}

pub fn c24(idx: u64, r: &mut Rng, ctx: &mut Ctx) -> CR {
    let table = simple_table(r.bool(), r.bool(), r.bool());
    let ver = Ver::of(&table);
    let custom = to_custom(&table);
    let mut cfg = Cfg::random(r);
    cfg.budget = 200;
    cfg.max_depth = 3;
    cfg.kinds = all_kinds();
    let mut g = Gen::new(r, ver, cfg);
    g.stack.push("N".into());
    let kinds = all_kinds();
    let k = if idx < c24_directed() { kinds[idx as usize % kinds.len()] } else { *g.r.pick(&kinds) };
    let mut ps = vec![g.tagged_of(k)];
    if !matches!(k, K::Unknown | K::Array | K::Set | K::Map) {
        ps.push(g.untagged(k));
    }
    let h = g.header(table.clone());
    let (key, text) = (g.name(), g.text());
    drop(g);
    ctx.sample(|| short(&ps[0]));
    for p in &ps {
        if has_dups(p) {
            continue;
        }
        let direct = to_prop(p);
        let want = fp_prop(&direct);
        for (i, v) in must("constructor", || by_new(p))?.into_iter().enumerate() {
            ctx.eval(&[&want[..], &[i as u8]].concat(), true);
            ctx.count("values built");
            let f = fp_prop(&v);
            if f != want {
                return viol("constructed value", format!("{} way {i}: {}: {}", short(p), short(&v), diff(&want, &f)));
            }
        }
        // the typed values in a property
        let typed = must("conversion", || into_typed(&direct))?;
        ctx.eval(&want, true);
        match &typed[..] {
            [(t, v)] if *t == rust_type(p) => {
                let f = fp_prop(v);
                if f != want {
                    return viol("converted value", format!("{}: {}", short(p), diff(&want, &f)));
                }
            }
            x => return viol("conversions", format!("{} converts to {:?}", short(p), x.iter().map(|(t, _)| *t).collect::<Vec<_>>())),
        }
        // a struct value on its own has no tag to write
        if let P::SVal(_) = p {
            match must("property write", || write_prop(&direct, true, &custom))? {
                Err(_) => ctx.count("tagged writes of struct values refused"),
                Ok((_, b)) => return viol_in("struct value written with a tag", short(p), &b),
            }
        }
    }
    // texts and versions
    if let Some(t) = must("text constructor", || by_new_text(&text))? {
        let (a, b) = (fp_text(&to_text(&text)), fp_text(&t));
        ctx.eval(&a, true);
        if a != b {
            return viol("constructed text", format!("{}: {}", short(&text), diff(&a, &b)));
        }
    }
    let v = FEngineVersion::new(h.major, h.minor, h.patch, h.changelist, h.branch.clone());
    if (v.major, v.minor, v.patch, v.change_list, &v.branch) != (h.major, h.minor, h.patch, h.changelist, &h.branch) {
        return viol("constructed engine version", format!("{v:?} from {h:?}"));
    }
    let (cg, cv) = (r.guid(), r.u32());
    let c = FCustomVersion::new(Guid(cg), cv);
    if c.key.0 != cg || c.version != cv {
        return viol("constructed custom version", format!("{c:?}"));
    }
    if DeserializedGameVersion::default() != DeserializedGameVersion::Default {
        return viol("default game version", format!("{:?}", DeserializedGameVersion::default()));
    }
    maps(r, &key, ctx)
}

/// Ordered maps keep each key once, at its first place, with its last value.
fn maps(r: &mut Rng, key: &str, ctx: &mut Ctx) -> CR {
    let pairs: [(String, u32); 6] = std::array::from_fn(|_| (format!("{key}{}", r.below(5)), r.below(4) as u32));
    let mut want: Vec<(String, u32)> = vec![];
    for (k, v) in &pairs {
        match want.iter_mut().find(|(x, _)| x == k) {
            Some(e) => e.1 = *v,
            None => want.push((k.clone(), *v)),
        }
    }
    ctx.eval(format!("{pairs:?}").as_bytes(), true);
    let n = r.usize(20);
    let list = |m: &HashableIndexMap<String, u32>| m.into_iter().map(|(k, v)| (k.clone(), *v)).collect::<Vec<_>>();
    let all = must("map operations", || {
        let a = HashableIndexMap::from(pairs.clone());
        let mut out = vec![];
        for mut m in [HashableIndexMap::new(), HashableIndexMap::with_capacity(n), HashableIndexMap::default()] {
            out.push(("empty", list(&m) == [] && m.is_empty()));
            for (k, v) in &pairs {
                m.insert(k.clone(), *v);
            }
            out.push(("inserted", list(&m) == want));
            out.push(("equal", m == a));
            for (_, v) in &mut m {
                *v += 7;
            }
            let up: Vec<(String, u32)> = want.iter().map(|(k, v)| (k.clone(), v + 7)).collect();
            out.push(("updated", list(&m) == up));
            out.push(("unequal", m != a));
            out.push(("found", want.iter().all(|(k, v)| m.get(k) == Some(&(v + 7)))));
            out.push(("absent", !m.contains_key(&format!("{key}-"))));
            out.push(("count", m.len() == want.len()));
        }
        out.push(("from array", list(&a) == want));
        out
    })?;
    for (what, ok) in all {
        if !ok {
            return viol("map operations", format!("{what}: {pairs:?}"));
        }
    }
    ctx.count("maps built");
    Ok(())
}

// ---------------------------------------------------------------------------------
struct Step {
    num: u32,
    name: &'static str,
    value: fn() -> u32,
    supported: fn(&PropertyOptions) -> bool,
}
macro_rules! steps {
    ($list:ident, $t:ident, $($n:literal $v:ident,)*) => {
        const $list: &[Step] = &[$(Step {
            num: $n,
            name: stringify!($v),
            value: || $t::$v.into(),
            supported: |o| o.supports_version($t::$v),
        },)*];
    };
}
steps!(EDITOR, FEditorObjectVersion,
    0 BeforeCustomVersionWasAdded,
    1 GatheredTextProcessVersionFlagging,
    2 GatheredTextPackageCacheFixesV1,
    3 RootMetaDataSupport,
    4 GatheredTextPackageCacheFixesV2,
    5 TextFormatArgumentDataIsVariant,
    6 SplineComponentCurvesInStruct,
    7 ComboBoxControllerSupportUpdate,
    8 RefactorMeshEditorMaterials,
    9 AddedFontFaceAssets,
    10 UPropertryForMeshSection,
    11 WidgetGraphSchema,
    12 AddedBackgroundBlurContentSlot,
    13 StableUserDefinedEnumDisplayNames,
    14 AddedInlineFontFaceAssets,
    15 UPropertryForMeshSectionSerialize,
    16 FastWidgetTemplates,
    17 MaterialThumbnailRenderingChanges,
    18 NewSlateClippingSystem,
    19 MovieSceneMetaDataSerialization,
    20 GatheredTextEditorOnlyPackageLocId,
    21 AddedAlwaysSignNumberFormattingOption,
    22 AddedMaterialSharedInputs,
    23 AddedMorphTargetSectionIndices,
    24 SerializeInstancedStaticMeshRenderData,
    25 MeshDescriptionNewSerializationMovedToRelease,
    26 MeshDescriptionNewAttributeFormat,
    27 ChangeSceneCaptureRootComponent,
    28 StaticMeshDeprecatedRawMesh,
    29 MeshDescriptionBulkDataGuid,
    30 MeshDescriptionRemovedHoles,
    31 ChangedWidgetComponentWindowVisibilityDefault,
    32 CultureInvariantTextSerializationKeyStability,
    33 ScrollBarThicknessChange,
    34 RemoveLandscapeHoleMaterial,
    35 MeshDescriptionTriangles,
    36 ComputeWeightedNormals,
    37 SkeletalMeshBuildRefactor,
    38 SkeletalMeshMoveEditorSourceDataToPrivateAsset,
    39 NumberParsingOptionsNumberLimitsAndClamping,
    40 SkeletalMeshSourceDataSupport16bitOfMaterialNumber,
);
steps!(RELEASE, FUE5ReleaseStreamObjectVersion,
    0 BeforeCustomVersionWasAdded,
    1 ReflectionMethodEnum,
    2 WorldPartitionActorDescSerializeHLODInfo,
    3 RemovingTessellation,
    4 LevelInstanceSerializeRuntimeBehavior,
    5 PoseAssetRuntimeRefactor,
    6 WorldPartitionActorDescSerializeActorFolderPath,
    7 HairStrandsVertexFormatChange,
    8 AddChaosMaxLinearAngularSpeed,
    9 PackedLevelInstanceVersion,
    10 PackedLevelInstanceBoundsFix,
    11 CustomPropertyAnimGraphNodesUseOptionalPinManager,
    12 TextFormatArgumentData64bitSupport,
    13 MaterialLayerStacksAreNotParameters,
    14 MaterialInterfaceSavedCachedData,
    15 AddClothMappingLODBias,
    16 AddLevelActorPackagingScheme,
    17 WorldPartitionActorDescSerializeAttachParent,
    18 ConvertedActorGridPlacementToSpatiallyLoadedFlag,
    19 ActorGridPlacementDeprecateDefaultValueFixup,
    20 PackedLevelActorUseWorldPartitionActorDesc,
    21 AddLevelActorFolders,
    22 RemoveSkeletalMeshLODModelBulkDatas,
    23 ExcludeBrightnessFromEncodedHDRCubemap,
    24 VolumetricCloudSampleCountUnification,
    25 PoseAssetRawDataGUID,
    26 ConvolutionBloomIntensity,
    27 WorldPartitionHLODActorDescSerializeHLODSubActors,
    28 LargeWorldCoordinates,
    29 BlueprintPinsUseRealNumbers,
    30 UpdatedDirectionalLightShadowDefaults,
    31 GeometryCollectionConvexDefaults,
    32 ChaosClothFasterDamping,
    33 WorldPartitionLandscapeActorDescSerializeLandscapeActorGuid,
    34 AddedInertiaTensorAndRotationOfMassAddedToConvex,
    35 ChaosInertiaConvertedToVec3,
    36 SerializeFloatPinDefaultValuesAsSinglePrecision,
    37 AnimLayeredBoneBlendMasks,
    38 StoreReflectionCaptureEncodedHDRDataInRG11B10Format,
    39 RawAnimSequenceTrackSerializer,
    40 RemoveDuplicatedStyleInfo,
    41 LinkedAnimGraphMemberReference,
    42 DynamicMeshComponentsDefaultUseExternalTangents,
    43 MediaCaptureNewResizeMethods,
    44 RigVMSaveDebugMapInGraphFunctionData,
    45 LocalExposureDefaultChangeFrom1,
    46 WorldPartitionActorDescSerializeActorIsListedInSceneOutliner,
    47 OpenColorIODisabledDisplayConfigurationDefault,
    48 WorldPartitionExternalDataLayers,
    49 ChaosClothFictitiousAngularVelocitySubframeFix,
    50 SinglePrecisonParticleDataPT,
    51 OrthographicAutoNearFarPlane,
);
/// Package file versions of engine 5.
fn packages() -> Vec<(u32, u32, &'static str)> {
    vec![
        (1000, EUnrealEngineObjectUE5Version::InitialVersion.into(), "InitialVersion"),
        (1001, EUnrealEngineObjectUE5Version::NamesReferencedFromExportData.into(), "NamesReferencedFromExportData"),
        (1002, EUnrealEngineObjectUE5Version::PayloadToc.into(), "PayloadToc"),
        (1003, EUnrealEngineObjectUE5Version::OptionalResources.into(), "OptionalResources"),
        (1004, EUnrealEngineObjectUE5Version::LargeWorldCoordinates.into(), "LargeWorldCoordinates"),
        (1005, EUnrealEngineObjectUE5Version::RemoveObjectExportPackageGuid.into(), "RemoveObjectExportPackageGuid"),
        (1006, EUnrealEngineObjectUE5Version::TrackObjectExportIsInherited.into(), "TrackObjectExportIsInherited"),
        (1007, EUnrealEngineObjectUE5Version::FsoftobjectpathRemoveAssetPathFnames.into(), "FsoftobjectpathRemoveAssetPathFnames"),
        (1008, EUnrealEngineObjectUE5Version::AddSoftobjectpathList.into(), "AddSoftobjectpathList"),
        (1009, EUnrealEngineObjectUE5Version::DataResources.into(), "DataResources"),
        (1010, EUnrealEngineObjectUE5Version::ScriptSerializationOffset.into(), "ScriptSerializationOffset"),
        (1011, EUnrealEngineObjectUE5Version::PropertyTagExtensionAndOverridableSerialization.into(), "PropertyTagExtensionAndOverridableSerialization"),
        (1012, EUnrealEngineObjectUE5Version::PropertyTagCompleteTypeName.into(), "PropertyTagCompleteTypeName"),
    ]
}

fn engine(major: u16, minor: u16) -> EngineVersion {
    use EngineVersion::*;
    const FOUR: [EngineVersion; 28] = [
        VER_UE4_0, VER_UE4_1, VER_UE4_2, VER_UE4_3, VER_UE4_4, VER_UE4_5, VER_UE4_6, VER_UE4_7, VER_UE4_8, VER_UE4_9,
        VER_UE4_10, VER_UE4_11, VER_UE4_12, VER_UE4_13, VER_UE4_14, VER_UE4_15, VER_UE4_16, VER_UE4_17, VER_UE4_18,
        VER_UE4_19, VER_UE4_20, VER_UE4_21, VER_UE4_22, VER_UE4_23, VER_UE4_24, VER_UE4_25, VER_UE4_26, VER_UE4_27,
    ];
    const FIVE: [EngineVersion; 3] = [VER_UE5_0, VER_UE5_1, VER_UE5_2];
    let list: &[EngineVersion] = match major {
        4 => &FOUR,
        5 => &FIVE,
        _ => &[],
    };
    list.get(minor as usize).copied().unwrap_or(UNKNOWN)
}

/// Release in which the editor stream reached a number.
const EDITOR_RELEASES: &[(EngineVersion, i32)] = &[
    (EngineVersion::VER_UE4_26, 40),
    (EngineVersion::VER_UE4_25, 38),
    (EngineVersion::VER_UE4_24, 37),
    (EngineVersion::VER_UE4_23, 34),
    (EngineVersion::VER_UE4_22, 30),
    (EngineVersion::VER_UE4_21, 26),
    (EngineVersion::VER_UE4_20, 24),
    (EngineVersion::VER_UE4_19, 23),
    (EngineVersion::VER_UE4_17, 20),
    (EngineVersion::VER_UE4_16, 17),
    (EngineVersion::VER_UE4_15, 14),
    (EngineVersion::VER_UE4_14, 9),
    (EngineVersion::VER_UE4_13, 6),
    (EngineVersion::VER_UE4_12, 2),
    (EngineVersion::VER_UE4_OLDEST_LOADABLE_PACKAGE, 0),
];

pub fn c25_directed() -> u64 {
    1200
}

pub fn c25(idx: u64, r: &mut Rng, ctx: &mut Ctx) -> CR {
    // --- engine releases
    let (major, minor) = if idx < 300 {
        ((idx / 50) as u16 + 1, (idx % 50) as u16)
    } else {
        let wide = r.u32() as u16;
        let near = *r.pick(&[4u16, 5, 4 + 256, 5 + 256, 0, 3, 6, 0x0400, 0x0500, wide]);
        let low = r.below(30) as u16;
        (near, *r.pick(&[low, low + 256, 27, 28, 2, 3, wide, low << 8]))
    };
    let text = Cfg::random(r);
    let mut g = Gen::new(r, Ver::of(&[]), text);
    let branch = g.string();
    drop(g);
    let wide = r.u32();
    let change_list = *r.pick(&[0, 1, 0x7fff_ffff, 0x8000_0000, u32::MAX, wide]);
    let mut v = FEngineVersion { major, minor, patch: *r.pick(&[0, 1, 2, 9, 10, u16::MAX, wide as u16]), change_list, branch };
    ctx.eval(format!("{v:?}").as_bytes(), true);
    // releases later than those listed may become known
    let release = |v: &FEngineVersion| {
        let got = must("get_version", || v.get_version())?;
        if engine(v.major, v.minor) != got && !(got != EngineVersion::UNKNOWN && later(v.major, v.minor) && fresh(got)) {
            return viol("engine release", format!("{v}: {got:?}"));
        }
        Ok(())
    };
    release(&v)?;
    ctx.count("engine releases");
    if idx < c25_directed() {
        // a share of all minor numbers, and of all patch numbers of each release
        for n in (idx..1 << 16).step_by(c25_directed() as usize) {
            for major in 0..8 {
                (v.major, v.minor) = (major, n as u16);
                release(&v)?;
            }
            v.patch = n as u16;
            for (major, minors) in [(4, 0..28), (5, 0..3)] {
                for minor in minors {
                    (v.major, v.minor) = (major, minor);
                    release(&v)?;
                }
            }
        }
    }
    // --- version streams
    for (name, guid, want, friendly, label) in [
        ("editor", FEditorObjectVersion::GUID, editor_guid(), FEditorObjectVersion::FRIENDLY_NAME, "FEditorObjectVersion"),
        ("release", FUE5ReleaseStreamObjectVersion::GUID, ue5_guid(), FUE5ReleaseStreamObjectVersion::FRIENDLY_NAME, "FUE5ReleaseStreamObjectVersion"),
    ] {
        if guid.0 != want || friendly != label {
            return viol("stream identity", format!("{name}: {guid} {friendly}"));
        }
    }
    for (e, n) in EDITOR_RELEASES {
        let found: Vec<i32> = FEditorObjectVersion::VERSION_MAPPINGS.iter().filter(|(x, _)| x == e).map(|(_, n)| *n).collect();
        if found != [*n] {
            return viol("stream number of a release", format!("{e:?}: {found:?}, expected {n}"));
        }
    }
    let saves: [u32; 3] = [
        SaveGameVersion::InitialVersion.into(),
        SaveGameVersion::AddedCustomVersions.into(),
        SaveGameVersion::PackageFileSummaryVersionChange.into(),
    ];
    if saves != [1, 2, 3] {
        return viol("save version numbers", format!("{saves:?}"));
    }
    for (want, got, name) in packages() {
        if want != got {
            return viol("package version numbers", format!("{name} is {got}, expected {want}"));
        }
    }
    // --- a table and the steps around its numbers
    let near = |r: &mut Rng, steps: &[Step]| {
        let n = r.pick(steps).num;
        *r.pick(&[n, n.wrapping_sub(1), n + 1, 0, 0x7fff_ffff, 0x8000_0000, u32::MAX, n + 256, n + 0x1_0000])
    };
    let mut table: Vec<([u8; 16], u32)> = vec![];
    let others = if r.chance(1, 32) { *r.pick(&[31, 63, 64, 127, 128, 255, 256, 300]) } else { r.below(4) };
    for _ in 0..others {
        table.push((r.guid(), r.u32()));
    }
    // keys that differ in one bit are other streams
    for base in [editor_guid(), ue5_guid()] {
        if r.chance(1, 3) {
            let mut g = base;
            g[r.usize(16)] ^= 1 << r.below(8);
            table.push((g, r.below(60) as u32));
        }
    }
    let e = r.chance(3, 4).then(|| near(r, EDITOR));
    let u = r.chance(3, 4).then(|| near(r, RELEASE));
    table.extend(e.map(|v| (editor_guid(), v)));
    table.extend(u.map(|v| (ue5_guid(), v)));
    r.shuffle(&mut table);
    let custom = to_custom(&table);
    ctx.eval(format!("{table:?}").as_bytes(), true);
    ctx.sample(|| format!("{major}.{minor}, streams {e:?} {u:?}"));
    let hints: HashMap<String, String> = HashMap::new();
    let mut stack = vec![];
    options(&hints, &mut stack, &custom, |o| {
        let a = must("get_custom_version", || o.get_custom_version::<FEditorObjectVersion>())?;
        let b = must("get_custom_version", || o.get_custom_version::<FUE5ReleaseStreamObjectVersion>())?;
        for (c, g, v) in [(a, editor_guid(), e), (b, ue5_guid(), u)] {
            if c.key.0 != g || c.version != v.unwrap_or(0) {
                return viol("stored version", format!("{c:?}, expected {v:?}"));
            }
        }
        for (steps, v) in [(EDITOR, e), (RELEASE, u)] {
            for s in steps {
                let n = must("step number", s.value)?;
                if n != s.num {
                    return viol("step number", format!("{} is {n}, expected {}", s.name, s.num));
                }
                let got = must("supports_version", || (s.supported)(o))?;
                if got != (v.unwrap_or(0) >= s.num) {
                    return viol("step support", format!("{} ({}) with {v:?}: {got}", s.name, s.num));
                }
            }
        }
        Ok(())
    })?;
    ctx.count("version tables");
    Ok(())
}

/// A release after the last one listed.
fn later(major: u16, minor: u16) -> bool {
    (major == 4 && minor > 27) || (major == 5 && minor > 2) || major > 5
}
/// A release name that none of the listed ones has.
fn fresh(v: EngineVersion) -> bool {
    (0..28).all(|m| engine(4, m) != v)
        && (0..3).all(|m| engine(5, m) != v)
        && !matches!(
            v,
            EngineVersion::VER_UE4_OLDEST_LOADABLE_PACKAGE
                | EngineVersion::VER_UE4_AUTOMATIC_VERSION
                | EngineVersion::VER_UE4_AUTOMATIC_VERSION_PLUS_ONE
        )
}

// ---------------------------------------------------------------------------------
/// What a message has to state, in this order.
fn states(e: &DeserializeError) -> Vec<String> {
    use DeserializeError::*;
    let at = |p: &u64| format!("{p:#x}");
    #[allow(unreachable_patterns)]
    match e {
        InvalidHeader(s) => vec![s.to_string()],
        InvalidValueSize(a, b, p) => vec![a.to_string(), b.to_string(), at(p)],
        InvalidString(n, p) => vec![n.to_string(), at(p)],
        InvalidStringTerminator(t, p) => vec![t.to_string(), at(p)],
        InvalidBoolean(v, p) => vec![v.to_string(), at(p)],
        MissingHint(a, b, p) => vec![a.to_string(), b.to_string(), at(p)],
        MissingArgument(a, p) | InvalidProperty(a, p) => vec![a.to_string(), at(p)],
        InvalidEnumValue(a, v, p) => vec![a.to_string(), v.to_string(), at(p)],
        InvalidArrayIndex(v, p) => vec![v.to_string(), at(p)],
        InvalidTerminator(v, p) => vec![v.to_string(), at(p)],
        FromUtf16Error(_, p) | FromUtf8Error(_, p) => vec![at(p)],
        _ => vec![],
    }
}

fn in_order(text: &str, parts: &[String]) -> bool {
    let mut rest = text;
    parts.iter().all(|p| match rest.find(p.as_str()) {
        Some(i) => {
            rest = &rest[i + p.len()..];
            true
        }
        None => false,
    })
}

fn check_error(e: &Error, ctx: &mut Ctx) -> CR {
    #[allow(unreachable_patterns)]
    let (parts, inner, source) = match e {
        Error::Deserialize(d) => {
            let s = match d {
                DeserializeError::FromUtf8Error(x, _) => Some(x.to_string()),
                DeserializeError::FromUtf16Error(x, _) => Some(x.to_string()),
                _ => None,
            };
            if must("source", || d.source().map(|s| s.to_string()))? != s {
                return viol("error source", format!("{d:?}"));
            }
            (states(d), must("message", || d.to_string())?, s)
        }
        Error::Serialize(x) => {
            let parts = match x {
                SerializeError::InvalidValue(s) => vec![s.to_string()],
                SerializeError::StructMissingField(a, b) => vec![a.to_string(), b.to_string()],
                _ => vec![],
            };
            (parts, must("message", || x.to_string())?, None)
        }
        Error::Io(x) => (vec![], x.to_string(), x.source().map(|s| s.to_string())),
        _ => return Ok(()),
    };
    ctx.eval(inner.as_bytes(), true);
    if !in_order(&inner, &parts) {
        return viol("error text", format!("{e:?}: {inner:?} does not state {parts:?}"));
    }
    let got = must("message", || e.to_string())?;
    if got != inner {
        return viol("wrapped error text", format!("{e:?}: {got:?}, expected {inner:?}"));
    }
    let s = must("source", || e.source().map(|s| s.to_string()))?;
    if s != source {
        return viol("error source", format!("{e:?}: {s:?}, expected {source:?}"));
    }
    Ok(())
}

fn shown_sv(sv: &SV) -> Option<(String, String)> {
    macro_rules! both {
        ($v:expr, $conv:expr, $($n:literal)*) => {{
            let names = [$($n),*];
            let want: String = names.iter().zip($v.iter()).map(|(n, x)| format!("{n}: {} ", $conv(*x))).collect();
            want
        }};
    }
    let f = f32::from_bits;
    let d = f64::from_bits;
    let v = to_sv(sv);
    Some(match (&v, sv) {
        (StructPropertyValue::Vector2F(x), SV::V2F(v)) => (x.to_string(), both!(v, f, "x" "y")),
        (StructPropertyValue::Vector2D(x), SV::V2D(v)) => (x.to_string(), both!(v, d, "x" "y")),
        (StructPropertyValue::VectorF(x), SV::VF(v)) => (x.to_string(), both!(v, f, "x" "y" "z")),
        (StructPropertyValue::VectorD(x), SV::VD(v)) => (x.to_string(), both!(v, d, "x" "y" "z")),
        (StructPropertyValue::RotatorF(x), SV::RF(v)) => (x.to_string(), both!(v, f, "pitch" "yaw" "roll")),
        (StructPropertyValue::RotatorD(x), SV::RD(v)) => (x.to_string(), both!(v, d, "pitch" "yaw" "roll")),
        (StructPropertyValue::QuatF(x), SV::QF(v)) => (x.to_string(), both!(v, f, "x" "y" "z" "w")),
        (StructPropertyValue::QuatD(x), SV::QD(v)) => (x.to_string(), both!(v, d, "x" "y" "z" "w")),
        (StructPropertyValue::LinearColor(x), SV::Color(v)) => (x.to_string(), both!(v, f, "r" "g" "b" "a")),
        (StructPropertyValue::IntPoint(x), SV::IntPoint(v)) => (x.to_string(), both!(v, |i: i32| i, "x" "y")),
        (StructPropertyValue::DateTime(x), SV::DateTime(v)) => (x.to_string(), format!("ticks: {v} ")),
        (StructPropertyValue::Timespan(x), SV::Timespan(v)) => (x.to_string(), format!("ticks: {v} ")),
        _ => return None,
    })
}

pub fn c26_directed() -> u64 {
    2000
}

pub fn c26(idx: u64, r: &mut Rng, ctx: &mut Ctx) -> CR {
    let table = simple_table(r.bool(), r.bool(), r.bool());
    let ver = Ver::of(&table);
    let custom = to_custom(&table);
    let cfg = Cfg::random(r);
    let mut g = Gen::new(r, ver, cfg);
    let h = g.header(vec![]);
    let (a, b) = (g.string(), g.name());
    let nums = [g.int(), g.int(), g.int(), g.int()];
    let kinds = [SK::V2, SK::V, SK::R, SK::Q, SK::DateTime, SK::Timespan, SK::Color, SK::IntPoint];
    let sv = g.sv(kinds[(idx % 8) as usize]);
    drop(g);
    // --- engine version
    let v = FEngineVersion { major: h.major, minor: h.minor, patch: h.patch, change_list: h.changelist, branch: h.branch.clone() };
    let want = format!("{}.{}.{}-{}+++{}", h.major, h.minor, h.patch, h.changelist, h.branch);
    ctx.eval(want.as_bytes(), true);
    let got = must("display", || v.to_string())?;
    if got != want {
        return viol("engine version text", format!("{got:?}, expected {want:?}"));
    }
    // --- struct values
    if let Some((got, want)) = must("display", || shown_sv(&sv))? {
        ctx.eval(want.as_bytes(), true);
        ctx.sample(|| want.clone());
        let words = |s: &str| s.split_whitespace().map(String::from).collect::<Vec<_>>();
        if words(&got) != words(&want) {
            return viol("struct text", format!("{sv:?}: {got:?}, expected {want:?}"));
        }
        ctx.count("struct texts");
    }
    // --- errors of every kind
    let [n, m, p, q] = nums;
    let utf8 = String::from_utf8([a.as_bytes(), &[0xc0 | (n as u8 & 1), 0x80 + (m as u8 & 0x3f)]].concat());
    let utf16 = String::from_utf16(&[0xdc00 + (n as u16 & 0x3ff)]);
    let mut all: Vec<Error> = {
        use DeserializeError::*;
        vec![
            InvalidHeader(a.as_str().into()).into(),
            InvalidValueSize(n, m, p).into(),
            InvalidString(n as i32, p).into(),
            InvalidStringTerminator(n as u16, p).into(),
            InvalidBoolean(n as u32, p).into(),
            MissingHint(a.as_str().into(), b.as_str().into(), p).into(),
            MissingArgument(b.as_str().into(), p).into(),
            InvalidProperty(b.as_str().into(), p).into(),
            InvalidEnumValue(b.as_str().into(), n as i8, p).into(),
            InvalidArrayIndex(q as u32, p).into(),
            InvalidTerminator(q as u8, p).into(),
            SerializeError::InvalidValue(a.as_str().into()).into(),
            SerializeError::StructMissingField(a.as_str().into(), b.as_str().into()).into(),
            std::io::Error::other(a.clone()).into(),
            std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into(),
        ]
    };
    if let Err(e) = utf8 {
        all.push(DeserializeError::FromUtf8Error(e, q).into());
    }
    if let Err(e) = utf16 {
        all.push(DeserializeError::FromUtf16Error(e, q).into());
    }
    for e in &all {
        check_error(e, ctx)?;
    }
    ctx.add("error texts", all.len() as u64);
    // --- helpers note the position of the stream
    let at = *r.pick(&[0, 1, 9, 0x1234, p & 0x7fff_ffff_ffff_ffff]);
    let mut s = Cursor::new(vec![0u8; 3]);
    s.seek(SeekFrom::Start(at)).expect("harness: seek");
    let (x, y, z) = must("error helpers", || {
        (
            DeserializeError::missing_argument(a.as_str(), &mut s),
            DeserializeError::invalid_property(b.clone(), &mut s),
            DeserializeError::invalid_enum_value(a.as_str(), n as i8, &mut s),
        )
    })?;
    let ok = matches!(&x, DeserializeError::MissingArgument(t, i) if **t == *a && *i == at)
        && matches!(&y, DeserializeError::InvalidProperty(t, i) if **t == *b && *i == at)
        && matches!(&z, DeserializeError::InvalidEnumValue(t, v, i) if **t == *a && *v == n as i8 && *i == at)
        && s.position() == at;
    if !ok {
        return viol("error helpers", format!("{x:?} {y:?} {z:?} at {at}, stream at {}", s.position()));
    }
    let (x, y) = must("error helpers", || (SerializeError::invalid_value(a.clone()), SerializeError::struct_missing_field(a.as_str(), b.as_str())))?;
    let ok = matches!(&x, SerializeError::InvalidValue(t) if **t == *a)
        && matches!(&y, SerializeError::StructMissingField(t, f) if **t == *a && **f == *b);
    if !ok {
        return viol("error helpers", format!("{x:?} {y:?}"));
    }
    // --- errors of damaged saves and refused values
    let made = make(small_file(r, idx));
    let (bad, _) = mutate(&made.enc, r);
    if let Err(e) = must("read", || read_file(&bad, false, &made.hints))? {
        check_error(&e, ctx)?;
        ctx.count("errors of damaged saves");
    }
    let lone = Property::StructPropertyValue(to_sv(&sv));
    if let Err(e) = must("property write", || write_prop(&lone, true, &custom))? {
        check_error(&e, ctx)?;
    }
    Ok(())
}
