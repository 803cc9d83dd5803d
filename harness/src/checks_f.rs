//! C28: the JSON form of every value, described independently of the library.
use crate::checks_a::*;
use crate::conv::*;
use crate::ctx::*;
use crate::edit::*;
use crate::model::*;
use crate::rng::Rng;
use gvas::GvasFile;
use gvas::properties::Property;
use serde_json::{Map, Number, Value};

/// A JSON tree that knows what each place may hold.
enum J {
    Bool(bool),
    Int { v: i128, lo: i128, hi: i128 },
    Float(f64),
    Text(String),
    /// One of a fixed set of words.
    Word(String),
    Guid([u8; 16]),
    Hex(Vec<u8>),
    Null,
    List(Vec<J>),
    /// Names are data.
    Map(Vec<(String, J)>),
    /// Names are fixed, their order is free.
    Obj(Vec<F>),
}

struct F {
    name: &'static str,
    v: J,
    kind: Need,
}

#[derive(PartialEq)]
enum Need {
    Always,
    /// Given, but readers do without it.
    Optional,
    /// Left out by writers, understood by readers.
    LeftOut,
}

fn f(name: &'static str, v: J) -> F {
    F { name, v, kind: Need::Always }
}
fn unless(name: &'static str, left_out: bool, v: J) -> F {
    F { name, v, kind: if left_out { Need::LeftOut } else { Need::Optional } }
}
fn opt(name: &'static str, s: &Option<String>) -> F {
    unless(name, s.is_none(), otext(s))
}
fn text(s: &str) -> J {
    J::Text(s.into())
}
fn otext(s: &Option<String>) -> J {
    s.as_ref().map_or(J::Null, |s| text(s))
}
fn word(s: &str) -> J {
    J::Word(s.into())
}
fn f32j(b: u32) -> J {
    J::Float(f32::from_bits(b) as f64)
}
fn f64j(b: u64) -> J {
    J::Float(f64::from_bits(b))
}
macro_rules! int {
    ($t:ty, $v:expr) => {
        J::Int { v: $v as i128, lo: <$t>::MIN as i128, hi: <$t>::MAX as i128 }
    };
}
fn guid_text(g: &[u8; 16]) -> String {
    if *g == [0; 16] {
        return "0".into();
    }
    let h: String = g.iter().map(|b| format!("{b:02X}")).collect();
    format!("{}-{}-{}-{}-{}", &h[..8], &h[8..12], &h[12..16], &h[16..20], &h[20..])
}
fn guid(g: &[u8; 16]) -> F {
    unless("guid", *g == [0; 16], J::Guid(*g))
}

fn deleg(d: &Deleg) -> J {
    J::Obj(vec![f("object", text(&d.object)), f("function_name", text(&d.func))])
}
fn delegs(v: &[Deleg]) -> J {
    J::Obj(vec![f("delegates", J::List(v.iter().map(deleg).collect()))])
}
fn ticks(t: u64) -> J {
    J::Obj(vec![f("ticks", int!(u64, t))])
}

const ROUNDING: [&str; 7] =
    ["HalfToEven", "HalfFromZero", "HalfToZero", "FromZero", "ToZero", "ToNegativeInfinity", "ToPositiveInfinity"];
const STYLE: [&str; 5] = ["Default", "Short", "Medium", "Long", "Full"];

fn num_opts(o: &Option<NumOpts>) -> F {
    let v = o.as_ref().map_or(J::Null, |o| {
        J::Obj(vec![
            f("always_include_sign", J::Bool(o.sign)),
            f("use_grouping", J::Bool(o.group)),
            f("rounding", word(ROUNDING[o.rounding as usize])),
            f("minimum_integral_digits", int!(i32, o.digits[0])),
            f("maximum_integral_digits", int!(i32, o.digits[1])),
            f("minimum_fractional_digits", int!(i32, o.digits[2])),
            f("maximum_fractional_digits", int!(i32, o.digits[3])),
        ])
    });
    unless("format_options", o.is_none(), v)
}
fn arg(a: &Arg) -> J {
    J::Obj(vec![match a {
        Arg::Int(v) => f("Int", int!(i32, *v)),
        Arg::UInt(v) => f("UInt", int!(u32, *v)),
        Arg::F32(v) => f("Float", f32j(*v)),
        Arg::F64(v) => f("Double", f64j(*v)),
        Arg::Text(t) => f("Text", J::Obj(ftext(t))),
        Arg::Int64(v) => f("Int64", int!(i64, *v)),
        Arg::UInt64(v) => f("UInt64", int!(u64, *v)),
    }])
}
fn args(a: &[(String, Arg)]) -> F {
    f("arguments", J::Map(a.iter().map(|(k, v)| (k.clone(), arg(v))).collect()))
}
fn ftext(t: &Text) -> Vec<F> {
    let h = |s: &str| f("history", word(s));
    let src = |t: &Text| f("source_format", J::Obj(ftext(t)));
    let style = |n, s: u8| f(n, word(STYLE[s as usize]));
    let mut v = match &t.hist {
        Hist::Empty => vec![h("Empty")],
        Hist::None(s) => vec![h("None"), opt("culture_invariant_string", s)],
        Hist::Base(a, b, c) => vec![h("Base"), opt("namespace", a), opt("key", b), opt("source_string", c)],
        Hist::Named(t, a) => vec![h("NamedFormat"), src(t), args(a)],
        Hist::Ordered(t, a) => vec![h("OrderedFormat"), src(t), f("arguments", J::List(a.iter().map(arg).collect()))],
        Hist::Argument(t, a) => vec![h("ArgumentFormat"), src(t), args(a)],
        Hist::Number(a, o, c) => vec![h("AsNumber"), f("source_value", arg(a)), num_opts(o), opt("target_culture", c)],
        Hist::Percent(a, o, c) => vec![h("AsPercent"), f("source_value", arg(a)), num_opts(o), opt("target_culture", c)],
        Hist::Currency(n, a, o, c) => vec![
            h("AsCurrency"),
            opt("currency_code", n),
            f("source_value", arg(a)),
            num_opts(o),
            opt("target_culture", c),
        ],
        Hist::Date(t, s, c) => {
            vec![h("AsDate"), f("date_time", ticks(*t)), style("date_style", *s), f("target_culture", text(c))]
        }
        Hist::Time(t, s, z, c) => vec![
            h("AsTime"),
            f("source_date_time", ticks(*t)),
            style("time_style", *s),
            f("time_zone", text(z)),
            f("target_culture", text(c)),
        ],
        Hist::DateTime(t, d, s, z, c) => vec![
            h("AsDateTime"),
            f("source_date_time", ticks(*t)),
            style("date_style", *d),
            style("time_style", *s),
            f("time_zone", text(z)),
            f("target_culture", text(c)),
        ],
        Hist::Transform(t, k) => vec![
            h("Transform"),
            f("source_text", J::Obj(ftext(t))),
            f("transform", word(if *k == 0 { "ToLower" } else { "ToUpper" })),
        ],
        Hist::Table(a, b) => vec![h("StringTableEntry"), f("table_id", text(a)), f("key", text(b))],
    };
    v.push(unless("flags", t.flags == 0, int!(u32, t.flags)));
    v
}

fn fields<T: Copy>(names: &[&'static str], v: &[T], j: fn(T) -> J) -> J {
    J::Obj(names.iter().zip(v).map(|(n, x)| f(n, j(*x))).collect())
}
const XYZW: [&str; 4] = ["x", "y", "z", "w"];
const PYR: [&str; 3] = ["pitch", "yaw", "roll"];
fn sval(s: &SV) -> F {
    match s {
        SV::V2F(v) => f("Vector2F", fields(&XYZW[..2], v, f32j)),
        SV::V2D(v) => f("Vector2D", fields(&XYZW[..2], v, f64j)),
        SV::VF(v) => f("VectorF", fields(&XYZW[..3], v, f32j)),
        SV::VD(v) => f("VectorD", fields(&XYZW[..3], v, f64j)),
        SV::RF(v) => f("RotatorF", fields(&PYR, v, f32j)),
        SV::RD(v) => f("RotatorD", fields(&PYR, v, f64j)),
        SV::QF(v) => f("QuatF", fields(&XYZW, v, f32j)),
        SV::QD(v) => f("QuatD", fields(&XYZW, v, f64j)),
        SV::DateTime(t) => f("DateTime", ticks(*t)),
        SV::Timespan(t) => f("Timespan", ticks(*t)),
        SV::Guid(g) => f("Guid", J::Guid(*g)),
        SV::Color(v) => f("LinearColor", fields(&["r", "g", "b", "a"], v, f32j)),
        SV::IntPoint(v) => f("IntPoint", fields(&XYZW[..2], v, |x: i32| int!(i32, x))),
        SV::Tags(v) => f("GameplayTagContainer", J::List(v.iter().map(|s| text(s)).collect())),
        SV::Custom(m) => f(
            "CustomStruct",
            J::Map(m.iter().map(|(k, v)| (k.clone(), J::List(v.iter().map(prop).collect()))).collect()),
        ),
    }
}

fn array(ty: &str, info: &Option<SInfo>, elems: &[P]) -> Vec<F> {
    if let Some(i) = info {
        let one = |e: &P| match e {
            P::SVal(s) => J::Obj(vec![sval(s)]),
            _ => panic!("harness: array of structs with non-struct"),
        };
        return vec![
            f("field_name", text(&i.field)),
            f("type_name", text(&i.ty)),
            guid(&i.guid),
            f("structs", J::List(elems.iter().map(one).collect())),
        ];
    }
    macro_rules! all {
        ($n:expr, $pat:pat => $v:expr) => {
            elems.iter().map(|e| if let $pat = e { Some($v) } else { None }).collect::<Option<Vec<_>>>().map(|v| vec![f($n, J::List(v))])
        };
    }
    let compact = match ty {
        "BoolProperty" => all!("bools", P::Bool(b) => J::Bool(*b)),
        "ByteProperty" => elems
            .iter()
            .map(|e| if let P::Byte(None, ByteV::Byte(b)) = e { Some(*b) } else { None })
            .collect::<Option<Vec<_>>>()
            .map(|b| vec![f("bytes", J::Hex(b))]),
        "EnumProperty" => all!("enums", P::Enum(None, s) => text(s)),
        "FloatProperty" => all!("floats", P::F32(v) => f32j(*v)),
        "IntProperty" => all!("ints", P::I32(v) => int!(i32, *v)),
        "NameProperty" => all!("names", P::Name(0, s) => otext(s)),
        "StrProperty" => all!("strings", P::Str(s) => otext(s)),
        _ => None,
    };
    compact.unwrap_or_else(|| {
        vec![f("property_type", text(ty)), f("properties", J::List(elems.iter().map(prop).collect()))]
    })
}

fn map(kt: &str, vt: &str, flags: u32, entries: &[(P, P)]) -> Vec<F> {
    let key = |p: &P| match p {
        P::Enum(None, k) | P::Name(0, Some(k)) | P::Str(Some(k)) => Some(k.clone()),
        _ => None,
    };
    let names = match kt {
        "EnumProperty" => ["enum_bools", "enum_ints", "", "enum_props"],
        "NameProperty" => ["name_bools", "name_ints", "", "name_props"],
        "StrProperty" => ["str_bools", "str_ints", "str_strs", "str_props"],
        _ => [""; 4],
    };
    let keys: Option<Vec<String>> = entries.iter().map(|(k, _)| key(k)).collect();
    if flags == 0
        && !names[3].is_empty()
        && let Some(keys) = keys
    {
        let vals: Option<(&'static str, Vec<J>)> = match (vt, names[2]) {
            ("BoolProperty", _) => entries.iter().map(|(_, v)| if let P::Bool(b) = v { Some(J::Bool(*b)) } else { None }).collect::<Option<_>>().map(|v| (names[0], v)),
            ("IntProperty", _) => entries.iter().map(|(_, v)| if let P::I32(b) = v { Some(int!(i32, *b)) } else { None }).collect::<Option<_>>().map(|v| (names[1], v)),
            ("StrProperty", "str_strs") => entries.iter().map(|(_, v)| if let P::Str(s) = v { Some(otext(s)) } else { None }).collect::<Option<_>>().map(|v| (names[2], v)),
            _ => Some((names[3], entries.iter().map(|(_, v)| prop(v)).collect())),
        };
        if let Some((name, vals)) = vals {
            let mut v = vec![];
            if name == names[3] {
                v.push(f("value_type", text(vt)));
            }
            v.push(f(name, J::Map(keys.into_iter().zip(vals).collect())));
            return v;
        }
    }
    vec![
        f("key_type", text(kt)),
        f("value_type", text(vt)),
        f("allocation_flags", int!(u32, flags)),
        f("value", J::List(entries.iter().map(|(k, v)| J::List(vec![prop(k), prop(v)])).collect())),
    ]
}

fn prop(p: &P) -> J {
    let value = |v: J| vec![f("value", v)];
    let mut ty = type_name(p);
    let mut v = match p {
        P::I8(v) => value(int!(i8, *v)),
        P::Byte(n, v) => vec![
            opt("name", n),
            match v {
                ByteV::Byte(b) => f("Byte", int!(u8, *b)),
                ByteV::Name(s) => f("Namespaced", text(s)),
            },
        ],
        P::I16(v) => value(int!(i16, *v)),
        P::U16(v) => value(int!(u16, *v)),
        P::I32(v) => value(int!(i32, *v)),
        P::U32(v) => value(int!(u32, *v)),
        P::I64(v) => value(int!(i64, *v)),
        P::U64(v) => value(int!(u64, *v)),
        P::F32(v) => value(f32j(*v)),
        P::F64(v) => value(f64j(*v)),
        P::Bool(v) => value(J::Bool(*v)),
        P::Enum(t, v) => vec![opt("enum_type", t), f("value", text(v))],
        P::Str(v) => vec![opt("value", v)],
        P::Name(i, v) => vec![unless("array_index", *i == 0, int!(u32, *i)), opt("value", v)],
        P::Object(v) => value(text(v)),
        P::Text(t) => ftext(t),
        P::Delegate(d) => value(deleg(d)),
        P::MInline(v) | P::MSparse(v) => value(delegs(v)),
        P::FieldPath(v, o) => value(J::Obj(vec![
            f("path", J::List(v.iter().map(|s| text(s)).collect())),
            f("resolved_owner", text(o)),
        ])),
        P::Struct(g, t, s) => vec![guid(g), f("type_name", text(t)), sval(s)],
        P::SVal(s) => {
            ty = "StructPropertyValue";
            vec![sval(s)]
        }
        P::Array { ty, info, elems } => array(ty, info, elems),
        P::Set { ty, flags, elems } => vec![
            f("property_type", text(ty)),
            f("allocation_flags", int!(u32, *flags)),
            f("properties", J::List(elems.iter().map(prop).collect())),
        ],
        P::Map { kt, vt, flags, entries } => map(kt, vt, *flags, entries),
        P::Unknown(t, raw) => {
            ty = "UnknownProperty";
            vec![f("property_name", text(t)), f("raw", J::List(raw.iter().map(|b| int!(u8, *b)).collect()))]
        }
    };
    v.insert(0, f("type", word(ty)));
    J::Obj(v)
}

fn file(m: &File) -> J {
    let h = &m.header;
    let mut head = vec![
        f("type", word(if h.version == 2 { "Version2" } else { "Version3" })),
        f("package_file_version", int!(u32, h.pkg)),
    ];
    if h.version != 2 {
        head.push(f("package_file_version_ue5", int!(u32, h.ue5)));
    }
    head.push(f(
        "engine_version",
        J::Obj(vec![
            f("major", int!(u16, h.major)),
            f("minor", int!(u16, h.minor)),
            f("patch", int!(u16, h.patch)),
            f("change_list", int!(u32, h.changelist)),
            f("branch", text(&h.branch)),
        ]),
    ));
    head.push(f("custom_version_format", int!(u32, 3)));
    head.push(f(
        "custom_versions",
        J::Map(h.custom.iter().map(|(k, v)| (guid_text(k), int!(u32, *v))).collect()),
    ));
    head.push(f("save_game_class_name", text(&h.class)));
    let game = match m.pal {
        None => word("Default"),
        Some(p) => J::Obj(vec![f(
            "Palworld",
            word(match p {
                Pal::None => "None",
                Pal::Zlib => "Zlib",
                Pal::Twice => "ZlibTwice",
            }),
        )]),
    };
    J::Obj(vec![
        unless("deserialized_game_version", m.pal.is_none(), game),
        f("header", J::Obj(head)),
        f("properties", J::Map(m.props.iter().map(|(k, p)| (k.clone(), prop(p))).collect())),
    ])
}

fn int_value(v: i128) -> Value {
    if let Ok(v) = u64::try_from(v) {
        Value::from(v)
    } else if let Ok(v) = i64::try_from(v) {
        Value::from(v)
    } else {
        // what a JSON parser makes of it
        Value::from(v as f64)
    }
}

impl J {
    /// The tree as written, or with `r` in another order and with defaults given.
    fn tree(&self, r: &mut Option<Rng>) -> Value {
        match self {
            J::Bool(b) => Value::Bool(*b),
            J::Int { v, .. } => int_value(*v),
            J::Float(v) => Number::from_f64(*v).map_or(Value::Null, Value::Number),
            J::Text(s) | J::Word(s) => Value::String(s.clone()),
            J::Guid(g) => Value::String(guid_text(g)),
            J::Hex(b) => Value::String(hex(b)),
            J::Null => Value::Null,
            J::List(v) => Value::Array(v.iter().map(|j| j.tree(r)).collect()),
            J::Map(v) => Value::Object(v.iter().map(|(k, j)| (k.clone(), j.tree(r))).collect()),
            J::Obj(v) => {
                let mut out: Vec<(String, Value)> = vec![];
                for x in v {
                    let keep = x.kind != Need::LeftOut || r.as_mut().is_some_and(|r| r.chance(1, 3));
                    if keep {
                        out.push((x.name.into(), x.v.tree(r)));
                    }
                }
                if let Some(r) = r {
                    r.shuffle(&mut out);
                }
                Value::Object(out.into_iter().collect::<Map<_, _>>())
            }
        }
    }

    /// Number of places where the tree can be damaged.
    fn places(&self) -> usize {
        match self {
            J::Null => 0,
            J::List(v) => v.iter().map(|j| j.places()).sum(),
            J::Map(v) => v.iter().map(|(_, j)| j.places()).sum(),
            J::Obj(v) => v
                .iter()
                .filter(|x| x.kind != Need::LeftOut)
                .map(|x| x.v.places() + (x.kind == Need::Always) as usize)
                .sum(),
            _ => 1,
        }
    }

    /// The tree with the place number `n` damaged.
    fn damaged(&self, n: &mut usize, r: &mut Rng, what: &mut String) -> Value {
        let mut hit = || {
            let h = *n == 0;
            *n = n.wrapping_sub(1);
            h
        };
        match self {
            J::Null => Value::Null,
            J::List(v) => Value::Array(v.iter().map(|j| j.damaged(n, r, what)).collect()),
            J::Map(v) => Value::Object(v.iter().map(|(k, j)| (k.clone(), j.damaged(n, r, what))).collect()),
            J::Obj(v) => {
                let mut out = Map::new();
                for x in v.iter().filter(|x| x.kind != Need::LeftOut) {
                    if x.kind == Need::Always {
                        let h = *n == 0;
                        *n = n.wrapping_sub(1);
                        if h {
                            *what = format!("without {:?}", x.name);
                            continue;
                        }
                    }
                    out.insert(x.name.into(), x.v.damaged(n, r, what));
                }
                Value::Object(out)
            }
            _ => {
                if !hit() {
                    return self.tree(&mut None);
                }
                let bad = match self {
                    J::Bool(b) => [Value::from(*b as u8), Value::from(b.to_string())][r.usize(2)].clone(),
                    J::Int { v, lo, hi } => match r.below(4) {
                        0 => int_value(hi + 1),
                        1 => int_value(lo - 1),
                        2 => Value::from(v.to_string()),
                        _ => Value::from(0.5),
                    },
                    J::Float(v) => Value::from(v.to_string()),
                    J::Text(_) => [Value::from(5), Value::Bool(true), Value::Array(vec![])][r.usize(3)].clone(),
                    J::Word(s) => match r.below(3) {
                        0 => Value::from(format!("{s}_")),
                        1 => Value::from(s.to_lowercase()),
                        _ => Value::from(""),
                    },
                    J::Guid(_) => [Value::from("0-1"), Value::from("G0"), Value::from(0)][r.usize(3)].clone(),
                    J::Hex(b) => [Value::from(hex(b) + "0"), Value::from(hex(b) + "zz"), Value::from(b.len())][r.usize(3)].clone(),
                    _ => Value::Null,
                };
                *what = format!("with {} in place of {}", bad, self.tree(&mut None));
                bad
            }
        }
    }
}

fn tree_diff(path: &str, a: &Value, b: &Value) -> Option<String> {
    if a == b { None } else { first_diff(path, a, b).or(Some(path.into())) }
}

/// Where two trees first differ.
fn first_diff(path: &str, a: &Value, b: &Value) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x {
                match y.get(k) {
                    Some(w) => {
                        if let Some(d) = first_diff(&format!("{path}.{k}"), v, w) {
                            return Some(d);
                        }
                    }
                    None => return Some(format!("{path}: {k:?} is missing")),
                }
            }
            y.keys().find(|k| !x.contains_key(*k)).map(|k| format!("{path}: unexpected {k:?}"))
        }
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() {
                return Some(format!("{path}: {} elements instead of {}", y.len(), x.len()));
            }
            x.iter().zip(y).enumerate().find_map(|(i, (v, w))| first_diff(&format!("{path}[{i}]"), v, w))
        }
        _ if a == b => None,
        _ => Some(format!("{path}: {} instead of {}", short(b), short(a))),
    }
}
fn short(v: &Value) -> String {
    v.to_string().chars().take(200).collect()
}

pub fn c28(idx: u64, r: &mut Rng, ctx: &mut Ctx) -> CR {
    let mut m = case_file(r, idx, true);
    m.props.iter_mut().for_each(|(_, p)| finite(p));
    if m.props.iter().any(|(_, p)| has_dups(p)) {
        return Ok(());
    }
    let made = make(m);
    let v = must("building a file", || made.value())?;
    ctx.sample(|| made.describe());
    let j = file(&made.m);
    let want = j.tree(&mut None);
    ctx.eval(&made.enc.buf, made.nontrivial());
    // the tree written
    let got = match must("to JSON", || serde_json::to_value(&v))? {
        Ok(t) => t,
        Err(e) => return viol_in("to JSON failed", e.to_string(), &made.enc.buf),
    };
    if let Some(d) = tree_diff("file", &want, &got) {
        return viol_in("JSON form", format!("the JSON form differs: {d}"), &made.enc.buf);
    }
    // the described tree read, fields in any order
    let text = j.tree(&mut Some(r.clone())).to_string();
    ctx.eval(text.as_bytes(), made.nontrivial());
    match must("from JSON", || serde_json::from_str::<GvasFile>(&text))? {
        Ok(f) => {
            let (a, b) = must("inspect", || (fp_file(&v), fp_file(&f)))?;
            if a != b {
                return viol_in("JSON reading", format!("JSON was read wrong: {}", diff(&a, &b)), text.as_bytes());
            }
        }
        Err(e) => {
            return viol_in("JSON rejected", format!("{e}: {}", text.chars().take(300).collect::<String>()), text.as_bytes());
        }
    }
    // damaged trees
    let n = j.places();
    for _ in 0..if n > 20_000 { 1 } else { 3 } {
        let mut at = r.usize(n);
        let mut what = String::new();
        let text = j.damaged(&mut at, r, &mut what).to_string();
        ctx.eval(text.as_bytes(), true);
        if must("from JSON", || serde_json::from_str::<GvasFile>(&text).is_ok())? {
            return viol_in("damaged JSON accepted", format!("a file was accepted {what}"), text.as_bytes());
        }
        ctx.count("damaged, rejected");
    }
    // one property on its own
    if !made.m.props.is_empty() && n <= 20_000 {
        let (_, p) = r.pick(&made.m.props);
        let j = prop(p);
        let lp = to_prop(p);
        let got = match must("to JSON", || serde_json::to_value(&lp))? {
            Ok(t) => t,
            Err(e) => return viol("property to JSON failed", e.to_string()),
        };
        if let Some(d) = tree_diff("property", &j.tree(&mut None), &got) {
            return viol("property JSON form", format!("the JSON form differs: {d}"));
        }
        let tree = j.tree(&mut Some(r.clone()));
        match must("from JSON", || serde_json::from_value::<Property>(tree.clone()))? {
            Ok(q) if fp_prop(&q) == fp_prop(&lp) => {}
            Ok(q) => return viol("property JSON reading", diff(&fp_prop(&lp), &fp_prop(&q))),
            Err(e) => return viol("property JSON rejected", format!("{e}: {}", short(&tree))),
        }
    }
    Ok(())
}
