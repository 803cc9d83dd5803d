//! Bridge between the model and the library's public types.
use crate::model::*;
use gvas::{
    GvasFile, GvasHeader,
    engine_version::FEngineVersion,
    game_version::{DeserializedGameVersion, PalworldCompressionType},
    properties::{
        Property,
        array_property::ArrayProperty,
        delegate_property::*,
        enum_property::EnumProperty,
        field_path_property::{FieldPath, FieldPathProperty},
        int_property::*,
        map_property::MapProperty,
        name_property::NameProperty,
        object_property::ObjectProperty,
        set_property::SetProperty,
        str_property::StrProperty,
        struct_property::{StructProperty, StructPropertyValue},
        struct_types::*,
        text_property::*,
        unknown_property::UnknownProperty,
    },
    types::{Guid, map::HashableIndexMap},
};
use indexmap::IndexMap;
use ordered_float::OrderedFloat;
use std::hash::{Hash, Hasher};

pub fn f32b(v: u32) -> OrderedFloat<f32> {
    OrderedFloat(f32::from_bits(v))
}
pub fn f64b(v: u64) -> OrderedFloat<f64> {
    OrderedFloat(f64::from_bits(v))
}

pub fn to_deleg(d: &Deleg) -> Delegate {
    Delegate { object: d.object.clone(), function_name: d.func.clone() }
}

pub fn rounding(v: u8) -> RoundingMode {
    match v {
        0 => RoundingMode::HalfToEven,
        1 => RoundingMode::HalfFromZero,
        2 => RoundingMode::HalfToZero,
        3 => RoundingMode::FromZero,
        4 => RoundingMode::ToZero,
        5 => RoundingMode::ToNegativeInfinity,
        _ => RoundingMode::ToPositiveInfinity,
    }
}
pub fn style(v: u8) -> DateTimeStyle {
    match v {
        0 => DateTimeStyle::Default,
        1 => DateTimeStyle::Short,
        2 => DateTimeStyle::Medium,
        3 => DateTimeStyle::Long,
        _ => DateTimeStyle::Full,
    }
}

pub fn to_opts(o: &NumOpts) -> NumberFormattingOptions {
    NumberFormattingOptions {
        always_include_sign: o.sign,
        use_grouping: o.group,
        rounding_mode: rounding(o.rounding),
        minimum_integral_digits: o.digits[0],
        maximum_integral_digits: o.digits[1],
        minimum_fractional_digits: o.digits[2],
        maximum_fractional_digits: o.digits[3],
    }
}

pub fn to_arg(a: &Arg) -> FormatArgumentValue {
    match a {
        Arg::Int(v) => FormatArgumentValue::Int(*v),
        Arg::UInt(v) => FormatArgumentValue::UInt(*v),
        Arg::F32(v) => FormatArgumentValue::Float(f32b(*v)),
        Arg::F64(v) => FormatArgumentValue::Double(f64b(*v)),
        Arg::Text(t) => FormatArgumentValue::Text(to_text(t)),
        Arg::Int64(v) => FormatArgumentValue::Int64(*v),
        Arg::UInt64(v) => FormatArgumentValue::UInt64(*v),
    }
}

fn to_args(a: &[(String, Arg)]) -> HashableIndexMap<String, FormatArgumentValue> {
    HashableIndexMap(a.iter().map(|(k, v)| (k.clone(), to_arg(v))).collect())
}

pub fn to_text(t: &Text) -> FText {
    FText { flags: t.flags, history: to_hist(&t.hist) }
}

pub fn to_hist(h: &Hist) -> FTextHistory {
    match h {
        Hist::Empty => FTextHistory::Empty {},
        Hist::None(s) => FTextHistory::None { culture_invariant_string: s.clone() },
        Hist::Base(a, b, c) => FTextHistory::Base {
            namespace: a.clone(),
            key: b.clone(),
            source_string: c.clone(),
        },
        Hist::Named(t, a) => FTextHistory::NamedFormat {
            source_format: Box::new(to_text(t)),
            arguments: to_args(a),
        },
        Hist::Ordered(t, a) => FTextHistory::OrderedFormat {
            source_format: Box::new(to_text(t)),
            arguments: a.iter().map(to_arg).collect(),
        },
        Hist::Argument(t, a) => FTextHistory::ArgumentFormat {
            source_format: Box::new(to_text(t)),
            arguments: to_args(a),
        },
        Hist::Number(a, o, c) => FTextHistory::AsNumber {
            source_value: Box::new(to_arg(a)),
            format_options: o.as_ref().map(to_opts),
            target_culture: c.clone(),
        },
        Hist::Percent(a, o, c) => FTextHistory::AsPercent {
            source_value: Box::new(to_arg(a)),
            format_options: o.as_ref().map(to_opts),
            target_culture: c.clone(),
        },
        Hist::Currency(code, a, o, c) => FTextHistory::AsCurrency {
            currency_code: code.clone(),
            source_value: Box::new(to_arg(a)),
            format_options: o.as_ref().map(to_opts),
            target_culture: c.clone(),
        },
        Hist::Date(t, s, c) => FTextHistory::AsDate {
            date_time: DateTime { ticks: *t },
            date_style: style(*s),
            target_culture: c.clone(),
        },
        Hist::Time(t, s, z, c) => FTextHistory::AsTime {
            source_date_time: DateTime { ticks: *t },
            time_style: style(*s),
            time_zone: z.clone(),
            target_culture: c.clone(),
        },
        Hist::DateTime(t, d, s, z, c) => FTextHistory::AsDateTime {
            source_date_time: DateTime { ticks: *t },
            date_style: style(*d),
            time_style: style(*s),
            time_zone: z.clone(),
            target_culture: c.clone(),
        },
        Hist::Transform(t, k) => FTextHistory::Transform {
            source_text: Box::new(to_text(t)),
            transform_type: if *k == 0 { TransformType::ToLower } else { TransformType::ToUpper },
        },
        Hist::Table(a, b) => FTextHistory::StringTableEntry { table_id: a.clone(), key: b.clone() },
    }
}

pub fn to_sv(sv: &SV) -> StructPropertyValue {
    use StructPropertyValue as S;
    match sv {
        SV::V2F(v) => S::Vector2F(Vector2F { x: f32b(v[0]), y: f32b(v[1]) }),
        SV::V2D(v) => S::Vector2D(Vector2D { x: f64b(v[0]), y: f64b(v[1]) }),
        SV::VF(v) => S::VectorF(VectorF { x: f32b(v[0]), y: f32b(v[1]), z: f32b(v[2]) }),
        SV::VD(v) => S::VectorD(VectorD { x: f64b(v[0]), y: f64b(v[1]), z: f64b(v[2]) }),
        SV::RF(v) => S::RotatorF(RotatorF { pitch: f32b(v[0]), yaw: f32b(v[1]), roll: f32b(v[2]) }),
        SV::RD(v) => S::RotatorD(RotatorD { pitch: f64b(v[0]), yaw: f64b(v[1]), roll: f64b(v[2]) }),
        SV::QF(v) => S::QuatF(QuatF { x: f32b(v[0]), y: f32b(v[1]), z: f32b(v[2]), w: f32b(v[3]) }),
        SV::QD(v) => S::QuatD(QuatD { x: f64b(v[0]), y: f64b(v[1]), z: f64b(v[2]), w: f64b(v[3]) }),
        SV::DateTime(t) => S::DateTime(DateTime { ticks: *t }),
        SV::Timespan(t) => S::Timespan(Timespan { ticks: *t }),
        SV::Guid(g) => S::Guid(Guid(*g)),
        SV::Color(v) => S::LinearColor(LinearColor {
            r: f32b(v[0]),
            g: f32b(v[1]),
            b: f32b(v[2]),
            a: f32b(v[3]),
        }),
        SV::IntPoint(v) => S::IntPoint(IntPoint { x: v[0], y: v[1] }),
        SV::Tags(v) => S::GameplayTagContainer(v.clone()),
        SV::Custom(m) => S::CustomStruct(HashableIndexMap(
            m.iter().map(|(k, vs)| (k.clone(), vs.iter().map(to_prop).collect())).collect(),
        )),
    }
}

pub fn to_byte(name: &Option<String>, v: &ByteV) -> ByteProperty {
    ByteProperty {
        name: name.clone(),
        value: match v {
            ByteV::Byte(b) => BytePropertyValue::Byte(*b),
            ByteV::Name(s) => BytePropertyValue::Namespaced(s.clone()),
        },
    }
}

fn to_array(ty: &str, info: &Option<SInfo>, elems: &[P]) -> ArrayProperty {
    if let Some(i) = info {
        return ArrayProperty::Structs {
            field_name: i.field.clone(),
            type_name: i.ty.clone(),
            guid: Guid(i.guid),
            structs: elems
                .iter()
                .map(|e| match e {
                    P::SVal(sv) => to_sv(sv),
                    _ => panic!("harness: array of structs with non-struct"),
                })
                .collect(),
        };
    }
    macro_rules! all {
        ($pat:pat => $v:expr) => {
            elems.iter().map(|e| if let $pat = e { Some($v) } else { None }).collect::<Option<Vec<_>>>()
        };
    }
    let compact = match ty {
        "BoolProperty" => all!(P::Bool(b) => *b).map(|bools| ArrayProperty::Bools { bools }),
        "ByteProperty" => {
            all!(P::Byte(None, ByteV::Byte(b)) => *b).map(|bytes| ArrayProperty::Bytes { bytes })
        }
        "EnumProperty" => {
            all!(P::Enum(None, s) => s.clone()).map(|enums| ArrayProperty::Enums { enums })
        }
        "FloatProperty" => all!(P::F32(v) => f32b(*v)).map(|floats| ArrayProperty::Floats { floats }),
        "IntProperty" => all!(P::I32(v) => *v).map(|ints| ArrayProperty::Ints { ints }),
        "NameProperty" => {
            all!(P::Name(0, s) => s.clone()).map(|names| ArrayProperty::Names { names })
        }
        "StrProperty" => {
            all!(P::Str(s) => s.clone()).map(|strings| ArrayProperty::Strings { strings })
        }
        _ => None,
    };
    compact.unwrap_or_else(|| ArrayProperty::Properties {
        property_type: ty.to_string(),
        properties: elems.iter().map(to_prop).collect(),
    })
}

fn to_map(kt: &str, vt: &str, flags: u32, entries: &[(P, P)]) -> MapProperty {
    macro_rules! all {
        ($kp:pat => $k:expr, $vp:pat => $v:expr) => {
            entries
                .iter()
                .map(|e| match e {
                    ($kp, $vp) => Some(($k, $v)),
                    #[allow(unreachable_patterns)]
                    _ => None,
                })
                .collect::<Option<IndexMap<_, _>>>()
                .map(HashableIndexMap)
        };
    }
    let value_type = vt.to_string();
    let compact = if flags != 0 {
        None
    } else {
        match (kt, vt) {
            ("EnumProperty", "BoolProperty") => {
                all!(P::Enum(None, k) => k.clone(), P::Bool(v) => *v)
                    .map(|enum_bools| MapProperty::EnumBool { enum_bools })
            }
            ("EnumProperty", "IntProperty") => all!(P::Enum(None, k) => k.clone(), P::I32(v) => *v)
                .map(|enum_ints| MapProperty::EnumInt { enum_ints }),
            ("EnumProperty", _) => all!(P::Enum(None, k) => k.clone(), v => to_prop(v))
                .map(|enum_props| MapProperty::EnumProperty { value_type: value_type.clone(), enum_props }),
            ("NameProperty", "BoolProperty") => {
                all!(P::Name(0, Some(k)) => k.clone(), P::Bool(v) => *v)
                    .map(|name_bools| MapProperty::NameBool { name_bools })
            }
            ("NameProperty", "IntProperty") => {
                all!(P::Name(0, Some(k)) => k.clone(), P::I32(v) => *v)
                    .map(|name_ints| MapProperty::NameInt { name_ints })
            }
            ("NameProperty", _) => all!(P::Name(0, Some(k)) => k.clone(), v => to_prop(v))
                .map(|name_props| MapProperty::NameProperty { value_type: value_type.clone(), name_props }),
            ("StrProperty", "BoolProperty") => all!(P::Str(Some(k)) => k.clone(), P::Bool(v) => *v)
                .map(|str_bools| MapProperty::StrBool { str_bools }),
            ("StrProperty", "IntProperty") => all!(P::Str(Some(k)) => k.clone(), P::I32(v) => *v)
                .map(|str_ints| MapProperty::StrInt { str_ints }),
            ("StrProperty", "StrProperty") => {
                all!(P::Str(Some(k)) => k.clone(), P::Str(v) => v.clone())
                    .map(|str_strs| MapProperty::StrStr { str_strs })
            }
            ("StrProperty", _) => all!(P::Str(Some(k)) => k.clone(), v => to_prop(v))
                .map(|str_props| MapProperty::StrProperty { value_type: value_type.clone(), str_props }),
            _ => None,
        }
    };
    compact.unwrap_or_else(|| MapProperty::Properties {
        key_type: kt.to_string(),
        value_type,
        allocation_flags: flags,
        value: HashableIndexMap(entries.iter().map(|(k, v)| (to_prop(k), to_prop(v))).collect()),
    })
}

/// The value reading the described bytes produces, built with struct literals only.
pub fn to_prop(p: &P) -> Property {
    match p {
        P::I8(v) => Property::Int8Property(Int8Property { value: *v }),
        P::Byte(n, v) => Property::ByteProperty(to_byte(n, v)),
        P::I16(v) => Property::Int16Property(Int16Property { value: *v }),
        P::U16(v) => Property::UInt16Property(UInt16Property { value: *v }),
        P::I32(v) => Property::IntProperty(IntProperty { value: *v }),
        P::U32(v) => Property::UInt32Property(UInt32Property { value: *v }),
        P::I64(v) => Property::Int64Property(Int64Property { value: *v }),
        P::U64(v) => Property::UInt64Property(UInt64Property { value: *v }),
        P::F32(v) => Property::FloatProperty(FloatProperty { value: f32b(*v) }),
        P::F64(v) => Property::DoubleProperty(DoubleProperty { value: f64b(*v) }),
        P::Bool(v) => Property::BoolProperty(BoolProperty { value: *v }),
        P::Enum(t, v) => Property::EnumProperty(EnumProperty { enum_type: t.clone(), value: v.clone() }),
        P::Str(v) => Property::StrProperty(StrProperty { value: v.clone() }),
        P::Name(i, v) => Property::NameProperty(NameProperty { array_index: *i, value: v.clone() }),
        P::Object(v) => Property::ObjectProperty(ObjectProperty { value: v.clone() }),
        P::Text(t) => Property::TextProperty(TextProperty { value: to_text(t) }),
        P::Delegate(d) => Property::DelegateProperty(DelegateProperty { value: to_deleg(d) }),
        P::MInline(v) => Property::MulticastInlineDelegateProperty(MulticastInlineDelegateProperty {
            value: MulticastScriptDelegate { delegates: v.iter().map(to_deleg).collect() },
        }),
        P::MSparse(v) => Property::MulticastSparseDelegateProperty(MulticastSparseDelegateProperty {
            value: MulticastScriptDelegate { delegates: v.iter().map(to_deleg).collect() },
        }),
        P::FieldPath(v, o) => Property::FieldPathProperty(FieldPathProperty {
            value: FieldPath { path: v.clone(), resolved_owner: o.clone() },
        }),
        P::Struct(g, t, sv) => Property::StructProperty(StructProperty {
            guid: Guid(*g),
            type_name: t.clone(),
            value: to_sv(sv),
        }),
        P::SVal(sv) => Property::StructPropertyValue(to_sv(sv)),
        P::Array { ty, info, elems } => Property::ArrayProperty(to_array(ty, info, elems)),
        P::Set { ty, flags, elems } => Property::SetProperty(SetProperty {
            property_type: ty.clone(),
            allocation_flags: *flags,
            properties: elems.iter().map(to_prop).collect(),
        }),
        P::Map { kt, vt, flags, entries } => Property::MapProperty(to_map(kt, vt, *flags, entries)),
        P::Unknown(t, raw) => Property::UnknownProperty(UnknownProperty::new(t.clone(), raw.clone())),
    }
}

pub fn to_custom(c: &[([u8; 16], u32)]) -> HashableIndexMap<Guid, u32> {
    HashableIndexMap(c.iter().map(|(g, v)| (Guid(*g), *v)).collect())
}

pub fn to_header(h: &Header) -> GvasHeader {
    let engine_version = FEngineVersion {
        major: h.major,
        minor: h.minor,
        patch: h.patch,
        change_list: h.changelist,
        branch: h.branch.clone(),
    };
    let custom_versions = to_custom(&h.custom);
    if h.version == 2 {
        GvasHeader::Version2 {
            package_file_version: h.pkg,
            engine_version,
            custom_version_format: 3,
            custom_versions,
            save_game_class_name: h.class.clone(),
        }
    } else {
        GvasHeader::Version3 {
            package_file_version: h.pkg,
            package_file_version_ue5: h.ue5,
            engine_version,
            custom_version_format: 3,
            custom_versions,
            save_game_class_name: h.class.clone(),
        }
    }
}

pub fn to_pal(p: Pal) -> PalworldCompressionType {
    match p {
        Pal::None => PalworldCompressionType::None,
        Pal::Zlib => PalworldCompressionType::Zlib,
        Pal::Twice => PalworldCompressionType::ZlibTwice,
    }
}

pub fn to_file(f: &File) -> GvasFile {
    GvasFile {
        deserialized_game_version: match f.pal {
            None => DeserializedGameVersion::Default,
            Some(p) => DeserializedGameVersion::Palworld(to_pal(p)),
        },
        header: to_header(&f.header),
        properties: HashableIndexMap(f.props.iter().map(|(k, p)| (k.clone(), to_prop(p))).collect()),
    }
}

// ---------------------------------------------------------------------------------
// Fingerprints: order- and bit-exact content of a library value.

struct Rec<'a>(&'a mut Fp);
impl Hasher for Rec<'_> {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, bytes: &[u8]) {
        self.0.b(bytes);
    }
}

/// Streaming fingerprint plus the set of strings seen, for the UTF-8 observer.
pub struct Fp {
    pub out: Vec<u8>,
    pub bad_utf8: bool,
}

impl Fp {
    fn b(&mut self, b: &[u8]) {
        self.out.extend_from_slice(b);
    }
    fn t(&mut self, t: u8) {
        self.out.push(t);
    }
    fn n(&mut self, n: usize) {
        self.b(&(n as u64).to_le_bytes());
    }
    fn s(&mut self, s: &str) {
        if std::str::from_utf8(s.as_bytes()).is_err() {
            self.bad_utf8 = true;
        }
        self.n(s.len());
        self.b(s.as_bytes());
    }
    fn o(&mut self, s: &Option<String>) {
        match s {
            Some(s) => {
                self.t(1);
                self.s(s)
            }
            None => self.t(0),
        }
    }
    fn f32(&mut self, v: &OrderedFloat<f32>) {
        self.b(&v.0.to_bits().to_le_bytes());
    }
    fn f64(&mut self, v: &OrderedFloat<f64>) {
        self.b(&v.0.to_bits().to_le_bytes());
    }

    pub fn text(&mut self, t: &FText) {
        self.b(&t.flags.to_le_bytes());
        self.hist(&t.history);
    }
    fn args(&mut self, a: &HashableIndexMap<String, FormatArgumentValue>) {
        self.n(a.0.len());
        for (k, v) in &a.0 {
            self.s(k);
            self.arg(v);
        }
    }
    fn opts(&mut self, o: &Option<NumberFormattingOptions>) {
        match o {
            None => self.t(0),
            Some(o) => {
                self.t(1);
                self.t(o.always_include_sign as u8);
                self.t(o.use_grouping as u8);
                self.t(o.rounding_mode as i8 as u8);
                for d in [
                    o.minimum_integral_digits,
                    o.maximum_integral_digits,
                    o.minimum_fractional_digits,
                    o.maximum_fractional_digits,
                ] {
                    self.b(&d.to_le_bytes());
                }
            }
        }
    }
    fn arg(&mut self, a: &FormatArgumentValue) {
        match a {
            FormatArgumentValue::Int(v) => {
                self.t(0);
                self.b(&v.to_le_bytes())
            }
            FormatArgumentValue::UInt(v) => {
                self.t(1);
                self.b(&v.to_le_bytes())
            }
            FormatArgumentValue::Float(v) => {
                self.t(2);
                self.f32(v)
            }
            FormatArgumentValue::Double(v) => {
                self.t(3);
                self.f64(v)
            }
            FormatArgumentValue::Text(t) => {
                self.t(4);
                self.text(t)
            }
            FormatArgumentValue::Int64(v) => {
                self.t(5);
                self.b(&v.to_le_bytes())
            }
            FormatArgumentValue::UInt64(v) => {
                self.t(6);
                self.b(&v.to_le_bytes())
            }
            #[allow(unreachable_patterns)]
            _ => {
                self.t(250);
                self.s(&format!("{a:?}"))
            }
        }
    }
    fn hist(&mut self, h: &FTextHistory) {
        match h {
            FTextHistory::Empty {} => self.t(100),
            FTextHistory::None { culture_invariant_string } => {
                self.t(101);
                self.o(culture_invariant_string)
            }
            FTextHistory::Base { namespace, key, source_string } => {
                self.t(0);
                self.o(namespace);
                self.o(key);
                self.o(source_string)
            }
            FTextHistory::NamedFormat { source_format, arguments } => {
                self.t(1);
                self.text(source_format);
                self.args(arguments)
            }
            FTextHistory::OrderedFormat { source_format, arguments } => {
                self.t(2);
                self.text(source_format);
                self.n(arguments.len());
                arguments.iter().for_each(|a| self.arg(a))
            }
            FTextHistory::ArgumentFormat { source_format, arguments } => {
                self.t(3);
                self.text(source_format);
                self.args(arguments)
            }
            FTextHistory::AsNumber { source_value, format_options, target_culture } => {
                self.t(4);
                self.arg(source_value);
                self.opts(format_options);
                self.o(target_culture)
            }
            FTextHistory::AsPercent { source_value, format_options, target_culture } => {
                self.t(5);
                self.arg(source_value);
                self.opts(format_options);
                self.o(target_culture)
            }
            FTextHistory::AsCurrency { currency_code, source_value, format_options, target_culture } => {
                self.t(6);
                self.o(currency_code);
                self.arg(source_value);
                self.opts(format_options);
                self.o(target_culture)
            }
            FTextHistory::AsDate { date_time, date_style, target_culture } => {
                self.t(7);
                self.b(&date_time.ticks.to_le_bytes());
                self.t(*date_style as i8 as u8);
                self.s(target_culture)
            }
            FTextHistory::AsTime { source_date_time, time_style, time_zone, target_culture } => {
                self.t(8);
                self.b(&source_date_time.ticks.to_le_bytes());
                self.t(*time_style as i8 as u8);
                self.s(time_zone);
                self.s(target_culture)
            }
            FTextHistory::AsDateTime { source_date_time, date_style, time_style, time_zone, target_culture } => {
                self.t(9);
                self.b(&source_date_time.ticks.to_le_bytes());
                self.t(*date_style as i8 as u8);
                self.t(*time_style as i8 as u8);
                self.s(time_zone);
                self.s(target_culture)
            }
            FTextHistory::Transform { source_text, transform_type } => {
                self.t(10);
                self.text(source_text);
                self.t(*transform_type as i8 as u8)
            }
            FTextHistory::StringTableEntry { table_id, key } => {
                self.t(11);
                self.s(table_id);
                self.s(key)
            }
            #[allow(unreachable_patterns)]
            _ => {
                self.t(250);
                self.s(&format!("{h:?}"))
            }
        }
    }

    pub fn sv(&mut self, v: &StructPropertyValue) {
        use StructPropertyValue as S;
        match v {
            S::Vector2F(v) => {
                self.t(0);
                self.f32(&v.x);
                self.f32(&v.y)
            }
            S::Vector2D(v) => {
                self.t(1);
                self.f64(&v.x);
                self.f64(&v.y)
            }
            S::VectorF(v) => {
                self.t(2);
                self.f32(&v.x);
                self.f32(&v.y);
                self.f32(&v.z)
            }
            S::VectorD(v) => {
                self.t(3);
                self.f64(&v.x);
                self.f64(&v.y);
                self.f64(&v.z)
            }
            S::RotatorF(v) => {
                self.t(4);
                self.f32(&v.pitch);
                self.f32(&v.yaw);
                self.f32(&v.roll)
            }
            S::RotatorD(v) => {
                self.t(5);
                self.f64(&v.pitch);
                self.f64(&v.yaw);
                self.f64(&v.roll)
            }
            S::QuatF(v) => {
                self.t(6);
                self.f32(&v.x);
                self.f32(&v.y);
                self.f32(&v.z);
                self.f32(&v.w)
            }
            S::QuatD(v) => {
                self.t(7);
                self.f64(&v.x);
                self.f64(&v.y);
                self.f64(&v.z);
                self.f64(&v.w)
            }
            S::DateTime(v) => {
                self.t(8);
                self.b(&v.ticks.to_le_bytes())
            }
            S::Timespan(v) => {
                self.t(9);
                self.b(&v.ticks.to_le_bytes())
            }
            S::Guid(g) => {
                self.t(10);
                self.b(&g.0)
            }
            S::LinearColor(v) => {
                self.t(11);
                self.f32(&v.r);
                self.f32(&v.g);
                self.f32(&v.b);
                self.f32(&v.a)
            }
            S::IntPoint(v) => {
                self.t(12);
                self.b(&v.x.to_le_bytes());
                self.b(&v.y.to_le_bytes())
            }
            S::GameplayTagContainer(v) => {
                self.t(13);
                self.n(v.len());
                v.iter().for_each(|s| self.s(s))
            }
            S::CustomStruct(m) => {
                self.t(14);
                self.n(m.0.len());
                for (k, vs) in &m.0 {
                    self.s(k);
                    self.n(vs.len());
                    vs.iter().for_each(|v| self.prop(v));
                }
            }
            #[allow(unreachable_patterns)]
            _ => {
                self.t(250);
                self.s(&format!("{v:?}"))
            }
        }
    }

    fn deleg(&mut self, d: &Delegate) {
        self.s(&d.object);
        self.s(&d.function_name);
    }

    pub fn prop(&mut self, p: &Property) {
        match p {
            Property::Int8Property(v) => {
                self.t(0);
                self.b(&v.value.to_le_bytes())
            }
            Property::ByteProperty(v) => {
                self.t(1);
                self.o(&v.name);
                match &v.value {
                    BytePropertyValue::Byte(b) => {
                        self.t(0);
                        self.t(*b)
                    }
                    BytePropertyValue::Namespaced(s) => {
                        self.t(1);
                        self.s(s)
                    }
                }
            }
            Property::Int16Property(v) => {
                self.t(2);
                self.b(&v.value.to_le_bytes())
            }
            Property::UInt16Property(v) => {
                self.t(3);
                self.b(&v.value.to_le_bytes())
            }
            Property::IntProperty(v) => {
                self.t(4);
                self.b(&v.value.to_le_bytes())
            }
            Property::UInt32Property(v) => {
                self.t(5);
                self.b(&v.value.to_le_bytes())
            }
            Property::Int64Property(v) => {
                self.t(6);
                self.b(&v.value.to_le_bytes())
            }
            Property::UInt64Property(v) => {
                self.t(7);
                self.b(&v.value.to_le_bytes())
            }
            Property::FloatProperty(v) => {
                self.t(8);
                self.f32(&v.value)
            }
            Property::DoubleProperty(v) => {
                self.t(9);
                self.f64(&v.value)
            }
            Property::BoolProperty(v) => {
                self.t(10);
                self.t(v.value as u8)
            }
            Property::EnumProperty(v) => {
                self.t(11);
                self.o(&v.enum_type);
                self.s(&v.value)
            }
            Property::StrProperty(v) => {
                self.t(12);
                self.o(&v.value)
            }
            Property::NameProperty(v) => {
                self.t(13);
                self.b(&v.array_index.to_le_bytes());
                self.o(&v.value)
            }
            Property::ObjectProperty(v) => {
                self.t(14);
                self.s(&v.value)
            }
            Property::TextProperty(v) => {
                self.t(15);
                self.text(&v.value)
            }
            Property::DelegateProperty(v) => {
                self.t(16);
                self.deleg(&v.value)
            }
            Property::MulticastInlineDelegateProperty(v) => {
                self.t(17);
                self.n(v.value.delegates.len());
                v.value.delegates.iter().for_each(|d| self.deleg(d))
            }
            Property::MulticastSparseDelegateProperty(v) => {
                self.t(18);
                self.n(v.value.delegates.len());
                v.value.delegates.iter().for_each(|d| self.deleg(d))
            }
            Property::FieldPathProperty(v) => {
                self.t(19);
                self.n(v.value.path.len());
                v.value.path.iter().for_each(|s| self.s(s));
                self.s(&v.value.resolved_owner)
            }
            Property::StructProperty(v) => {
                self.t(20);
                self.b(&v.guid.0);
                self.s(&v.type_name);
                self.sv(&v.value)
            }
            Property::StructPropertyValue(v) => {
                self.t(21);
                self.sv(v)
            }
            Property::ArrayProperty(v) => {
                self.t(22);
                self.array(v)
            }
            Property::SetProperty(v) => {
                self.t(23);
                self.s(&v.property_type);
                self.b(&v.allocation_flags.to_le_bytes());
                self.n(v.properties.len());
                v.properties.iter().for_each(|e| self.prop(e))
            }
            Property::MapProperty(v) => {
                self.t(24);
                self.map(v)
            }
            Property::UnknownProperty(v) => {
                // its fields are private: take what it feeds to a hasher
                self.t(25);
                let start = self.out.len();
                v.hash(&mut Rec(self));
                self.n(start);
                let n = self.out.len() - start;
                self.n(n);
            }
            #[allow(unreachable_patterns)]
            _ => {
                self.t(250);
                self.s(&format!("{p:?}"))
            }
        }
    }

    fn array(&mut self, a: &ArrayProperty) {
        match a {
            ArrayProperty::Bools { bools } => {
                self.t(0);
                self.n(bools.len());
                bools.iter().for_each(|b| self.t(*b as u8))
            }
            ArrayProperty::Bytes { bytes } => {
                self.t(1);
                self.n(bytes.len());
                self.b(bytes)
            }
            ArrayProperty::Enums { enums } => {
                self.t(2);
                self.n(enums.len());
                enums.iter().for_each(|s| self.s(s))
            }
            ArrayProperty::Floats { floats } => {
                self.t(3);
                self.n(floats.len());
                floats.iter().for_each(|f| self.f32(f))
            }
            ArrayProperty::Ints { ints } => {
                self.t(4);
                self.n(ints.len());
                ints.iter().for_each(|i| self.b(&i.to_le_bytes()))
            }
            ArrayProperty::Names { names } => {
                self.t(5);
                self.n(names.len());
                names.iter().for_each(|s| self.o(s))
            }
            ArrayProperty::Strings { strings } => {
                self.t(6);
                self.n(strings.len());
                strings.iter().for_each(|s| self.o(s))
            }
            ArrayProperty::Structs { field_name, type_name, guid, structs } => {
                self.t(7);
                self.s(field_name);
                self.s(type_name);
                self.b(&guid.0);
                self.n(structs.len());
                structs.iter().for_each(|s| self.sv(s))
            }
            ArrayProperty::Properties { property_type, properties } => {
                self.t(8);
                self.s(property_type);
                self.n(properties.len());
                properties.iter().for_each(|p| self.prop(p))
            }
            #[allow(unreachable_patterns)]
            _ => {
                self.t(250);
                self.s(&format!("{a:?}"))
            }
        }
    }

    fn map(&mut self, m: &MapProperty) {
        macro_rules! each {
            ($t:expr, $m:expr, |$v:ident| $e:expr) => {{
                self.t($t);
                self.n($m.0.len());
                for (k, $v) in &$m.0 {
                    self.s(k);
                    $e;
                }
            }};
        }
        match m {
            MapProperty::EnumBool { enum_bools } => each!(0, enum_bools, |v| self.t(*v as u8)),
            MapProperty::EnumInt { enum_ints } => each!(1, enum_ints, |v| self.b(&v.to_le_bytes())),
            MapProperty::EnumProperty { value_type, enum_props } => {
                self.s(value_type);
                each!(2, enum_props, |v| self.prop(v))
            }
            MapProperty::NameBool { name_bools } => each!(3, name_bools, |v| self.t(*v as u8)),
            MapProperty::NameInt { name_ints } => each!(4, name_ints, |v| self.b(&v.to_le_bytes())),
            MapProperty::NameProperty { value_type, name_props } => {
                self.s(value_type);
                each!(5, name_props, |v| self.prop(v))
            }
            MapProperty::Properties { key_type, value_type, allocation_flags, value } => {
                self.t(6);
                self.s(key_type);
                self.s(value_type);
                self.b(&allocation_flags.to_le_bytes());
                self.n(value.0.len());
                for (k, v) in &value.0 {
                    self.prop(k);
                    self.prop(v);
                }
            }
            MapProperty::StrBool { str_bools } => each!(7, str_bools, |v| self.t(*v as u8)),
            MapProperty::StrInt { str_ints } => each!(8, str_ints, |v| self.b(&v.to_le_bytes())),
            MapProperty::StrProperty { value_type, str_props } => {
                self.s(value_type);
                each!(9, str_props, |v| self.prop(v))
            }
            MapProperty::StrStr { str_strs } => each!(10, str_strs, |v| self.o(v)),
            #[allow(unreachable_patterns)]
            _ => {
                self.t(250);
                self.s(&format!("{m:?}"))
            }
        }
    }

    pub fn header(&mut self, h: &GvasHeader) {
        let (ev, fmt, custom, class) = match h {
            GvasHeader::Version2 {
                package_file_version,
                engine_version,
                custom_version_format,
                custom_versions,
                save_game_class_name,
            } => {
                self.t(2);
                self.b(&package_file_version.to_le_bytes());
                (engine_version, custom_version_format, custom_versions, save_game_class_name)
            }
            GvasHeader::Version3 {
                package_file_version,
                package_file_version_ue5,
                engine_version,
                custom_version_format,
                custom_versions,
                save_game_class_name,
            } => {
                self.t(3);
                self.b(&package_file_version.to_le_bytes());
                self.b(&package_file_version_ue5.to_le_bytes());
                (engine_version, custom_version_format, custom_versions, save_game_class_name)
            }
        };
        self.b(&ev.major.to_le_bytes());
        self.b(&ev.minor.to_le_bytes());
        self.b(&ev.patch.to_le_bytes());
        self.b(&ev.change_list.to_le_bytes());
        self.s(&ev.branch);
        self.b(&fmt.to_le_bytes());
        self.n(custom.0.len());
        for (g, v) in &custom.0 {
            self.b(&g.0);
            self.b(&v.to_le_bytes());
        }
        self.s(class);
    }

    pub fn file(&mut self, f: &GvasFile) {
        self.t(match f.deserialized_game_version {
            DeserializedGameVersion::Default => 0,
            DeserializedGameVersion::Palworld(PalworldCompressionType::None) => 1,
            DeserializedGameVersion::Palworld(PalworldCompressionType::Zlib) => 2,
            DeserializedGameVersion::Palworld(PalworldCompressionType::ZlibTwice) => 3,
            #[allow(unreachable_patterns)]
            _ => 250,
        });
        self.header(&f.header);
        self.n(f.properties.0.len());
        for (k, p) in &f.properties.0 {
            self.s(k);
            self.prop(p);
        }
    }
}

/// Ends a fingerprint that contains a string which is not UTF-8.
pub const BAD_UTF8: &[u8] = b"!!invalid utf-8 in a string!!";

pub fn fp<T>(f: impl FnOnce(&mut Fp) -> T) -> Vec<u8> {
    let mut x = Fp { out: Vec::new(), bad_utf8: false };
    f(&mut x);
    if x.bad_utf8 {
        x.out.extend_from_slice(BAD_UTF8);
    }
    x.out
}
pub fn fp_prop(p: &Property) -> Vec<u8> {
    fp(|f| f.prop(p))
}
pub fn fp_file(p: &GvasFile) -> Vec<u8> {
    fp(|f| f.file(p))
}
pub fn fp_header(p: &GvasHeader) -> Vec<u8> {
    fp(|f| f.header(p))
}
pub fn fp_text(p: &FText) -> Vec<u8> {
    fp(|f| f.text(p))
}
