//! Independent description of a save file. Floats are kept as bit patterns.

#[derive(Clone, Debug, PartialEq)]
pub struct Deleg {
    pub object: String,
    pub func: String,
}

#[derive(Clone, Debug, PartialEq)]
pub enum ByteV {
    Byte(u8),
    Name(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct NumOpts {
    pub sign: bool,
    pub group: bool,
    pub rounding: u8, // 0..=6
    pub digits: [i32; 4],
}

#[derive(Clone, Debug, PartialEq)]
pub enum Arg {
    Int(i32),
    UInt(u32),
    F32(u32),
    F64(u64),
    Text(Box<Text>),
    Int64(i64),
    UInt64(u64),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Hist {
    Empty,
    None(Option<String>),
    Base(Option<String>, Option<String>, Option<String>),
    Named(Box<Text>, Vec<(String, Arg)>),
    Ordered(Box<Text>, Vec<Arg>),
    Argument(Box<Text>, Vec<(String, Arg)>),
    Number(Box<Arg>, Option<NumOpts>, Option<String>),
    Percent(Box<Arg>, Option<NumOpts>, Option<String>),
    Currency(Option<String>, Box<Arg>, Option<NumOpts>, Option<String>),
    Date(u64, u8, String),
    Time(u64, u8, String, String),
    DateTime(u64, u8, u8, String, String),
    Transform(Box<Text>, u8),
    Table(String, String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Text {
    pub flags: u32,
    pub hist: Hist,
}

/// Struct value.
#[derive(Clone, Debug, PartialEq)]
pub enum SV {
    V2F([u32; 2]),
    V2D([u64; 2]),
    VF([u32; 3]),
    VD([u64; 3]),
    RF([u32; 3]),
    RD([u64; 3]),
    QF([u32; 4]),
    QD([u64; 4]),
    DateTime(u64),
    Timespan(u64),
    Guid([u8; 16]),
    Color([u32; 4]),
    IntPoint([i32; 2]),
    Tags(Vec<String>),
    Custom(Vec<(String, Vec<P>)>),
}

/// Struct header info of an array of structs.
#[derive(Clone, Debug, PartialEq)]
pub struct SInfo {
    pub field: String,
    pub ty: String,
    pub guid: [u8; 16],
}

/// A property value.
#[derive(Clone, Debug, PartialEq)]
pub enum P {
    I8(i8),
    Byte(Option<String>, ByteV),
    I16(i16),
    U16(u16),
    I32(i32),
    U32(u32),
    I64(i64),
    U64(u64),
    F32(u32),
    F64(u64),
    Bool(bool),
    Enum(Option<String>, String),
    Str(Option<String>),
    Name(u32, Option<String>),
    Object(String),
    Text(Text),
    Delegate(Deleg),
    MInline(Vec<Deleg>),
    MSparse(Vec<Deleg>),
    FieldPath(Vec<String>, String),
    Struct([u8; 16], String, SV),
    /// Struct without its own tag (set element, map key/value, array-of-struct element).
    SVal(SV),
    Array {
        ty: String,
        info: Option<SInfo>,
        elems: Vec<P>,
    },
    Set {
        ty: String,
        flags: u32,
        elems: Vec<P>,
    },
    Map {
        kt: String,
        vt: String,
        flags: u32,
        entries: Vec<(P, P)>,
    },
    Unknown(String, Vec<u8>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Header {
    pub version: u32, // 2 or 3
    pub pkg: u32,
    pub ue5: u32, // only for version 3
    pub major: u16,
    pub minor: u16,
    pub patch: u16,
    pub changelist: u32,
    pub branch: String,
    pub custom: Vec<([u8; 16], u32)>,
    pub class: String,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pal {
    None,
    Zlib,
    Twice,
}

#[derive(Clone, Debug, PartialEq)]
pub struct File {
    pub pal: Option<Pal>,
    pub header: Header,
    pub props: Vec<(String, P)>,
}

pub fn guid_words(w: [u32; 4]) -> [u8; 16] {
    let mut g = [0u8; 16];
    for i in 0..4 {
        g[i * 4..i * 4 + 4].copy_from_slice(&w[i].to_le_bytes());
    }
    g
}

/// Stream GUIDs and thresholds of the version-dependent layouts.
pub fn editor_guid() -> [u8; 16] {
    guid_words([0xE4B068ED, 0xF49442E9, 0xA231DA0B, 0x2E46BB41])
}
pub fn ue5_guid() -> [u8; 16] {
    guid_words([0xD89B5E42, 0x24BD4D46, 0x8412ACA8, 0xDF641779])
}

/// Layout switches in force for a file.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ver {
    /// 64-bit vectors.
    pub lwc: bool,
    /// 64-bit text arguments.
    pub arg64: bool,
    /// Culture-invariant field in history-less text.
    pub invariant: bool,
}

pub const LWC_VERSION: u32 = 28;
pub const ARG64_VERSION: u32 = 12;
pub const INVARIANT_VERSION: u32 = 32;

impl Ver {
    pub fn of(custom: &[([u8; 16], u32)]) -> Ver {
        let get = |g: [u8; 16]| {
            // a repeated key keeps its last value
            custom.iter().rev().find(|(k, _)| *k == g).map(|(_, v)| *v).unwrap_or(0)
        };
        let u = get(ue5_guid());
        let e = get(editor_guid());
        Ver {
            lwc: u >= LWC_VERSION,
            arg64: u >= ARG64_VERSION,
            invariant: e >= INVARIANT_VERSION,
        }
    }
}

pub fn type_name(p: &P) -> &str {
    match p {
        P::I8(_) => "Int8Property",
        P::Byte(..) => "ByteProperty",
        P::I16(_) => "Int16Property",
        P::U16(_) => "UInt16Property",
        P::I32(_) => "IntProperty",
        P::U32(_) => "UInt32Property",
        P::I64(_) => "Int64Property",
        P::U64(_) => "UInt64Property",
        P::F32(_) => "FloatProperty",
        P::F64(_) => "DoubleProperty",
        P::Bool(_) => "BoolProperty",
        P::Enum(..) => "EnumProperty",
        P::Str(_) => "StrProperty",
        P::Name(..) => "NameProperty",
        P::Object(_) => "ObjectProperty",
        P::Text(_) => "TextProperty",
        P::Delegate(_) => "DelegateProperty",
        P::MInline(_) => "MulticastInlineDelegateProperty",
        P::MSparse(_) => "MulticastSparseDelegateProperty",
        P::FieldPath(..) => "FieldPathProperty",
        P::Struct(..) | P::SVal(_) => "StructProperty",
        P::Array { .. } => "ArrayProperty",
        P::Set { .. } => "SetProperty",
        P::Map { .. } => "MapProperty",
        P::Unknown(t, _) => t,
    }
}

pub const KNOWN_TYPES: &[&str] = &[
    "Int8Property",
    "ByteProperty",
    "Int16Property",
    "UInt16Property",
    "IntProperty",
    "UInt32Property",
    "Int64Property",
    "UInt64Property",
    "FloatProperty",
    "DoubleProperty",
    "BoolProperty",
    "EnumProperty",
    "StrProperty",
    "NameProperty",
    "ObjectProperty",
    "TextProperty",
    "DelegateProperty",
    "MulticastInlineDelegateProperty",
    "MulticastSparseDelegateProperty",
    "FieldPathProperty",
    "StructProperty",
    "ArrayProperty",
    "SetProperty",
    "MapProperty",
];

/// Struct type names with a built-in layout.
pub const BUILTIN_STRUCTS: &[&str] = &[
    "Vector",
    "Vector2D",
    "Rotator",
    "Quat",
    "DateTime",
    "Timespan",
    "LinearColor",
    "IntPoint",
    "Guid",
    "GameplayTagContainer",
];
