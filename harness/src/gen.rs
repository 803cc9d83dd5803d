//! Seeded generator of well-formed models.
use crate::dict::Dict;
use crate::model::*;
use crate::rng::Rng;
use std::collections::HashMap;
use std::sync::OnceLock;

static DICT: OnceLock<Dict> = OnceLock::new();
pub fn dict() -> &'static Dict {
    DICT.get_or_init(|| if cfg!(miri) { Dict::default() } else { crate::dict::load() })
}

/// Value kinds.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum K {
    I8,
    Byte,
    ByteName,
    I16,
    U16,
    I32,
    U32,
    I64,
    U64,
    F32,
    F64,
    Bool,
    Enum,
    Str,
    Name,
    Object,
    Text(HK),
    Delegate,
    MInline,
    MSparse,
    FieldPath,
    Struct(SK),
    Array,
    Set,
    Map,
    Unknown,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum SK {
    V2,
    V,
    R,
    Q,
    DateTime,
    Timespan,
    Guid,
    Color,
    IntPoint,
    Tags,
    Custom,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum HK {
    Empty,
    None,
    Base,
    Named,
    Ordered,
    Argument,
    Number,
    Percent,
    Currency,
    Date,
    Time,
    DateTime,
    Transform,
    Table,
}

pub const SKS: &[SK] = &[
    SK::V2,
    SK::V,
    SK::R,
    SK::Q,
    SK::DateTime,
    SK::Timespan,
    SK::Guid,
    SK::Color,
    SK::IntPoint,
    SK::Tags,
    SK::Custom,
];
pub const HKS: &[HK] = &[
    HK::Empty,
    HK::None,
    HK::Base,
    HK::Named,
    HK::Ordered,
    HK::Argument,
    HK::Number,
    HK::Percent,
    HK::Currency,
    HK::Date,
    HK::Time,
    HK::DateTime,
    HK::Transform,
    HK::Table,
];

pub fn all_kinds() -> Vec<K> {
    let mut v = vec![
        K::I8,
        K::Byte,
        K::ByteName,
        K::I16,
        K::U16,
        K::I32,
        K::U32,
        K::I64,
        K::U64,
        K::F32,
        K::F64,
        K::Bool,
        K::Enum,
        K::Str,
        K::Name,
        K::Object,
        K::Delegate,
        K::MInline,
        K::MSparse,
        K::FieldPath,
        K::Array,
        K::Set,
        K::Map,
        K::Unknown,
    ];
    v.extend(SKS.iter().map(|s| K::Struct(*s)));
    v.extend(HKS.iter().map(|s| K::Text(*s)));
    v
}

pub fn kind_type(k: K) -> Option<&'static str> {
    Some(match k {
        K::I8 => "Int8Property",
        K::Byte | K::ByteName => "ByteProperty",
        K::I16 => "Int16Property",
        K::U16 => "UInt16Property",
        K::I32 => "IntProperty",
        K::U32 => "UInt32Property",
        K::I64 => "Int64Property",
        K::U64 => "UInt64Property",
        K::F32 => "FloatProperty",
        K::F64 => "DoubleProperty",
        K::Bool => "BoolProperty",
        K::Enum => "EnumProperty",
        K::Str => "StrProperty",
        K::Name => "NameProperty",
        K::Object => "ObjectProperty",
        K::Text(_) => "TextProperty",
        K::Delegate => "DelegateProperty",
        K::MInline => "MulticastInlineDelegateProperty",
        K::MSparse => "MulticastSparseDelegateProperty",
        K::FieldPath => "FieldPathProperty",
        K::Struct(_) => "StructProperty",
        K::Array => "ArrayProperty",
        K::Set => "SetProperty",
        K::Map => "MapProperty",
        K::Unknown => return None,
    })
}

pub fn sk_type(k: SK) -> Option<&'static str> {
    Some(match k {
        SK::V2 => "Vector2D",
        SK::V => "Vector",
        SK::R => "Rotator",
        SK::Q => "Quat",
        SK::DateTime => "DateTime",
        SK::Timespan => "Timespan",
        SK::Guid => "Guid",
        SK::Color => "LinearColor",
        SK::IntPoint => "IntPoint",
        SK::Tags => "GameplayTagContainer",
        SK::Custom => return None,
    })
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub max_depth: usize,
    /// Rough size limit in bytes.
    pub budget: i64,
    /// No infinities or NaNs.
    pub finite: bool,
    /// Kinds in use (swarm).
    pub kinds: Vec<K>,
    pub keep: u8,
    /// Chance (of 256) of boundary-length strings, non-ASCII strings, long counts.
    pub p_long: u64,
    pub p_wide: u64,
    pub p_count: u64,
    pub p_dict: u64,
    /// Exact string lengths beyond this are not produced.
    pub max_str: usize,
    pub few_names: bool,
}

impl Cfg {
    pub fn random(r: &mut Rng) -> Cfg {
        let all = all_kinds();
        let kinds = if r.chance(1, 3) {
            all
        } else {
            let n = 1 + r.usize(10);
            (0..n).map(|_| *r.pick(&all)).collect()
        };
        Cfg {
            max_depth: *r.pick(&[1, 2, 2, 3, 3, 4, 5, 6]),
            budget: *r.pick(&[60, 200, 400, 400, 800, 800, 1500, 3000]),
            finite: false,
            kinds,
            keep: 0,
            p_long: *r.pick(&[0, 2, 4, 20]),
            p_wide: *r.pick(&[0, 20, 60, 200]),
            p_count: *r.pick(&[2, 8, 30]),
            p_dict: *r.pick(&[8, 24, 64]),
            max_str: 700,
            few_names: r.bool(),
        }
    }
    pub fn small(r: &mut Rng) -> Cfg {
        Cfg {
            max_depth: 3,
            budget: *r.pick(&[40, 100, 200]),
            finite: false,
            kinds: all_kinds(),
            keep: 0,
            p_long: 0,
            p_wide: *r.pick(&[0, 30]),
            p_count: 0,
            p_dict: 10,
            max_str: 20,
            few_names: true,
        }
    }
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub ver: Ver,
    pub cfg: Cfg,
    pub stack: Vec<String>,
    pub paths: HashMap<String, SK>,
    pub left: i64,
    pub depth: usize,
}

const STR_LENS: &[usize] = &[
    1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 511,
    512, 513, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 4094, 4095, 4096, 4097, 8191, 8192, 16383, 16384, 32766,
    32767, 32768, 32769, 65534, 65535, 65536, 65537, 131069, 131070, 131071,
];
const COUNTS: &[usize] = &[
    4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 511, 512,
    513, 1000, 1023, 1024, 1025, 2048, 4096, 4097,
];
const WORDS: &[&str] = &[
    "A", "B", "Name", "Value", "Key", "Health", "Player", "Inventory", "Items", "None", "none", "NONE", "None ", " None", "None\0",
    "None\n", "Non",
    "NoneX", "True", "False", "0", "1", "-1", "null", "Enum::Val", "EType::NewEnumerator0", "/Script/Engine.Actor",
    "/Game/Maps/Map.Map_C", "StructProperty", "IntProperty", "ByteProperty", "Vector", "Guid", "a.b", ".", "..",
    "Key.StructProperty", "x y", " ", "\t", "\n", "\0", "a\0b", "\0\0", "end\0", "\u{7f}", "\u{1}", "{}", "[0]",
    "\"quoted\"", "back\\slash", "GVAS", "PlZ", "UTC", "en-US", "de_DE", "USD", "en", "Base", "type", "value", "Byte",
    "Namespaced", "property_type", "bools", "NaN", "inf", "1e400", "18446744073709551616", "C:\\x", "%s", "$0",
];
const WIDE: &[&str] = &[
    "é", "ß", "ÿ", "\u{80}", "\u{ff}", "\u{100}", "\u{7ff}", "\u{800}", "日本語", "Привет", "\u{d7ff}", "\u{e000}",
    "\u{fffd}", "\u{ffff}", "\u{10000}", "😀", "\u{10ffff}", "a\u{301}", "é\0", "\u{feff}x", "x\u{feff}", "\u{2028}",
    "naïve", "A😀B", "\u{200b}", "İ", "ǅ", "\u{fffe}", "\u{feff}", "\u{feff}None", "None\u{a0}", "\u{3000}x\u{3000}", "\u{1f}é",
    "é\n", "ﬁ", "\u{fdd0}",
];

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, ver: Ver, cfg: Cfg) -> Self {
        let left = cfg.budget;
        Gen { r, ver, cfg, stack: vec![], paths: HashMap::new(), left, depth: 0 }
    }

    // ---- scalars -------------------------------------------------------------
    pub fn int(&mut self) -> u64 {
        let d = dict();
        match self.r.below(16) {
            0 => 0,
            1 => 1,
            2 => u64::MAX,
            3 => {
                let k = self.r.below(64);
                (1u64 << k).wrapping_add(self.r.below(3)).wrapping_sub(1)
            }
            4 => {
                let k = self.r.below(64);
                (1u64 << k).wrapping_neg().wrapping_add(self.r.below(3)).wrapping_sub(1)
            }
            5 => *self.r.pick(&[i8::MIN as i64, i16::MIN as i64, i32::MIN as i64, i64::MIN]) as u64,
            6 => *self.r.pick(&[i8::MAX as u64, i16::MAX as u64, i32::MAX as u64, i64::MAX as u64]),
            7 => *self.r.pick(&[u8::MAX as u64, u16::MAX as u64, u32::MAX as u64]),
            8 if !d.ints.is_empty() => {
                let v = *self.r.pick(&d.ints);
                v.wrapping_add(self.r.below(3)).wrapping_sub(1)
            }
            9 | 10 if !d.new_ints.is_empty() => {
                let v = *self.r.pick(&d.new_ints);
                let v = if self.r.chance(1, 4) { v.wrapping_neg() } else { v };
                v.wrapping_add(self.r.below(3)).wrapping_sub(1)
            }
            11 | 12 => self.r.below(256),
            13 => self.r.below(200).wrapping_neg(),
            14 => {
                // one distinctive byte in each position
                let b = self.r.u64() & 0xff;
                b << (8 * self.r.below(8))
            }
            _ => self.r.u64(),
        }
    }
    pub fn f32(&mut self) -> u32 {
        loop {
            let v = match self.r.below(12) {
                0 => 0,
                1 => 0x8000_0000,
                2 => f32::INFINITY.to_bits(),
                3 => f32::NEG_INFINITY.to_bits(),
                4 => 0x7fc0_0000 | (self.r.u32() & 0x803f_ffff),
                5 => 0x7f80_0001 | (self.r.u32() & 0x803f_ffff),
                6 => *self.r.pick(&[1, 0x7f_ffff, 0x80_0000, 0x7f7f_ffff, 0xff7f_ffff, 0x3f80_0000, 0xbf80_0000]),
                7 => (self.int() as i64 as f32).to_bits(),
                8 => ((self.r.u32() as f32) / 1000.0).to_bits(),
                9 => (0.1f32 * self.r.below(100) as f32).to_bits(),
                _ => self.r.u32(),
            };
            if !self.cfg.finite || f32::from_bits(v).is_finite() {
                return v;
            }
        }
    }
    pub fn f64(&mut self) -> u64 {
        loop {
            let v = match self.r.below(12) {
                0 => 0,
                1 => 0x8000_0000_0000_0000,
                2 => f64::INFINITY.to_bits(),
                3 => f64::NEG_INFINITY.to_bits(),
                4 => 0x7ff8_0000_0000_0000 | (self.r.u64() & 0x8007_ffff_ffff_ffff),
                5 => 0x7ff0_0000_0000_0001 | (self.r.u64() & 0x8007_ffff_ffff_ffff),
                6 => *self.r.pick(&[
                    1,
                    0xf_ffff_ffff_ffff,
                    0x10_0000_0000_0000,
                    0x7fef_ffff_ffff_ffff,
                    0xffef_ffff_ffff_ffff,
                    0x3ff0_0000_0000_0000,
                ]),
                7 => (self.int() as i64 as f64).to_bits(),
                8 => ((self.r.u32() as f64) / 1000.0).to_bits(),
                9 => (0.1f64 * self.r.below(100) as f64).to_bits(),
                10 => (f32::from_bits(self.r.u32()) as f64).to_bits(),
                _ => self.r.u64(),
            };
            if !self.cfg.finite || f64::from_bits(v).is_finite() {
                return v;
            }
        }
    }
    pub fn guid(&mut self) -> [u8; 16] {
        match self.r.below(8) {
            0 | 1 => [0; 16],
            2 => [0xff; 16],
            3 => {
                let mut g = [0; 16];
                let i = self.r.usize(16);
                g[i] = 1 << self.r.below(8);
                g
            }
            4 => {
                let mut g = [0u8; 16];
                for (i, b) in g.iter_mut().enumerate() {
                    *b = i as u8;
                }
                g
            }
            5 => {
                let mut g = self.r.guid();
                let i = self.r.usize(16);
                g[i] = 0;
                g
            }
            _ => self.r.guid(),
        }
    }

    fn repeat(&mut self, unit: &str, units: usize) -> String {
        // exactly `units` UTF-16 units
        let w: Vec<char> = unit.chars().collect();
        let mut s = String::new();
        let mut n = 0;
        let mut i = self.r.usize(w.len().max(1));
        while n < units {
            let c = if w.is_empty() { 'x' } else { w[i % w.len()] };
            let c = if n + c.len_utf16() > units { 'é' } else { c };
            s.push(c);
            n += c.len_utf16();
            i += 1;
        }
        s
    }

    pub fn string(&mut self) -> String {
        let d = dict();
        let p = self.r.below(256);
        let q = self.r.below(256);
        let s = if p < self.cfg.p_long {
            let max = self.cfg.max_str.min(self.left.max(24) as usize);
            let lens: Vec<usize> = STR_LENS.iter().copied().filter(|l| *l <= max).collect();
            let mut n = *self.r.pick(&lens);
            if !d.new_ints.is_empty() && self.r.chance(1, 4) {
                let v = *self.r.pick(&d.new_ints) as i64 + self.r.below(3) as i64 - 1;
                if v > 0 && v as usize <= max {
                    n = v as usize;
                }
            }
            if q < self.cfg.p_wide {
                let u = *self.r.pick(WIDE);
                self.repeat(u, n)
            } else {
                let u = *self.r.pick(&["abcdefghij", "x", "\0", "A b", "0123456789abcdef"]);
                let mut s = self.repeat(u, n);
                if self.r.chance(1, 12) {
                    // one non-ASCII character in a long ASCII string
                    s.pop();
                    s.push('é');
                }
                s
            }
        } else if p < self.cfg.p_long + self.cfg.p_dict && !d.strs.is_empty() {
            let pool = if !d.new_strs.is_empty() && self.r.bool() { &d.new_strs } else { &d.strs };
            let s = self.r.pick(pool).clone();
            match self.r.below(8) {
                0 => format!("{s}x"),
                1 => s.to_uppercase(),
                2 => s.to_lowercase(),
                3 => format!("x{s}"),
                _ => s,
            }
        } else if q < self.cfg.p_wide {
            let mut s = self.r.pick(WIDE).to_string();
            for _ in 0..self.r.below(3) {
                s.push_str(if self.r.bool() { self.r.pick(WIDE) } else { self.r.pick(WORDS) });
            }
            s
        } else {
            match self.r.below(6) {
                0 => String::new(),
                1 => {
                    let n = 1 + self.r.usize(12);
                    (0..n).map(|_| (self.r.below(128) as u8) as char).collect()
                }
                2 => {
                    let n = 1 + self.r.usize(20);
                    (0..n).map(|_| (b'a' + self.r.below(26) as u8) as char).collect()
                }
                3 => format!("{}{}", self.r.pick(WORDS), self.r.below(20)),
                _ => self.r.pick(WORDS).to_string(),
            }
        };
        self.left -= s.len() as i64 + 4;
        s
    }
    pub fn fstring(&mut self) -> Option<String> {
        if self.r.chance(1, 5) { None } else { Some(self.string()) }
    }
    pub fn name(&mut self) -> String {
        let s = if self.cfg.few_names && self.r.chance(3, 4) {
            self.r.pick(&["A", "B", "C", "Items", "Pos", "a.b", ""]).to_string()
        } else {
            self.string()
        };
        if s == "None" { "None_".into() } else { s }
    }
    pub fn count(&mut self, unit: usize) -> usize {
        let d = dict();
        if self.left <= 0 {
            return self.r.usize(2);
        }
        let max = (self.left as usize / unit.max(1)).max(1);
        if self.r.below(256) < self.cfg.p_count {
            let mut n = *self.r.pick(COUNTS);
            if !d.new_ints.is_empty() && self.r.chance(1, 3) {
                n = (*self.r.pick(&d.new_ints) as i64 + self.r.below(3) as i64 - 1).clamp(0, 5000) as usize;
            }
            n.min(max)
        } else {
            (*self.r.pick(&[0usize, 1, 1, 1, 2, 2, 3, 4])).min(max + 1)
        }
    }

    // ---- text ----------------------------------------------------------------
    pub fn text(&mut self) -> Text {
        let k = *self.r.pick(HKS);
        self.text_of(k)
    }
    pub fn flags(&mut self) -> u32 {
        if self.r.chance(1, 2) { 0 } else { self.int() as u32 }
    }
    pub fn text_of(&mut self, k: HK) -> Text {
        let flags = self.flags();
        self.depth += 1;
        let hist = self.hist(k);
        self.depth -= 1;
        Text { flags, hist }
    }
    fn sub_text(&mut self) -> Box<Text> {
        let k = if self.depth >= self.cfg.max_depth + 2 || self.left <= 0 {
            *self.r.pick(&[HK::Empty, HK::None, HK::Base, HK::Table])
        } else {
            *self.r.pick(HKS)
        };
        Box::new(self.text_of(k))
    }
    pub fn arg(&mut self) -> Arg {
        let k = self.r.below(6);
        self.arg_of(k)
    }
    pub fn arg_of(&mut self, k: u64) -> Arg {
        self.left -= 9;
        match k {
            0 => {
                if self.ver.arg64 {
                    Arg::Int64(self.int() as i64)
                } else {
                    Arg::Int(self.int() as i32)
                }
            }
            1 => {
                if self.ver.arg64 {
                    Arg::UInt64(self.int())
                } else {
                    Arg::UInt(self.int() as u32)
                }
            }
            2 => Arg::F32(self.f32()),
            3 => Arg::F64(self.f64()),
            _ => Arg::Text(self.sub_text()),
        }
    }
    pub fn numopts(&mut self) -> NumOpts {
        self.left -= 25;
        NumOpts {
            sign: self.r.bool(),
            group: self.r.bool(),
            rounding: self.r.below(7) as u8,
            digits: [self.int() as i32, self.int() as i32, self.int() as i32, self.int() as i32],
        }
    }
    fn named_args(&mut self) -> Vec<(String, Arg)> {
        let n = self.count(20).min(300);
        let mut v: Vec<(String, Arg)> = vec![];
        let mut seen = std::collections::HashSet::new();
        for i in 0..n {
            let mut k = self.string();
            if !seen.insert(k.clone()) {
                k = format!("k{i}");
                if !seen.insert(k.clone()) {
                    continue;
                }
            }
            let a = self.arg();
            v.push((k, a));
        }
        v
    }
    pub fn hist(&mut self, k: HK) -> Hist {
        self.left -= 6;
        match k {
            HK::Empty => Hist::Empty,
            HK::None => {
                if self.ver.invariant {
                    Hist::None(self.fstring())
                } else {
                    Hist::Empty
                }
            }
            HK::Base => Hist::Base(self.fstring(), self.fstring(), self.fstring()),
            HK::Named => Hist::Named(self.sub_text(), self.named_args()),
            HK::Ordered => {
                let t = self.sub_text();
                let n = self.count(16).min(300);
                Hist::Ordered(t, (0..n).map(|_| self.arg()).collect())
            }
            HK::Argument => Hist::Argument(self.sub_text(), self.named_args()),
            HK::Number | HK::Percent | HK::Currency => {
                let code = self.fstring();
                let a = Box::new(self.arg());
                let o = if self.r.bool() { Some(self.numopts()) } else { None };
                let c = self.fstring();
                match k {
                    HK::Number => Hist::Number(a, o, c),
                    HK::Percent => Hist::Percent(a, o, c),
                    _ => Hist::Currency(code, a, o, c),
                }
            }
            HK::Date => Hist::Date(self.int(), self.r.below(5) as u8, self.string()),
            HK::Time => Hist::Time(self.int(), self.r.below(5) as u8, self.string(), self.string()),
            HK::DateTime => Hist::DateTime(
                self.int(),
                self.r.below(5) as u8,
                self.r.below(5) as u8,
                self.string(),
                self.string(),
            ),
            HK::Transform => Hist::Transform(self.sub_text(), self.r.below(2) as u8),
            HK::Table => Hist::Table(self.string(), self.string()),
        }
    }

    // ---- structs -------------------------------------------------------------
    pub fn sv(&mut self, k: SK) -> SV {
        self.left -= 24;
        let d = self.ver.lwc;
        macro_rules! f {
            ($n:expr) => {{
                let mut a = [0u32; $n];
                for x in a.iter_mut() {
                    *x = self.f32();
                }
                a
            }};
        }
        macro_rules! g {
            ($n:expr) => {{
                let mut a = [0u64; $n];
                for x in a.iter_mut() {
                    *x = self.f64();
                }
                a
            }};
        }
        match k {
            SK::V2 if d => SV::V2D(g!(2)),
            SK::V2 => SV::V2F(f!(2)),
            SK::V if d => SV::VD(g!(3)),
            SK::V => SV::VF(f!(3)),
            SK::R if d => SV::RD(g!(3)),
            SK::R => SV::RF(f!(3)),
            SK::Q if d => SV::QD(g!(4)),
            SK::Q => SV::QF(f!(4)),
            SK::DateTime => SV::DateTime(self.int()),
            SK::Timespan => SV::Timespan(self.int()),
            SK::Guid => SV::Guid(self.guid()),
            SK::Color => SV::Color(f!(4)),
            SK::IntPoint => SV::IntPoint([self.int() as i32, self.int() as i32]),
            SK::Tags => {
                let n = self.count(12);
                SV::Tags((0..n).map(|_| self.string()).collect())
            }
            SK::Custom => {
                let n = if self.depth > self.cfg.max_depth { self.r.usize(2) } else { self.count(40).min(64) };
                let mut m: Vec<(String, Vec<P>)> = vec![];
                for i in 0..n {
                    let mut name = self.name();
                    if m.iter().any(|(k, _)| *k == name) {
                        name = format!("m{i}");
                        if m.iter().any(|(k, _)| *k == name) {
                            continue;
                        }
                    }
                    let reps = if self.r.chance(1, 6) { 2 + self.r.usize(3) } else { 1 };
                    self.stack.push(name.clone());
                    let vals = (0..reps).map(|_| self.tagged()).collect();
                    self.stack.pop();
                    m.push((name, vals));
                }
                SV::Custom(m)
            }
        }
    }

    pub fn custom_type(&mut self) -> String {
        let s = match self.r.below(4) {
            0 => self
                .r
                .pick(&[
                    "vector", "Vector3", "Vector2d", "VECTOR", "Vector ", "IntVector", "Quat4d", "", "Guid2", "Rotator3f",
                    "Timespan_", "Color", "Box", "Transform", "DateTimeX", "GameplayTag", "Vector4",
                ])
                .to_string(),
            1 => "MyStruct".to_string(),
            _ => self.string(),
        };
        if BUILTIN_STRUCTS.contains(&s.as_str()) { format!("{s}_") } else { s }
    }

    // ---- properties ----------------------------------------------------------
    pub fn pick_kind(&mut self) -> K {
        let k = *self.r.pick(&self.cfg.kinds.clone());
        if (self.depth >= self.cfg.max_depth || self.left <= 0)
            && matches!(k, K::Array | K::Set | K::Map | K::Struct(SK::Custom))
        {
            return *self.r.pick(&[K::I32, K::Str, K::Bool, K::Struct(SK::Guid), K::Byte, K::F64]);
        }
        k
    }

    /// A property with a tag (top level or struct member). The member's name is on the stack.
    pub fn tagged(&mut self) -> P {
        let k = self.pick_kind();
        self.tagged_of(k)
    }

    pub fn unknown_type(&mut self) -> String {
        let s = match self.r.below(3) {
            0 => self
                .r
                .pick(&[
                    "WeakObjectProperty",
                    "SoftObjectProperty",
                    "intproperty",
                    "Int32Property",
                    "IntProperty ",
                    "IntPropert",
                    "",
                    "None",
                    "StructProperty2",
                    "InterfaceProperty",
                    "MulticastDelegateProperty",
                    "UInt8Property",
                ])
                .to_string(),
            _ => self.string(),
        };
        if KNOWN_TYPES.contains(&s.as_str()) { format!("{s}_") } else { s }
    }

    pub fn tagged_of(&mut self, k: K) -> P {
        let ty = match k {
            K::Unknown => self.unknown_type(),
            _ => kind_type(k).unwrap().to_string(),
        };
        self.stack.push(ty.clone());
        self.depth += 1;
        let p = match k {
            K::Byte => P::Byte(Some(self.string()), ByteV::Byte(self.int() as u8)),
            K::ByteName => P::Byte(Some(self.string()), ByteV::Name(self.string())),
            K::Enum => P::Enum(Some(self.string()), self.string()),
            K::Name => {
                let i = if self.r.bool() { 0 } else { self.int() as u32 };
                P::Name(i, self.fstring())
            }
            K::Struct(s) => {
                let ty = match sk_type(s) {
                    Some(t) => t.to_string(),
                    None => self.custom_type(),
                };
                P::Struct(self.guid(), ty, self.sv(s))
            }
            K::Array => {
                let ek = self.elem_kind(true);
                self.array_of(ek)
            }
            K::Set => {
                let ek = self.elem_kind(true);
                self.set_of(ek)
            }
            K::Map => {
                let kk = self.elem_kind(false);
                let vk = self.elem_kind(false);
                self.map_of(kk, vk)
            }
            K::Unknown => {
                let n = self.count(1);
                P::Unknown(ty, self.r.bytes(n))
            }
            _ => self.plain(k),
        };
        self.depth -= 1;
        self.stack.pop();
        self.left -= 20;
        p
    }

    /// Kinds whose value looks the same with and without a tag.
    fn plain(&mut self, k: K) -> P {
        self.left -= 8;
        match k {
            K::I8 => P::I8(self.int() as i8),
            K::I16 => P::I16(self.int() as i16),
            K::U16 => P::U16(self.int() as u16),
            K::I32 => P::I32(self.int() as i32),
            K::U32 => P::U32(self.int() as u32),
            K::I64 => P::I64(self.int() as i64),
            K::U64 => P::U64(self.int()),
            K::F32 => P::F32(self.f32()),
            K::F64 => P::F64(self.f64()),
            K::Bool => P::Bool(self.r.bool()),
            K::Str => P::Str(self.fstring()),
            K::Object => P::Object(self.string()),
            K::Text(h) => {
                let h = if self.r.chance(1, 4) { *self.r.pick(HKS) } else { h };
                P::Text(self.text_of(h))
            }
            K::Delegate => P::Delegate(self.deleg()),
            K::MInline => P::MInline(self.delegs()),
            K::MSparse => P::MSparse(self.delegs()),
            K::FieldPath => {
                let n = self.count(12);
                P::FieldPath((0..n).map(|_| self.string()).collect(), self.string())
            }
            _ => unreachable!("harness: not a plain kind {k:?}"),
        }
    }
    fn deleg(&mut self) -> Deleg {
        Deleg { object: self.string(), func: self.string() }
    }
    fn delegs(&mut self) -> Vec<Deleg> {
        let n = self.count(20);
        (0..n).map(|_| self.deleg()).collect()
    }

    pub fn elem_kind(&mut self, unknown_ok: bool) -> K {
        for _ in 0..20 {
            let k = self.pick_kind();
            match k {
                K::Array | K::Set | K::Map => continue,
                K::Unknown if !unknown_ok => continue,
                K::ByteName if !unknown_ok => continue,
                _ => return k,
            }
        }
        *self.r.pick(&[K::I32, K::Str, K::Enum, K::Name, K::Bool, K::Byte])
    }

    /// A value without a tag. Everything but containers; raw bytes only via array/set.
    pub fn untagged(&mut self, k: K) -> P {
        self.stack.push(kind_type(k).unwrap().to_string());
        self.depth += 1;
        let p = match k {
            K::Byte => {
                self.left -= 1;
                P::Byte(None, ByteV::Byte(self.int() as u8))
            }
            K::ByteName => P::Byte(None, ByteV::Name(self.string())),
            K::Enum => P::Enum(None, self.string()),
            K::Name => P::Name(0, self.fstring()),
            K::Struct(s) => {
                let path = self.stack.join(".");
                let s = *self.paths.entry(path).or_insert(s);
                P::SVal(self.sv(s))
            }
            _ => self.plain(k),
        };
        self.depth -= 1;
        self.stack.pop();
        p
    }

    fn unit(k: K) -> usize {
        match k {
            K::Byte | K::Bool | K::I8 => 1,
            K::I32 | K::F32 | K::U32 | K::I16 | K::U16 => 4,
            K::Struct(SK::Custom) | K::Text(_) => 60,
            _ => 16,
        }
    }

    fn unknown_elems(&mut self) -> (String, Vec<P>) {
        let ty = self.unknown_type();
        let n = self.count(4);
        let len = 1 + self.r.usize(9);
        let v = (0..n).map(|_| P::Unknown(ty.clone(), self.r.bytes(len))).collect();
        (ty, v)
    }

    pub fn array_of(&mut self, k: K) -> P {
        if k == K::Unknown {
            let (ty, elems) = self.unknown_elems();
            return P::Array { ty, info: None, elems };
        }
        let n = self.count(Self::unit(k));
        self.array_n(k, n)
    }
    pub fn array_n(&mut self, k: K, n: usize) -> P {
        let ty = kind_type(k).unwrap().to_string();
        if let K::Struct(s) = k {
            let sty = match sk_type(s) {
                Some(t) => t.to_string(),
                None => self.custom_type(),
            };
            let info = SInfo { field: self.name(), ty: sty, guid: self.guid() };
            // elements push nothing on the path
            let elems = (0..n).map(|_| P::SVal(self.sv(s))).collect();
            return P::Array { ty, info: Some(info), elems };
        }
        let elems = (0..n).map(|_| self.untagged(k)).collect();
        P::Array { ty, info: None, elems }
    }
    pub fn set_of(&mut self, k: K) -> P {
        let flags = self.flags();
        if k == K::Unknown {
            let (ty, elems) = self.unknown_elems();
            return P::Set { ty, flags, elems };
        }
        let n = self.count(Self::unit(k));
        let ty = kind_type(k).unwrap().to_string();
        let elems = (0..n).map(|_| self.untagged(k)).collect();
        P::Set { ty, flags, elems }
    }
    pub fn map_of(&mut self, kk: K, vk: K) -> P {
        let n = self.count(Self::unit(kk) + Self::unit(vk));
        self.map_n(kk, vk, n)
    }
    pub fn map_n(&mut self, kk: K, vk: K, n: usize) -> P {
        let flags = self.flags();
        let mut entries: Vec<(P, P)> = vec![];
        let mut seen = std::collections::HashSet::new();
        for _ in 0..n {
            self.stack.push("Key".into());
            let k = self.untagged(kk);
            self.stack.pop();
            self.stack.push("Value".into());
            let v = self.untagged(vk);
            self.stack.pop();
            if seen.insert(crate::dec::canon(&k)) {
                entries.push((k, v));
            }
        }
        P::Map {
            kt: kind_type(kk).unwrap().to_string(),
            vt: kind_type(vk).unwrap().to_string(),
            flags,
            entries,
        }
    }

    // ---- header / file -------------------------------------------------------
    pub fn header(&mut self, custom: Vec<([u8; 16], u32)>) -> Header {
        let version = 2 + self.r.below(2) as u32;
        Header {
            version,
            pkg: self.r.range(0x205, 0x20D) as u32,
            ue5: if version == 3 { self.r.range(1000, 1009) as u32 } else { 0 },
            major: if self.r.bool() { *self.r.pick(&[4, 5]) } else { self.int() as u16 },
            minor: self.int() as u16,
            patch: self.int() as u16,
            changelist: self.int() as u32,
            branch: self.string(),
            custom,
            class: self.string(),
        }
    }
}

/// Versions around the thresholds, plus unrelated entries.
pub fn custom_table(r: &mut Rng) -> Vec<([u8; 16], u32)> {
    let mut v: Vec<([u8; 16], u32)> = vec![];
    let near = |r: &mut Rng, t: &[u32]| -> u32 {
        match r.below(6) {
            0 => 0,
            1 => u32::MAX,
            2 => r.u32(),
            3 => r.below(60) as u32,
            _ => (*r.pick(t) as i64 + r.below(5) as i64 - 2) as u32,
        }
    };
    if r.chance(3, 4) {
        let n = near(r, &[LWC_VERSION, ARG64_VERSION]);
        v.push((ue5_guid(), n));
    }
    if r.chance(3, 4) {
        let n = near(r, &[INVARIANT_VERSION]);
        v.push((editor_guid(), n));
    }
    for _ in 0..*r.pick(&[0usize, 0, 0, 1, 1, 2, 2, 5, 5, 40, 130]) {
        let mut g = r.guid();
        match r.below(6) {
            0 => {
                g = ue5_guid();
                let i = r.usize(16);
                g[i] ^= 1 << r.below(8);
            }
            1 => {
                g = editor_guid();
                let i = r.usize(16);
                g[i] ^= 1 << r.below(8);
            }
            2 => g = [0; 16],
            _ => {}
        }
        let n = near(r, &[LWC_VERSION, ARG64_VERSION, INVARIANT_VERSION]);
        if !v.iter().any(|(k, _)| *k == g) {
            v.push((g, n));
        }
    }
    r.shuffle(&mut v);
    v
}

pub fn simple_table(lwc: bool, arg64: bool, inv: bool) -> Vec<([u8; 16], u32)> {
    let mut v = vec![];
    let u = if lwc {
        LWC_VERSION
    } else if arg64 {
        ARG64_VERSION
    } else {
        0
    };
    if u > 0 {
        v.push((ue5_guid(), u));
    }
    if inv {
        v.push((editor_guid(), INVARIANT_VERSION));
    }
    v
}

pub fn random_pal(r: &mut Rng) -> Pal {
    *r.pick(&[Pal::None, Pal::Zlib, Pal::Twice])
}

pub fn random_file(r: &mut Rng, cfg: Cfg) -> File {
    let custom = custom_table(r);
    file_with(r, cfg, custom)
}

pub fn file_with(r: &mut Rng, cfg: Cfg, custom: Vec<([u8; 16], u32)>) -> File {
    let ver = Ver::of(&custom);
    let pal = if r.chance(1, 10) { Some(random_pal(r)) } else { None };
    let mut g = Gen::new(r, ver, cfg);
    let header = g.header(custom);
    let mut props: Vec<(String, P)> = vec![];
    let n = match g.r.below(10) {
        0 => 0,
        1..=4 => 1,
        5 | 6 => 2,
        7 | 8 => 4,
        _ => 10,
    };
    for i in 0..n {
        let mut name = g.name();
        if props.iter().any(|(k, _)| *k == name) {
            name = format!("p{i}");
            if props.iter().any(|(k, _)| *k == name) {
                continue;
            }
        }
        g.stack.push(name.clone());
        let p = g.tagged();
        g.stack.pop();
        props.push((name, p));
    }
    File { pal, header, props }
}

/// A chain of nested structs around a value.
pub fn deep_file(r: &mut Rng, depth: usize) -> File {
    let custom = custom_table(r);
    let ver = Ver::of(&custom);
    let cfg = Cfg { max_depth: 1, budget: 100, ..Cfg::small(r) };
    let mut g = Gen::new(r, ver, cfg);
    let header = g.header(custom);
    // names outermost first
    let names: Vec<String> = (0..depth + 1).map(|i| format!("n{i}")).collect();
    let styles: Vec<u64> = (0..depth).map(|_| g.r.below(5)).collect();
    // path of the innermost value does not matter: it is a leaf without hints
    let k = *g.r.pick(&[K::I32, K::Str, K::Bool, K::Struct(SK::V), K::Text(HK::Named)]);
    g.cfg.kinds = vec![k];
    let mut p = g.tagged_of(k);
    for i in (0..depth).rev() {
        let inner = SV::Custom(vec![(names[i + 1].clone(), vec![p])]);
        p = match styles[i] {
            0 | 1 => P::Struct(g.guid(), "S".into(), inner),
            2 => P::Array {
                ty: "StructProperty".into(),
                info: Some(SInfo { field: "F".into(), ty: "S".into(), guid: g.guid() }),
                elems: vec![P::SVal(inner)],
            },
            3 => P::Set { ty: "StructProperty".into(), flags: 0, elems: vec![P::SVal(inner)] },
            _ => P::Map {
                kt: "IntProperty".into(),
                vt: "StructProperty".into(),
                flags: g.flags(),
                entries: vec![(P::I32(7), P::SVal(inner))],
            },
        };
    }
    File { pal: None, header, props: vec![(names[0].clone(), p)] }
}

/// Nested formatted text.
pub fn deep_text(r: &mut Rng, ver: Ver, depth: usize) -> Text {
    let cfg = Cfg { max_depth: 0, budget: 60, ..Cfg::small(r) };
    let mut g = Gen::new(r, ver, cfg);
    let mut t = g.text_of(HK::Base);
    for _ in 0..depth {
        let b = Box::new(t);
        let hist = match g.r.below(6) {
            0 => Hist::Transform(b, g.r.below(2) as u8),
            1 => Hist::Named(b, vec![]),
            2 => Hist::Ordered(Box::new(Text { flags: 0, hist: Hist::Empty }), vec![Arg::Text(b)]),
            3 => Hist::Number(Box::new(Arg::Text(b)), None, None),
            4 => Hist::Argument(Box::new(Text { flags: 0, hist: Hist::Empty }), vec![("k".into(), Arg::Text(b))]),
            _ => Hist::Currency(None, Box::new(Arg::Text(b)), None, None),
        };
        t = Text { flags: 0, hist };
    }
    t
}

/// Where a kind is put.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pos {
    Top,
    Member,
    Repeated,
    Arr(usize),
    Set(usize),
    Key(K),
    Val(K),
    ArrStruct,
    SetStruct,
    MapStruct,
}

pub fn wrap(g: &mut Gen, k: K, pos: Pos) -> Option<P> {
    let container = matches!(k, K::Array | K::Set | K::Map);
    Some(match pos {
        Pos::Top => g.tagged_of(k),
        Pos::Member | Pos::Repeated => {
            let reps = if pos == Pos::Member { 1 } else { 3 };
            g.stack.push("StructProperty".into());
            g.stack.push("M".into());
            let v = (0..reps).map(|_| g.tagged_of(k)).collect();
            g.stack.pop();
            g.stack.pop();
            P::Struct(g.guid(), g.custom_type(), SV::Custom(vec![("M".into(), v)]))
        }
        Pos::Arr(n) => {
            if container {
                return None;
            }
            g.stack.push("ArrayProperty".into());
            let p = if k == K::Unknown { g.array_of(k) } else { g.array_n(k, n) };
            g.stack.pop();
            p
        }
        Pos::Set(n) => {
            if container {
                return None;
            }
            g.stack.push("SetProperty".into());
            let p = if k == K::Unknown {
                g.set_of(k)
            } else {
                let elems = (0..n).map(|_| g.untagged(k)).collect();
                P::Set { ty: kind_type(k).unwrap().into(), flags: g.flags(), elems }
            };
            g.stack.pop();
            p
        }
        Pos::Key(v) | Pos::Val(v) => {
            let bad = |k: K| matches!(k, K::Array | K::Set | K::Map | K::Unknown | K::ByteName);
            if bad(k) || bad(v) {
                return None;
            }
            g.stack.push("MapProperty".into());
            let n = 1 + g.r.usize(3);
            let p = if matches!(pos, Pos::Key(_)) { g.map_n(k, v, n) } else { g.map_n(v, k, n) };
            g.stack.pop();
            p
        }
        Pos::ArrStruct => {
            g.stack.push("ArrayProperty".into());
            g.stack.push("M".into());
            let elems = (0..2).map(|_| P::SVal(SV::Custom(vec![("M".into(), vec![g.tagged_of(k)])]))).collect();
            g.stack.pop();
            g.stack.pop();
            let info = SInfo { field: g.name(), ty: g.custom_type(), guid: g.guid() };
            P::Array { ty: "StructProperty".into(), info: Some(info), elems }
        }
        Pos::SetStruct => {
            for s in ["SetProperty", "StructProperty", "M"] {
                g.stack.push(s.into());
            }
            let elems = (0..2).map(|_| P::SVal(SV::Custom(vec![("M".into(), vec![g.tagged_of(k)])]))).collect();
            for _ in 0..3 {
                g.stack.pop();
            }
            P::Set { ty: "StructProperty".into(), flags: g.flags(), elems }
        }
        Pos::MapStruct => {
            let mut one = |part: &str, i: i32| {
                for s in ["MapProperty", part, "StructProperty", "M"] {
                    g.stack.push(s.into());
                }
                let p = g.tagged_of(k);
                for _ in 0..4 {
                    g.stack.pop();
                }
                let mut m = vec![("M".to_string(), vec![p])];
                if part == "Key" {
                    m.push(("I".to_string(), vec![P::I32(i)]));
                }
                P::SVal(SV::Custom(m))
            };
            let entries = (0..2)
                .map(|i| {
                    let k = one("Key", i);
                    let v = one("Value", i);
                    (k, v)
                })
                .collect();
            P::Map { kt: "StructProperty".into(), vt: "StructProperty".into(), flags: g.flags(), entries }
        }
    })
}

/// The directed list: every kind in every position.
pub fn directed_list() -> Vec<(K, Pos)> {
    let mut v = vec![];
    let kinds = all_kinds();
    for &k in &kinds {
        for p in [
            Pos::Top,
            Pos::Member,
            Pos::Repeated,
            Pos::Arr(0),
            Pos::Arr(1),
            Pos::Arr(3),
            Pos::Set(0),
            Pos::Set(1),
            Pos::Set(3),
            Pos::ArrStruct,
            Pos::SetStruct,
            Pos::MapStruct,
        ] {
            v.push((k, p));
        }
    }
    for &k in &kinds {
        for &w in &kinds {
            v.push((k, Pos::Key(w)));
        }
    }
    v.retain(|(k, p)| match p {
        Pos::Arr(_) | Pos::Set(_) => !matches!(k, K::Array | K::Set | K::Map),
        Pos::Key(w) => {
            let bad = |k: &K| matches!(k, K::Array | K::Set | K::Map | K::Unknown | K::ByteName);
            !bad(k) && !bad(w)
        }
        _ => true,
    });
    v
}

pub fn directed_file(r: &mut Rng, item: (K, Pos), finite: bool) -> File {
    let custom = match r.below(6) {
        0 => simple_table(false, false, false),
        1 => simple_table(true, true, true),
        2 => simple_table(false, true, false),
        3 => simple_table(false, false, true),
        _ => custom_table(r),
    };
    let ver = Ver::of(&custom);
    let mut cfg = Cfg::random(r);
    cfg.finite = finite;
    cfg.kinds = all_kinds();
    cfg.max_depth = 4;
    cfg.budget = 600;
    let mut g = Gen::new(r, ver, cfg);
    let header = g.header(custom);
    let name = g.name();
    g.stack.push(name.clone());
    let p = wrap(&mut g, item.0, item.1).expect("harness: directed item");
    g.stack.pop();
    let mut props = vec![(name.clone(), p)];
    if name != "after" && g.r.bool() {
        props.push(("after".into(), P::I32(42)));
    }
    File { pal: None, header, props }
}
