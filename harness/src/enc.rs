//! Reference encoder: model -> bytes in the GVAS layout, with annotated fields.
use crate::model::*;
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FK {
    Magic,
    SaveVersion,
    PkgVersion,
    Ue5Version,
    CustomFormat,
    /// Plain data: every bit pattern is valid.
    Data,
    /// String length prefix; body length in bytes and unit size follow.
    StrLen { units: u32, wide: bool, nullable: bool },
    StrBody { wide: bool },
    StrTerm { wide: bool },
    /// Declared length of the body that starts at the given offset.
    /// `free`: reading the body does not use the length, it is only checked, as long as
    /// it is at least the given value.
    BodyLen { tag: usize, body: usize, len: u32, free: Option<u32> },
    /// Declared size (u64) of a fixed-size property.
    FixedSize { size: u64 },
    ArrayIndex,
    NameIndex,
    TagTerm,
    Bool8,
    B32,
    Enum8 { lo: i8, hi: i8 },
    Count { n: u32 },
    CountI { n: i32 },
    /// Declared total size of an array of structs.
    StructsSize { body: usize, size: u64 },
    Guid,
    Raw,
    /// Four zero bytes after the last terminator.
    Padding,
}

#[derive(Clone, Copy, Debug)]
pub struct Field {
    pub off: usize,
    pub len: usize,
    pub kind: FK,
}

/// A header-less struct: where it starts and the type the hint table must give.
#[derive(Clone, Debug)]
pub struct HintUse {
    pub path: String,
    pub off: usize,
    pub ty: String,
}

pub struct Enc {
    pub buf: Vec<u8>,
    pub fields: Vec<Field>,
    pub hints: Vec<HintUse>,
    pub stack: Vec<String>,
    /// Offsets where a tagged property (its type name) starts and ends.
    pub props: Vec<(usize, usize)>,
    /// Randomly use non-canonical string encodings.
    pub alt: Option<Rng>,
    pub header_end: usize,
}

pub fn custom_hint_name(path: &str) -> String {
    // any name without a built-in layout will do
    let h = crate::rng::hash_bytes(path.as_bytes());
    match h % 4 {
        0 => "MyStruct".to_string(),
        1 => format!("S{}", h % 97),
        2 => "vector".to_string(),
        _ => "".to_string(),
    }
}

pub fn sv_type(sv: &SV, path: &str) -> String {
    match sv {
        SV::V2F(_) | SV::V2D(_) => "Vector2D".into(),
        SV::VF(_) | SV::VD(_) => "Vector".into(),
        SV::RF(_) | SV::RD(_) => "Rotator".into(),
        SV::QF(_) | SV::QD(_) => "Quat".into(),
        SV::DateTime(_) => "DateTime".into(),
        SV::Timespan(_) => "Timespan".into(),
        SV::Guid(_) => "Guid".into(),
        SV::Color(_) => "LinearColor".into(),
        SV::IntPoint(_) => "IntPoint".into(),
        SV::Tags(_) => "GameplayTagContainer".into(),
        SV::Custom(_) => custom_hint_name(path),
    }
}

impl Enc {
    pub fn new() -> Self {
        Enc {
            buf: Vec::new(),
            fields: Vec::new(),
            hints: Vec::new(),
            stack: Vec::new(),
            props: Vec::new(),
            alt: None,
            header_end: 0,
        }
    }

    fn f(&mut self, len: usize, kind: FK) {
        self.fields.push(Field { off: self.buf.len(), len, kind });
    }
    fn raw(&mut self, b: &[u8]) {
        self.buf.extend_from_slice(b);
    }
    pub fn u8(&mut self, v: u8, k: FK) {
        self.f(1, k);
        self.raw(&[v]);
    }
    pub fn u16(&mut self, v: u16, k: FK) {
        self.f(2, k);
        self.raw(&v.to_le_bytes());
    }
    pub fn u32(&mut self, v: u32, k: FK) {
        self.f(4, k);
        self.raw(&v.to_le_bytes());
    }
    pub fn u64(&mut self, v: u64, k: FK) {
        self.f(8, k);
        self.raw(&v.to_le_bytes());
    }
    pub fn guid(&mut self, g: &[u8; 16]) {
        self.f(16, FK::Guid);
        self.raw(g);
    }
    pub fn b32(&mut self, v: bool) {
        self.u32(v as u32, FK::B32);
    }

    pub fn string(&mut self, s: &str) {
        self.string_n(s, false)
    }

    fn string_n(&mut self, s: &str, nullable: bool) {
        let mut wide = !s.is_ascii();
        if let Some(r) = &mut self.alt
            && r.chance(1, 4)
            && s.len() <= 131_071
        {
            wide = !wide;
        }
        if wide {
            let units: Vec<u16> = s.encode_utf16().collect();
            let n = units.len() as u32 + 1;
            self.u32((-(n as i32)) as u32, FK::StrLen { units: n, wide, nullable });
            if !units.is_empty() {
                self.f(units.len() * 2, FK::StrBody { wide });
            }
            for u in units {
                self.raw(&u.to_le_bytes());
            }
            self.f(2, FK::StrTerm { wide });
            self.raw(&[0, 0]);
        } else {
            let n = s.len() as u32 + 1;
            self.u32(n, FK::StrLen { units: n, wide, nullable });
            if !s.is_empty() {
                self.f(s.len(), FK::StrBody { wide });
            }
            self.raw(s.as_bytes());
            self.f(1, FK::StrTerm { wide });
            self.raw(&[0]);
        }
    }

    pub fn fstring(&mut self, s: &Option<String>) {
        match s {
            Some(s) => self.string_n(s, true),
            None => self.u32(0, FK::StrLen { units: 0, wide: false, nullable: true }),
        }
    }

    pub fn header(&mut self, h: &Header) {
        self.f(4, FK::Magic);
        self.raw(b"GVAS");
        self.u32(h.version, FK::SaveVersion);
        self.u32(h.pkg, FK::PkgVersion);
        if h.version == 3 {
            self.u32(h.ue5, FK::Ue5Version);
        }
        self.u16(h.major, FK::Data);
        self.u16(h.minor, FK::Data);
        self.u16(h.patch, FK::Data);
        self.u32(h.changelist, FK::Data);
        self.string(&h.branch);
        self.u32(3, FK::CustomFormat);
        self.u32(h.custom.len() as u32, FK::Count { n: h.custom.len() as u32 });
        for (g, v) in &h.custom {
            self.guid(g);
            self.u32(*v, FK::Data);
        }
        self.string(&h.class);
        self.header_end = self.buf.len();
    }

    pub fn file(&mut self, f: &File) {
        self.header(&f.header);
        for (name, p) in &f.props {
            self.string(name);
            self.stack.push(name.clone());
            self.tagged(p);
            self.stack.pop();
        }
        self.string("None");
        self.f(4, FK::Padding);
        self.raw(&[0; 4]);
    }

    /// Type name followed by the tag and body.
    pub fn tagged(&mut self, p: &P) {
        let start = self.buf.len();
        let ty = type_name(p).to_string();
        self.string(&ty);
        self.tag_and_body(p);
        self.props.push((start, self.buf.len()));
    }

    /// Everything that follows the type name.
    pub fn tag_and_body(&mut self, p: &P) {
        self.stack.push(type_name(p).to_string());
        let fixed = |s: &mut Self, size: u64| {
            s.u64(size, FK::FixedSize { size });
            s.u8(0, FK::TagTerm);
        };
        match p {
            P::I8(_) => {
                fixed(self, 1);
                self.body(p)
            }
            P::I16(_) | P::U16(_) => {
                fixed(self, 2);
                self.body(p)
            }
            P::I32(_) | P::U32(_) | P::F32(_) => {
                fixed(self, 4);
                self.body(p)
            }
            P::I64(_) | P::U64(_) | P::F64(_) => {
                fixed(self, 8);
                self.body(p)
            }
            P::Bool(b) => {
                self.u64(0, FK::FixedSize { size: 0 });
                self.u8(*b as u8, FK::Bool8);
                self.u8(0, FK::TagTerm);
            }
            _ => {
                let tag = self.buf.len();
                let lf = self.fields.len();
                self.u32(0, FK::BodyLen { tag, body: 0, len: 0, free: None });
                let idx = if let P::Name(i, _) = p { *i } else { 0 };
                self.u32(idx, if matches!(p, P::Name(..)) { FK::NameIndex } else { FK::ArrayIndex });
                match p {
                    P::Byte(name, _) => {
                        let n = name.clone().unwrap_or_default();
                        self.string(&n)
                    }
                    P::Enum(t, _) => {
                        let n = t.clone().unwrap_or_default();
                        self.string(&n)
                    }
                    P::Struct(g, t, _) => {
                        self.string(t);
                        self.guid(g);
                    }
                    P::Array { ty, .. } => self.string(ty),
                    P::Set { ty, .. } => self.string(ty),
                    P::Map { kt, vt, .. } => {
                        self.string(kt);
                        self.string(vt);
                    }
                    _ => {}
                }
                self.u8(0, FK::TagTerm);
                let body = self.buf.len();
                self.body(p);
                let len = (self.buf.len() - body) as u32;
                self.buf[tag..tag + 4].copy_from_slice(&len.to_le_bytes());
                let sized = |ty: &str| ty == "ByteProperty" || !KNOWN_TYPES.contains(&ty);
                let free = match p {
                    P::Byte(_, ByteV::Name(_)) => Some(5),
                    P::Byte(..) | P::Unknown(..) => None,
                    P::Array { ty, .. } | P::Set { ty, .. } if sized(ty) => None,
                    P::Set { .. } => Some(8),
                    _ => Some(0),
                };
                self.fields[lf].kind = FK::BodyLen { tag, body, len, free };
            }
        }
        self.stack.pop();
    }

    /// Header-less value. Array/set/map elements use this.
    fn untagged(&mut self, p: &P) {
        self.stack.push(type_name(p).to_string());
        if let P::SVal(sv) = p {
            let path = self.stack.join(".");
            let ty = sv_type(sv, &path);
            self.hints.push(HintUse { path, off: self.buf.len(), ty });
        }
        self.body(p);
        self.stack.pop();
    }

    pub fn body(&mut self, p: &P) {
        match p {
            P::I8(v) => self.u8(*v as u8, FK::Data),
            P::Byte(_, ByteV::Byte(b)) => self.u8(*b, FK::Data),
            P::Byte(_, ByteV::Name(s)) => self.string(s),
            P::I16(v) => self.u16(*v as u16, FK::Data),
            P::U16(v) => self.u16(*v, FK::Data),
            P::I32(v) => self.u32(*v as u32, FK::Data),
            P::U32(v) => self.u32(*v, FK::Data),
            P::I64(v) => self.u64(*v as u64, FK::Data),
            P::U64(v) => self.u64(*v, FK::Data),
            P::F32(v) => self.u32(*v, FK::Data),
            P::F64(v) => self.u64(*v, FK::Data),
            P::Bool(b) => self.u8(*b as u8, FK::Bool8),
            P::Enum(_, v) => self.string(v),
            P::Str(v) => self.fstring(v),
            P::Name(_, v) => self.fstring(v),
            P::Object(v) => self.string(v),
            P::Text(t) => self.text(t),
            P::Delegate(d) => self.deleg(d),
            P::MInline(v) | P::MSparse(v) => {
                self.u32(v.len() as u32, FK::Count { n: v.len() as u32 });
                for d in v {
                    self.deleg(d);
                }
            }
            P::FieldPath(path, owner) => {
                self.u32(path.len() as u32, FK::Count { n: path.len() as u32 });
                for s in path {
                    self.string(s);
                }
                self.string(owner);
            }
            P::Struct(_, _, sv) | P::SVal(sv) => self.sv(sv),
            P::Array { ty, info, elems } => {
                self.u32(elems.len() as u32, FK::Count { n: elems.len() as u32 });
                match info {
                    Some(info) => {
                        self.string(&info.field);
                        self.string(ty);
                        let so = self.buf.len();
                        let sf = self.fields.len();
                        self.u64(0, FK::StructsSize { body: 0, size: 0 });
                        self.string(&info.ty);
                        self.guid(&info.guid);
                        self.u8(0, FK::TagTerm);
                        let body = self.buf.len();
                        for e in elems {
                            self.body(e);
                        }
                        let size = (self.buf.len() - body) as u64;
                        self.buf[so..so + 8].copy_from_slice(&size.to_le_bytes());
                        self.fields[sf].kind = FK::StructsSize { body, size };
                    }
                    None => {
                        for e in elems {
                            self.untagged(e);
                        }
                    }
                }
            }
            P::Set { flags, elems, .. } => {
                self.u32(*flags, FK::Data);
                self.u32(elems.len() as u32, FK::Count { n: elems.len() as u32 });
                for e in elems {
                    self.untagged(e);
                }
            }
            P::Map { flags, entries, .. } => {
                self.u32(*flags, FK::Data);
                self.u32(entries.len() as u32, FK::Count { n: entries.len() as u32 });
                for (k, v) in entries {
                    self.stack.push("Key".into());
                    self.untagged(k);
                    self.stack.pop();
                    self.stack.push("Value".into());
                    self.untagged(v);
                    self.stack.pop();
                }
            }
            P::Unknown(_, raw) => {
                if !raw.is_empty() {
                    self.f(raw.len(), FK::Raw);
                }
                self.raw(raw);
            }
        }
    }

    pub fn sv(&mut self, sv: &SV) {
        match sv {
            SV::V2F(v) => v.iter().for_each(|x| self.u32(*x, FK::Data)),
            SV::V2D(v) => v.iter().for_each(|x| self.u64(*x, FK::Data)),
            SV::VF(v) | SV::RF(v) => v.iter().for_each(|x| self.u32(*x, FK::Data)),
            SV::VD(v) | SV::RD(v) => v.iter().for_each(|x| self.u64(*x, FK::Data)),
            SV::QF(v) | SV::Color(v) => v.iter().for_each(|x| self.u32(*x, FK::Data)),
            SV::QD(v) => v.iter().for_each(|x| self.u64(*x, FK::Data)),
            SV::DateTime(t) | SV::Timespan(t) => self.u64(*t, FK::Data),
            SV::Guid(g) => self.guid(g),
            SV::IntPoint(v) => v.iter().for_each(|x| self.u32(*x as u32, FK::Data)),
            SV::Tags(v) => {
                self.u32(v.len() as u32, FK::CountI { n: v.len() as i32 });
                for s in v {
                    self.string(s);
                }
            }
            SV::Custom(members) => {
                for (name, vals) in members {
                    for v in vals {
                        self.string(name);
                        self.stack.push(name.clone());
                        self.tagged(v);
                        self.stack.pop();
                    }
                }
                self.string("None");
            }
        }
    }

    fn deleg(&mut self, d: &Deleg) {
        self.string(&d.object);
        self.string(&d.func);
    }

    fn opts(&mut self, o: &Option<NumOpts>) {
        self.b32(o.is_some());
        if let Some(o) = o {
            self.numopts(o);
        }
    }

    pub fn numopts(&mut self, o: &NumOpts) {
        self.b32(o.sign);
        self.b32(o.group);
        self.u8(o.rounding, FK::Enum8 { lo: 0, hi: 6 });
        for d in o.digits {
            self.u32(d as u32, FK::Data);
        }
    }

    pub fn arg(&mut self, a: &Arg) {
        let k = FK::Enum8 { lo: 0, hi: 4 };
        match a {
            Arg::Int(v) => {
                self.u8(0, k);
                self.u32(*v as u32, FK::Data);
            }
            Arg::Int64(v) => {
                self.u8(0, k);
                self.u64(*v as u64, FK::Data);
            }
            Arg::UInt(v) => {
                self.u8(1, k);
                self.u32(*v, FK::Data);
            }
            Arg::UInt64(v) => {
                self.u8(1, k);
                self.u64(*v, FK::Data);
            }
            Arg::F32(v) => {
                self.u8(2, k);
                self.u32(*v, FK::Data);
            }
            Arg::F64(v) => {
                self.u8(3, k);
                self.u64(*v, FK::Data);
            }
            Arg::Text(t) => {
                self.u8(4, k);
                self.text(t);
            }
        }
    }

    /// Layout of history-less text depends on the version; the stack of the encoder
    /// carries it in `invariant`.
    pub fn text(&mut self, t: &Text) {
        self.u32(t.flags, FK::Data);
        self.hist(&t.hist);
    }

    pub fn hist(&mut self, h: &Hist) {
        let inv = INVARIANT.with(|c| c.get());
        let tag = |s: &mut Self, v: i8| s.u8(v as u8, FK::Enum8 { lo: -1, hi: 11 });
        let style = FK::Enum8 { lo: 0, hi: 4 };
        match h {
            Hist::Empty => {
                tag(self, -1);
                if inv {
                    self.b32(false);
                }
            }
            Hist::None(s) => {
                tag(self, -1);
                if inv {
                    self.b32(true);
                    self.fstring(s);
                }
            }
            Hist::Base(a, b, c) => {
                tag(self, 0);
                self.fstring(a);
                self.fstring(b);
                self.fstring(c);
            }
            Hist::Named(t, args) | Hist::Argument(t, args) => {
                tag(self, if matches!(h, Hist::Named(..)) { 1 } else { 3 });
                self.text(t);
                self.u32(args.len() as u32, FK::CountI { n: args.len() as i32 });
                for (k, a) in args {
                    self.string(k);
                    self.arg(a);
                }
            }
            Hist::Ordered(t, args) => {
                tag(self, 2);
                self.text(t);
                self.u32(args.len() as u32, FK::CountI { n: args.len() as i32 });
                for a in args {
                    self.arg(a);
                }
            }
            Hist::Number(a, o, c) | Hist::Percent(a, o, c) => {
                tag(self, if matches!(h, Hist::Number(..)) { 4 } else { 5 });
                self.arg(a);
                self.opts(o);
                self.fstring(c);
            }
            Hist::Currency(code, a, o, c) => {
                tag(self, 6);
                self.fstring(code);
                self.arg(a);
                self.opts(o);
                self.fstring(c);
            }
            Hist::Date(t, s, c) => {
                tag(self, 7);
                self.u64(*t, FK::Data);
                self.u8(*s, style);
                self.string(c);
            }
            Hist::Time(t, s, z, c) => {
                tag(self, 8);
                self.u64(*t, FK::Data);
                self.u8(*s, style);
                self.string(z);
                self.string(c);
            }
            Hist::DateTime(t, d, s, z, c) => {
                tag(self, 9);
                self.u64(*t, FK::Data);
                self.u8(*d, style);
                self.u8(*s, style);
                self.string(z);
                self.string(c);
            }
            Hist::Transform(t, k) => {
                tag(self, 10);
                self.text(t);
                self.u8(*k, FK::Enum8 { lo: 0, hi: 1 });
            }
            Hist::Table(a, b) => {
                tag(self, 11);
                self.string(a);
                self.string(b);
            }
        }
    }
}

thread_local! {
    static INVARIANT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Runs `f` with an encoder set up for the given layout switches.
pub fn with_ver<T>(ver: Ver, f: impl FnOnce(&mut Enc) -> T) -> (Enc, T) {
    INVARIANT.with(|c| c.set(ver.invariant));
    let mut e = Enc::new();
    let r = f(&mut e);
    (e, r)
}

pub fn encode_file(f: &File) -> Enc {
    with_ver(Ver::of(&f.header.custom), |e| e.file(f)).0
}

pub fn encode_file_alt(f: &File, rng: Rng) -> Enc {
    with_ver(Ver::of(&f.header.custom), |e| {
        e.alt = Some(rng);
        e.file(f)
    })
    .0
}

/// A property after its type name; `path` is the initial stack.
pub fn encode_prop(p: &P, ver: Ver, path: &[String]) -> Enc {
    with_ver(ver, |e| {
        e.stack = path.to_vec();
        e.tag_and_body(p)
    })
    .0
}

/// Hint table needed by the encoded bytes.
pub fn hint_table(e: &Enc) -> std::collections::HashMap<String, String> {
    e.hints.iter().map(|h| (h.path.clone(), h.ty.clone())).collect()
}
