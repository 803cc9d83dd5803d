//! Strict reference decoder: bytes -> model, or the defect found first.
use crate::model::*;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    /// Data ended.
    Eof,
    Header,
    ValueSize,
    Str(i32),
    StrTerm(u16),
    Bool(u32),
    MissingHint(String),
    Prop,
    Enum(i8),
    ArrIdx(u32),
    Term(u8),
    Utf16,
    Utf8,
    /// Nested deeper than this oracle decides.
    Deep,
}

#[derive(Clone, Debug)]
pub struct DErr {
    pub v: V,
    /// Offsets an error report may point at.
    pub lo: u64,
    pub hi: u64,
}

type R<T> = Result<T, DErr>;

pub const ORACLE_DEPTH: usize = 32;

pub struct Dec<'a> {
    pub d: &'a [u8],
    pub pos: usize,
    pub ver: Ver,
    pub hints: &'a HashMap<String, String>,
    pub stack: Vec<String>,
    pub depth: usize,
    /// Something the oracle leaves open was seen (repeated names, ...).
    pub notes: Notes,
}

#[derive(Clone, Debug, Default)]
pub struct Notes {
    pub dup_top: bool,
    pub dup_key: bool,
    pub max_depth: usize,
    pub props: usize,
}

fn err<T>(v: V, lo: usize, hi: usize) -> R<T> {
    Err(DErr { v, lo: lo as u64, hi: hi as u64 })
}

impl<'a> Dec<'a> {
    pub fn new(d: &'a [u8], hints: &'a HashMap<String, String>) -> Self {
        Dec {
            d,
            pos: 0,
            ver: Ver { lwc: false, arg64: false, invariant: false },
            hints,
            stack: vec![],
            depth: 0,
            notes: Notes::default(),
        }
    }

    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.d.len() - self.pos < n {
            let p = self.pos;
            self.pos = self.d.len();
            return err(V::Eof, p, self.d.len());
        }
        let s = &self.d[self.pos..self.pos + n];
        self.pos += n;
        Ok(s)
    }
    fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    fn u16(&mut self) -> R<u16> {
        Ok(u16::from_le_bytes(self.take(2)?.try_into().unwrap()))
    }
    fn u32(&mut self) -> R<u32> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn u64(&mut self) -> R<u64> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    fn guid(&mut self) -> R<[u8; 16]> {
        Ok(self.take(16)?.try_into().unwrap())
    }
    fn fstring(&mut self) -> R<Option<String>> {
        let start = self.pos;
        let len = self.u32()? as i32;
        if len == 0 {
            return Ok(None);
        }
        if !(-131072..=131072).contains(&len) {
            return err(V::Str(len), start, self.pos);
        }
        if len < 0 {
            let n = (-len) as usize - 1;
            let raw = self.take(n * 2)?;
            let ts = self.pos;
            let t = self.u16()?;
            if t != 0 {
                return err(V::StrTerm(t), ts, self.pos);
            }
            let units: Vec<u16> = raw.chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
            match String::from_utf16(&units) {
                Ok(s) => Ok(Some(s)),
                Err(_) => err(V::Utf16, start, self.pos),
            }
        } else {
            let n = len as usize - 1;
            let raw = self.take(n)?;
            let ts = self.pos;
            let t = self.u8()?;
            if t != 0 {
                return err(V::StrTerm(t as u16), ts, self.pos);
            }
            match std::str::from_utf8(raw) {
                Ok(s) => Ok(Some(s.to_string())),
                Err(_) => err(V::Utf8, start, self.pos),
            }
        }
    }
    fn string(&mut self) -> R<String> {
        let start = self.pos;
        match self.fstring()? {
            Some(s) => Ok(s),
            None => err(V::Str(0), start, self.pos),
        }
    }
    fn bool8(&mut self) -> R<bool> {
        let s = self.pos;
        match self.u8()? {
            0 => Ok(false),
            1 => Ok(true),
            v => err(V::Bool(v as u32), s, self.pos),
        }
    }
    fn b32(&mut self) -> R<bool> {
        let s = self.pos;
        match self.u32()? {
            0 => Ok(false),
            1 => Ok(true),
            v => err(V::Bool(v), s, self.pos),
        }
    }
    fn enum8(&mut self, lo: i8, hi: i8) -> R<i8> {
        let s = self.pos;
        let v = self.u8()? as i8;
        if v < lo || v > hi {
            return err(V::Enum(v), s, self.pos);
        }
        Ok(v)
    }
    fn term(&mut self) -> R<()> {
        let s = self.pos;
        match self.u8()? {
            0 => Ok(()),
            v => err(V::Term(v), s, self.pos),
        }
    }
    fn count_i(&mut self) -> R<u32> {
        let s = self.pos;
        let v = self.u32()? as i32;
        if v < 0 {
            return err(V::Prop, s, self.pos);
        }
        Ok(v as u32)
    }

    pub fn header(&mut self) -> R<Header> {
        let s = self.pos;
        if self.take(4)? != b"GVAS" {
            return err(V::Header, s, self.pos);
        }
        let version = self.u32()?;
        if version != 2 && version != 3 {
            return err(V::Header, s, self.pos);
        }
        let pkg = self.u32()?;
        if !(0x205..=0x20D).contains(&pkg) {
            return err(V::Header, s, self.pos);
        }
        let mut ue5 = 0;
        if version == 3 {
            ue5 = self.u32()?;
            if !(1000..=1009).contains(&ue5) {
                return err(V::Header, s, self.pos);
            }
        }
        let major = self.u16()?;
        let minor = self.u16()?;
        let patch = self.u16()?;
        let changelist = self.u32()?;
        let branch = self.string()?;
        if self.u32()? != 3 {
            return err(V::Header, s, self.pos);
        }
        let n = self.u32()?;
        let mut custom: Vec<([u8; 16], u32)> = vec![];
        for _ in 0..n {
            let g = self.guid()?;
            let v = self.u32()?;
            match custom.iter_mut().find(|(k, _)| *k == g) {
                Some(e) => e.1 = v,
                None => custom.push((g, v)),
            }
        }
        let class = self.string()?;
        Ok(Header { version, pkg, ue5, major, minor, patch, changelist, branch, custom, class })
    }

    /// A plain (not containerised) save. Data after the terminator is not looked at.
    pub fn file(&mut self) -> R<File> {
        let header = self.header()?;
        self.ver = Ver::of(&header.custom);
        let mut props: Vec<(String, P)> = vec![];
        let mut index: HashMap<String, usize> = HashMap::new();
        loop {
            let name = self.string()?;
            if name == "None" {
                break;
            }
            let ty = self.string()?;
            self.stack.push(name.clone());
            let p = self.prop(&ty, true, None)?;
            self.stack.pop();
            match index.get(&name) {
                Some(&i) => {
                    self.notes.dup_top = true;
                    props[i].1 = p;
                }
                None => {
                    index.insert(name.clone(), props.len());
                    props.push((name, p));
                }
            }
        }
        Ok(File { pal: None, header, props })
    }

    fn enter(&mut self) -> R<()> {
        self.depth += 1;
        self.notes.max_depth = self.notes.max_depth.max(self.depth);
        if self.depth > ORACLE_DEPTH {
            return err(V::Deep, 0, 0);
        }
        Ok(())
    }

    pub fn prop(&mut self, ty: &str, tagged: bool, sugg: Option<u32>) -> R<P> {
        self.notes.props += 1;
        self.enter()?;
        self.stack.push(ty.to_string());
        let r = self.prop_inner(ty, tagged, sugg)?;
        self.stack.pop();
        self.depth -= 1;
        Ok(r)
    }

    fn fixed(&mut self, size: u64) -> R<()> {
        let s = self.pos;
        let v = self.u64()?;
        if v != size {
            return err(V::ValueSize, s, self.pos);
        }
        self.term()
    }

    /// Reads length + array index; returns (tag start, length, index).
    fn tag(&mut self, allow_index: bool) -> R<(usize, u32, u32)> {
        let s = self.pos;
        let len = self.u32()?;
        let is = self.pos;
        let idx = self.u32()?;
        if idx != 0 && !allow_index {
            return err(V::ArrIdx(idx), is, self.pos);
        }
        Ok((s, len, idx))
    }

    fn check_len(&mut self, tag: usize, body: usize, len: u32) -> R<()> {
        if (self.pos - body) as u64 != len as u64 {
            return err(V::ValueSize, tag, body);
        }
        Ok(())
    }

    fn prop_inner(&mut self, ty: &str, tagged: bool, sugg: Option<u32>) -> R<P> {
        macro_rules! int {
            ($size:expr, $v:expr) => {{
                if tagged {
                    self.fixed($size)?;
                }
                Ok($v)
            }};
        }
        macro_rules! simple {
            ($body:expr) => {{
                if tagged {
                    let (t, len, _) = self.tag(false)?;
                    self.term()?;
                    let b = self.pos;
                    let v = $body;
                    self.check_len(t, b, len)?;
                    Ok(v)
                } else {
                    Ok($body)
                }
            }};
        }
        match ty {
            "Int8Property" => int!(1, P::I8(self.u8()? as i8)),
            "Int16Property" => int!(2, P::I16(self.u16()? as i16)),
            "UInt16Property" => int!(2, P::U16(self.u16()?)),
            "IntProperty" => int!(4, P::I32(self.u32()? as i32)),
            "UInt32Property" => int!(4, P::U32(self.u32()?)),
            "Int64Property" => int!(8, P::I64(self.u64()? as i64)),
            "UInt64Property" => int!(8, P::U64(self.u64()?)),
            "FloatProperty" => int!(4, P::F32(self.u32()?)),
            "DoubleProperty" => int!(8, P::F64(self.u64()?)),
            "BoolProperty" => {
                if tagged {
                    let s = self.pos;
                    if self.u64()? != 0 {
                        return err(V::ValueSize, s, self.pos);
                    }
                }
                let v = self.bool8()?;
                if tagged {
                    self.term()?;
                }
                Ok(P::Bool(v))
            }
            "ByteProperty" => {
                if tagged {
                    let (t, len, _) = self.tag(false)?;
                    let name = self.string()?;
                    self.term()?;
                    let b = self.pos;
                    let v = if len <= 2 {
                        ByteV::Byte(self.u8()?)
                    } else {
                        ByteV::Name(self.string()?)
                    };
                    self.check_len(t, b, len)?;
                    Ok(P::Byte(Some(name), v))
                } else if sugg.is_none_or(|s| s <= 2) {
                    Ok(P::Byte(None, ByteV::Byte(self.u8()?)))
                } else {
                    Ok(P::Byte(None, ByteV::Name(self.string()?)))
                }
            }
            "EnumProperty" => {
                if tagged {
                    let (t, len, _) = self.tag(false)?;
                    let et = self.string()?;
                    self.term()?;
                    let b = self.pos;
                    let v = self.string()?;
                    self.check_len(t, b, len)?;
                    Ok(P::Enum(Some(et), v))
                } else {
                    Ok(P::Enum(None, self.string()?))
                }
            }
            "StrProperty" => simple!(P::Str(self.fstring()?)),
            "NameProperty" => {
                if tagged {
                    let (t, len, idx) = self.tag(true)?;
                    self.term()?;
                    let b = self.pos;
                    let v = self.fstring()?;
                    self.check_len(t, b, len)?;
                    Ok(P::Name(idx, v))
                } else {
                    Ok(P::Name(0, self.fstring()?))
                }
            }
            "ObjectProperty" => simple!(P::Object(self.string()?)),
            "TextProperty" => simple!(P::Text(self.text()?)),
            "DelegateProperty" => simple!(P::Delegate(self.deleg()?)),
            "MulticastInlineDelegateProperty" => simple!(P::MInline(self.delegs()?)),
            "MulticastSparseDelegateProperty" => simple!(P::MSparse(self.delegs()?)),
            "FieldPathProperty" => simple!({
                let n = self.u32()?;
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.string()?);
                }
                let o = self.string()?;
                P::FieldPath(v, o)
            }),
            "StructProperty" => {
                if tagged {
                    let (t, len, _) = self.tag(false)?;
                    let ty = self.string()?;
                    let g = self.guid()?;
                    self.term()?;
                    let b = self.pos;
                    let sv = self.sv(&ty)?;
                    self.check_len(t, b, len)?;
                    Ok(P::Struct(g, ty, sv))
                } else {
                    let path = self.stack.join(".");
                    match self.hints.get(&path).cloned() {
                        Some(h) => Ok(P::SVal(self.sv(&h)?)),
                        None => err(V::MissingHint(path), self.pos, self.pos),
                    }
                }
            }
            "ArrayProperty" => {
                if !tagged {
                    return err(V::Prop, self.pos, self.pos);
                }
                let (t, len, _) = self.tag(false)?;
                let ty = self.string()?;
                self.term()?;
                let b = self.pos;
                let n = self.u32()?;
                let mut elems = vec![];
                let mut info = None;
                if ty == "StructProperty" {
                    let field = self.string()?;
                    let s = self.pos;
                    if self.string()? != "StructProperty" {
                        return err(V::Prop, s, self.pos);
                    }
                    let s = self.pos;
                    let size = self.u64()?;
                    let sty = self.string()?;
                    let guid = self.guid()?;
                    self.term()?;
                    let es = self.pos;
                    for _ in 0..n {
                        elems.push(P::SVal(self.sv(&sty)?));
                    }
                    if (self.pos - es) as u64 != size {
                        return err(V::Prop, s, self.pos);
                    }
                    info = Some(SInfo { field, ty: sty, guid });
                } else {
                    let sugg = if n > 0 && len >= 4 { Some((len - 4) / n) } else { None };
                    self.elements(&ty, n, sugg, &mut elems)?;
                }
                self.check_len(t, b, len)?;
                Ok(P::Array { ty, info, elems })
            }
            "SetProperty" => {
                if !tagged {
                    return err(V::Prop, self.pos, self.pos);
                }
                let (t, len, _) = self.tag(false)?;
                let ty = self.string()?;
                self.term()?;
                let b = self.pos;
                let flags = self.u32()?;
                let n = self.u32()?;
                let mut elems = vec![];
                if len < 8 {
                    return err(V::ValueSize, t, self.pos);
                }
                let sugg = (len - 8).checked_div(n);
                self.elements(&ty, n, sugg, &mut elems)?;
                self.check_len(t, b, len)?;
                Ok(P::Set { ty, flags, elems })
            }
            "MapProperty" => {
                if !tagged {
                    return err(V::Prop, self.pos, self.pos);
                }
                let (t, len, _) = self.tag(false)?;
                let kt = self.string()?;
                let vt = self.string()?;
                self.term()?;
                let b = self.pos;
                let flags = self.u32()?;
                let n = self.u32()?;
                let mut entries: Vec<(P, P)> = vec![];
                let mut index: HashMap<Vec<u8>, usize> = HashMap::new();
                for _ in 0..n {
                    self.stack.push("Key".into());
                    let k = self.prop(&kt, false, None)?;
                    self.stack.pop();
                    self.stack.push("Value".into());
                    let v = self.prop(&vt, false, None)?;
                    self.stack.pop();
                    let c = canon(&k);
                    match index.get(&c) {
                        Some(&i) => {
                            self.notes.dup_key = true;
                            entries[i].1 = v;
                        }
                        None => {
                            index.insert(c, entries.len());
                            entries.push((k, v));
                        }
                    }
                }
                self.check_len(t, b, len)?;
                Ok(P::Map { kt, vt, flags, entries })
            }
            _ => {
                if tagged {
                    let (_, len, _) = self.tag(false)?;
                    self.term()?;
                    let raw = self.take(len as usize)?.to_vec();
                    Ok(P::Unknown(ty.to_string(), raw))
                } else if let Some(n) = sugg {
                    if n == 0 {
                        return err(V::Prop, self.pos, self.pos);
                    }
                    let raw = self.take(n as usize)?.to_vec();
                    Ok(P::Unknown(ty.to_string(), raw))
                } else {
                    err(V::Prop, self.pos, self.pos)
                }
            }
        }
    }

    fn elements(&mut self, ty: &str, n: u32, sugg: Option<u32>, out: &mut Vec<P>) -> R<()> {
        for _ in 0..n {
            out.push(self.prop(ty, false, sugg)?);
        }
        Ok(())
    }

    fn deleg(&mut self) -> R<Deleg> {
        Ok(Deleg { object: self.string()?, func: self.string()? })
    }
    fn delegs(&mut self) -> R<Vec<Deleg>> {
        let n = self.u32()?;
        let mut v = vec![];
        for _ in 0..n {
            v.push(self.deleg()?);
        }
        Ok(v)
    }

    fn sv(&mut self, ty: &str) -> R<SV> {
        let d = self.ver.lwc;
        macro_rules! arr {
            ($n:expr, $m:ident) => {{
                let mut a = [Default::default(); $n];
                for x in a.iter_mut() {
                    *x = self.$m()?;
                }
                a
            }};
        }
        Ok(match ty {
            "Vector" if d => SV::VD(arr!(3, u64)),
            "Vector" => SV::VF(arr!(3, u32)),
            "Vector2D" if d => SV::V2D(arr!(2, u64)),
            "Vector2D" => SV::V2F(arr!(2, u32)),
            "Rotator" if d => SV::RD(arr!(3, u64)),
            "Rotator" => SV::RF(arr!(3, u32)),
            "Quat" if d => SV::QD(arr!(4, u64)),
            "Quat" => SV::QF(arr!(4, u32)),
            "DateTime" => SV::DateTime(self.u64()?),
            "Timespan" => SV::Timespan(self.u64()?),
            "LinearColor" => SV::Color(arr!(4, u32)),
            "IntPoint" => SV::IntPoint([self.u32()? as i32, self.u32()? as i32]),
            "Guid" => SV::Guid(self.guid()?),
            "GameplayTagContainer" => {
                let n = self.count_i()?;
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.string()?);
                }
                SV::Tags(v)
            }
            _ => {
                let mut m: Vec<(String, Vec<P>)> = vec![];
                let mut index: HashMap<String, usize> = HashMap::new();
                loop {
                    let name = self.string()?;
                    if name == "None" {
                        break;
                    }
                    let ty = self.string()?;
                    self.stack.push(name.clone());
                    let p = self.prop(&ty, true, None)?;
                    self.stack.pop();
                    match index.get(&name) {
                        Some(&i) => m[i].1.push(p),
                        None => {
                            index.insert(name.clone(), m.len());
                            m.push((name, vec![p]));
                        }
                    }
                }
                SV::Custom(m)
            }
        })
    }

    pub fn text(&mut self) -> R<Text> {
        self.enter()?;
        let flags = self.u32()?;
        let hist = self.hist()?;
        self.depth -= 1;
        Ok(Text { flags, hist })
    }

    fn args_named(&mut self) -> R<Vec<(String, Arg)>> {
        let n = self.count_i()?;
        let mut v: Vec<(String, Arg)> = vec![];
        let mut index: HashMap<String, usize> = HashMap::new();
        for _ in 0..n {
            let k = self.string()?;
            let a = self.arg()?;
            match index.get(&k) {
                Some(&i) => {
                    self.notes.dup_key = true;
                    v[i].1 = a;
                }
                None => {
                    index.insert(k.clone(), v.len());
                    v.push((k, a));
                }
            }
        }
        Ok(v)
    }

    fn opts(&mut self) -> R<Option<NumOpts>> {
        if !self.b32()? {
            return Ok(None);
        }
        Ok(Some(NumOpts {
            sign: self.b32()?,
            group: self.b32()?,
            rounding: self.enum8(0, 6)? as u8,
            digits: [
                self.u32()? as i32,
                self.u32()? as i32,
                self.u32()? as i32,
                self.u32()? as i32,
            ],
        }))
    }

    fn arg(&mut self) -> R<Arg> {
        Ok(match self.enum8(0, 4)? {
            0 if self.ver.arg64 => Arg::Int64(self.u64()? as i64),
            0 => Arg::Int(self.u32()? as i32),
            1 if self.ver.arg64 => Arg::UInt64(self.u64()?),
            1 => Arg::UInt(self.u32()?),
            2 => Arg::F32(self.u32()?),
            3 => Arg::F64(self.u64()?),
            _ => Arg::Text(Box::new(self.text()?)),
        })
    }

    fn hist(&mut self) -> R<Hist> {
        Ok(match self.enum8(-1, 11)? {
            -1 => {
                if self.ver.invariant && self.b32()? {
                    Hist::None(self.fstring()?)
                } else {
                    Hist::Empty
                }
            }
            0 => Hist::Base(self.fstring()?, self.fstring()?, self.fstring()?),
            1 => {
                let t = Box::new(self.text()?);
                Hist::Named(t, self.args_named()?)
            }
            2 => {
                let t = Box::new(self.text()?);
                let n = self.count_i()?;
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.arg()?);
                }
                Hist::Ordered(t, v)
            }
            3 => {
                let t = Box::new(self.text()?);
                Hist::Argument(t, self.args_named()?)
            }
            4 => Hist::Number(Box::new(self.arg()?), self.opts()?, self.fstring()?),
            5 => Hist::Percent(Box::new(self.arg()?), self.opts()?, self.fstring()?),
            6 => Hist::Currency(self.fstring()?, Box::new(self.arg()?), self.opts()?, self.fstring()?),
            7 => Hist::Date(self.u64()?, self.enum8(0, 4)? as u8, self.string()?),
            8 => Hist::Time(self.u64()?, self.enum8(0, 4)? as u8, self.string()?, self.string()?),
            9 => Hist::DateTime(
                self.u64()?,
                self.enum8(0, 4)? as u8,
                self.enum8(0, 4)? as u8,
                self.string()?,
                self.string()?,
            ),
            10 => {
                let t = Box::new(self.text()?);
                Hist::Transform(t, self.enum8(0, 1)? as u8)
            }
            _ => Hist::Table(self.string()?, self.string()?),
        })
    }
}

/// Canonical form: two values are equal by content exactly when these bytes agree
/// (map entries regardless of order, zeros equal, NaNs equal).
pub fn canon(p: &P) -> Vec<u8> {
    let mut o = vec![];
    canon_p(p, &mut o);
    o
}

fn cs(s: &str, o: &mut Vec<u8>) {
    o.extend_from_slice(&(s.len() as u64).to_le_bytes());
    o.extend_from_slice(s.as_bytes());
}
fn co(s: &Option<String>, o: &mut Vec<u8>) {
    match s {
        Some(s) => {
            o.push(1);
            cs(s, o)
        }
        None => o.push(0),
    }
}
fn cn(n: usize, o: &mut Vec<u8>) {
    o.extend_from_slice(&(n as u64).to_le_bytes());
}
fn cf32(v: u32, o: &mut Vec<u8>) {
    let f = f32::from_bits(v);
    let v = if f.is_nan() {
        0x7fc0_0000
    } else if f == 0.0 {
        0
    } else {
        v
    };
    o.extend_from_slice(&v.to_le_bytes());
}
fn cf64(v: u64, o: &mut Vec<u8>) {
    let f = f64::from_bits(v);
    let v = if f.is_nan() {
        0x7ff8_0000_0000_0000
    } else if f == 0.0 {
        0
    } else {
        v
    };
    o.extend_from_slice(&v.to_le_bytes());
}
fn csorted(mut v: Vec<Vec<u8>>, o: &mut Vec<u8>) {
    v.sort();
    cn(v.len(), o);
    for e in v {
        cn(e.len(), o);
        o.extend(e);
    }
}
fn cd(d: &Deleg, o: &mut Vec<u8>) {
    cs(&d.object, o);
    cs(&d.func, o);
}

pub fn canon_sv(sv: &SV, o: &mut Vec<u8>) {
    match sv {
        SV::V2F(v) => {
            o.push(0);
            v.iter().for_each(|x| cf32(*x, o))
        }
        SV::V2D(v) => {
            o.push(1);
            v.iter().for_each(|x| cf64(*x, o))
        }
        SV::VF(v) => {
            o.push(2);
            v.iter().for_each(|x| cf32(*x, o))
        }
        SV::VD(v) => {
            o.push(3);
            v.iter().for_each(|x| cf64(*x, o))
        }
        SV::RF(v) => {
            o.push(4);
            v.iter().for_each(|x| cf32(*x, o))
        }
        SV::RD(v) => {
            o.push(5);
            v.iter().for_each(|x| cf64(*x, o))
        }
        SV::QF(v) => {
            o.push(6);
            v.iter().for_each(|x| cf32(*x, o))
        }
        SV::QD(v) => {
            o.push(7);
            v.iter().for_each(|x| cf64(*x, o))
        }
        SV::DateTime(t) => {
            o.push(8);
            o.extend_from_slice(&t.to_le_bytes())
        }
        SV::Timespan(t) => {
            o.push(9);
            o.extend_from_slice(&t.to_le_bytes())
        }
        SV::Guid(g) => {
            o.push(10);
            o.extend_from_slice(g)
        }
        SV::Color(v) => {
            o.push(11);
            v.iter().for_each(|x| cf32(*x, o))
        }
        SV::IntPoint(v) => {
            o.push(12);
            v.iter().for_each(|x| o.extend_from_slice(&x.to_le_bytes()))
        }
        SV::Tags(v) => {
            o.push(13);
            cn(v.len(), o);
            v.iter().for_each(|s| cs(s, o))
        }
        SV::Custom(m) => {
            o.push(14);
            let entries = m
                .iter()
                .map(|(k, vs)| {
                    let mut e = vec![];
                    cs(k, &mut e);
                    cn(vs.len(), &mut e);
                    vs.iter().for_each(|v| canon_p(v, &mut e));
                    e
                })
                .collect();
            csorted(entries, o);
        }
    }
}

pub fn canon_text(t: &Text, o: &mut Vec<u8>) {
    o.extend_from_slice(&t.flags.to_le_bytes());
    let args = |v: &[(String, Arg)], o: &mut Vec<u8>| {
        let e = v
            .iter()
            .map(|(k, a)| {
                let mut e = vec![];
                cs(k, &mut e);
                canon_arg(a, &mut e);
                e
            })
            .collect();
        csorted(e, o);
    };
    let opt = |n: &Option<NumOpts>, o: &mut Vec<u8>| match n {
        None => o.push(0),
        Some(n) => {
            o.push(1);
            o.push(n.sign as u8);
            o.push(n.group as u8);
            o.push(n.rounding);
            n.digits.iter().for_each(|d| o.extend_from_slice(&d.to_le_bytes()));
        }
    };
    match &t.hist {
        Hist::Empty => o.push(100),
        Hist::None(s) => {
            o.push(101);
            co(s, o)
        }
        Hist::Base(a, b, c) => {
            o.push(0);
            co(a, o);
            co(b, o);
            co(c, o)
        }
        Hist::Named(t, a) => {
            o.push(1);
            canon_text(t, o);
            args(a, o)
        }
        Hist::Ordered(t, a) => {
            o.push(2);
            canon_text(t, o);
            cn(a.len(), o);
            a.iter().for_each(|x| canon_arg(x, o))
        }
        Hist::Argument(t, a) => {
            o.push(3);
            canon_text(t, o);
            args(a, o)
        }
        Hist::Number(a, n, c) => {
            o.push(4);
            canon_arg(a, o);
            opt(n, o);
            co(c, o)
        }
        Hist::Percent(a, n, c) => {
            o.push(5);
            canon_arg(a, o);
            opt(n, o);
            co(c, o)
        }
        Hist::Currency(code, a, n, c) => {
            o.push(6);
            co(code, o);
            canon_arg(a, o);
            opt(n, o);
            co(c, o)
        }
        Hist::Date(t, s, c) => {
            o.push(7);
            o.extend_from_slice(&t.to_le_bytes());
            o.push(*s);
            cs(c, o)
        }
        Hist::Time(t, s, z, c) => {
            o.push(8);
            o.extend_from_slice(&t.to_le_bytes());
            o.push(*s);
            cs(z, o);
            cs(c, o)
        }
        Hist::DateTime(t, d, s, z, c) => {
            o.push(9);
            o.extend_from_slice(&t.to_le_bytes());
            o.push(*d);
            o.push(*s);
            cs(z, o);
            cs(c, o)
        }
        Hist::Transform(t, k) => {
            o.push(10);
            canon_text(t, o);
            o.push(*k)
        }
        Hist::Table(a, b) => {
            o.push(11);
            cs(a, o);
            cs(b, o)
        }
    }
}

fn canon_arg(a: &Arg, o: &mut Vec<u8>) {
    match a {
        Arg::Int(v) => {
            o.push(0);
            o.extend_from_slice(&v.to_le_bytes())
        }
        Arg::UInt(v) => {
            o.push(1);
            o.extend_from_slice(&v.to_le_bytes())
        }
        Arg::F32(v) => {
            o.push(2);
            cf32(*v, o)
        }
        Arg::F64(v) => {
            o.push(3);
            cf64(*v, o)
        }
        Arg::Text(t) => {
            o.push(4);
            canon_text(t, o)
        }
        Arg::Int64(v) => {
            o.push(5);
            o.extend_from_slice(&v.to_le_bytes())
        }
        Arg::UInt64(v) => {
            o.push(6);
            o.extend_from_slice(&v.to_le_bytes())
        }
    }
}

pub fn canon_p(p: &P, o: &mut Vec<u8>) {
    match p {
        P::I8(v) => {
            o.push(0);
            o.extend_from_slice(&v.to_le_bytes())
        }
        P::Byte(n, v) => {
            o.push(1);
            co(n, o);
            match v {
                ByteV::Byte(b) => {
                    o.push(0);
                    o.push(*b)
                }
                ByteV::Name(s) => {
                    o.push(1);
                    cs(s, o)
                }
            }
        }
        P::I16(v) => {
            o.push(2);
            o.extend_from_slice(&v.to_le_bytes())
        }
        P::U16(v) => {
            o.push(3);
            o.extend_from_slice(&v.to_le_bytes())
        }
        P::I32(v) => {
            o.push(4);
            o.extend_from_slice(&v.to_le_bytes())
        }
        P::U32(v) => {
            o.push(5);
            o.extend_from_slice(&v.to_le_bytes())
        }
        P::I64(v) => {
            o.push(6);
            o.extend_from_slice(&v.to_le_bytes())
        }
        P::U64(v) => {
            o.push(7);
            o.extend_from_slice(&v.to_le_bytes())
        }
        P::F32(v) => {
            o.push(8);
            cf32(*v, o)
        }
        P::F64(v) => {
            o.push(9);
            cf64(*v, o)
        }
        P::Bool(v) => {
            o.push(10);
            o.push(*v as u8)
        }
        P::Enum(t, v) => {
            o.push(11);
            co(t, o);
            cs(v, o)
        }
        P::Str(v) => {
            o.push(12);
            co(v, o)
        }
        P::Name(i, v) => {
            o.push(13);
            o.extend_from_slice(&i.to_le_bytes());
            co(v, o)
        }
        P::Object(v) => {
            o.push(14);
            cs(v, o)
        }
        P::Text(t) => {
            o.push(15);
            canon_text(t, o)
        }
        P::Delegate(d) => {
            o.push(16);
            cd(d, o)
        }
        P::MInline(v) => {
            o.push(17);
            cn(v.len(), o);
            v.iter().for_each(|d| cd(d, o))
        }
        P::MSparse(v) => {
            o.push(18);
            cn(v.len(), o);
            v.iter().for_each(|d| cd(d, o))
        }
        P::FieldPath(v, w) => {
            o.push(19);
            cn(v.len(), o);
            v.iter().for_each(|d| cs(d, o));
            cs(w, o)
        }
        P::Struct(g, t, sv) => {
            o.push(20);
            o.extend_from_slice(g);
            cs(t, o);
            canon_sv(sv, o)
        }
        P::SVal(sv) => {
            o.push(21);
            canon_sv(sv, o)
        }
        P::Array { ty, info, elems } => {
            o.push(22);
            cs(ty, o);
            match info {
                None => o.push(0),
                Some(i) => {
                    o.push(1);
                    cs(&i.field, o);
                    cs(&i.ty, o);
                    o.extend_from_slice(&i.guid)
                }
            }
            cn(elems.len(), o);
            elems.iter().for_each(|e| canon_p(e, o))
        }
        P::Set { ty, flags, elems } => {
            o.push(23);
            cs(ty, o);
            o.extend_from_slice(&flags.to_le_bytes());
            cn(elems.len(), o);
            elems.iter().for_each(|e| canon_p(e, o))
        }
        P::Map { kt, vt, flags, entries } => {
            o.push(24);
            cs(kt, o);
            cs(vt, o);
            o.extend_from_slice(&flags.to_le_bytes());
            let e = entries
                .iter()
                .map(|(k, v)| {
                    let mut e = vec![];
                    canon_p(k, &mut e);
                    canon_p(v, &mut e);
                    e
                })
                .collect();
            csorted(e, o)
        }
        P::Unknown(t, raw) => {
            o.push(25);
            cs(t, o);
            cn(raw.len(), o);
            o.extend_from_slice(raw)
        }
    }
}
