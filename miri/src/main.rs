//! Executes packed library calls; meant to run in an interpreter that detects undefined behaviour.
//! mdrv PACK SECONDS: prints "at N" before each record and "done N" at the end.
use gvas::GvasFile;
use gvas::GvasHeader;
use gvas::game_version::GameVersion;
use gvas::properties::array_property::ArrayProperty;
use gvas::properties::map_property::MapProperty;
use gvas::properties::struct_property::StructPropertyValue;
use gvas::properties::{Property, PropertyOptions, PropertyTrait};
use gvas::types::{Guid, map::HashableIndexMap};
use std::collections::HashMap;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::str::FromStr;
use std::time::{Duration, Instant};

struct In<'a>(&'a [u8]);

impl<'a> In<'a> {
    fn take(&mut self, n: usize) -> &'a [u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn u8(&mut self) -> u8 {
        self.take(1)[0]
    }
    fn u32(&mut self) -> u32 {
        u32::from_le_bytes(self.take(4).try_into().unwrap())
    }
    fn bytes(&mut self) -> &'a [u8] {
        let n = self.u32() as usize;
        self.take(n)
    }
    fn str(&mut self) -> String {
        String::from_utf8(self.bytes().to_vec()).unwrap()
    }
    fn hints(&mut self) -> HashMap<String, String> {
        (0..self.u32()).map(|_| (self.str(), self.str())).collect()
    }
}

/// Delivers a few bytes per call and fails at a position. Looks at the buffers it is given.
struct Src<'a> {
    c: Cursor<&'a [u8]>,
    fail: u64,
    chunk: usize,
    seen: u8,
}
impl Read for Src<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        for k in [0, b.len() / 2, b.len().wrapping_sub(1)] {
            if let Some(x) = b.get(k) {
                self.seen ^= *x;
            }
        }
        let p = self.c.position();
        if p >= self.fail {
            return Err(io::Error::other("injected"));
        }
        let n = b.len().min(self.chunk).min((self.fail - p) as usize);
        self.c.read(&mut b[..n])
    }
}
impl Seek for Src<'_> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.c.seek(p)
    }
}
struct Sink {
    c: Cursor<Vec<u8>>,
    left: usize,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.left == 0 {
            return Err(io::Error::other("injected"));
        }
        self.left -= 1;
        let n = b.len().min(64);
        self.c.write(&b[..n])
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for Sink {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.c.seek(p)
    }
}

fn hash<T: Hash>(v: &T) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

fn game(pal: u8) -> GameVersion {
    if pal != 0 { GameVersion::Palworld } else { GameVersion::Default }
}

fn containers(p: &Property) -> u64 {
    let mut n = 0;
    let ty = match p {
        Property::IntProperty(_) => "IntProperty",
        Property::BoolProperty(_) => "BoolProperty",
        Property::ByteProperty(_) => "ByteProperty",
        Property::EnumProperty(_) => "EnumProperty",
        Property::FloatProperty(_) => "FloatProperty",
        Property::StrProperty(_) => "StrProperty",
        Property::NameProperty(_) => "NameProperty",
        Property::StructPropertyValue(_) => "StructProperty",
        _ => "ObjectProperty",
    };
    let info = match p {
        Property::StructPropertyValue(StructPropertyValue::CustomStruct(_)) => {
            Some(("F".to_string(), "S".to_string(), Guid::default()))
        }
        _ => None,
    };
    match ArrayProperty::new(ty.into(), info, vec![p.clone(), p.clone()]) {
        Ok(a) => n ^= hash(&a),
        Err(e) => n ^= e.to_string().len() as u64,
    }
    let mut m = HashableIndexMap::new();
    m.insert(p.clone(), p.clone());
    for (k, v) in [(ty, ty), (ty, "Other")] {
        n ^= hash(&MapProperty::new(k.into(), v.into(), 0, m.clone()));
    }
    n
}

fn use_property(p: Property, custom: &HashableIndexMap<Guid, u32>, pick: u32) -> usize {
    let mut q = p.clone();
    let mut n = (p == q) as usize;
    if pick % 3 == 0 {
        n += hash(&p) as usize % 2;
    }
    {
        let tagged = pick % 5 != 0;
        let hints = HashMap::new();
        let mut stack = vec![];
        let mut o = PropertyOptions { hints: &hints, properties_stack: &mut stack, custom_versions: custom };
        let mut out = vec![];
        n += p.write(&mut out, tagged, &mut o).unwrap_or(0);
    }
    match pick % 8 {
        0 => n += format!("{p:?}").len(),
        1 | 2 => {
            if let Ok(t) = serde_json::to_string(&p) {
                n += serde_json::from_str::<Property>(&t).is_ok() as usize;
            }
        }
        3 | 4 => n += containers(&p) as usize % 2,
        _ => {}
    }
    if let Some(m) = q.get_map_mut() {
        n += hash(m) as usize % 2;
    }
    if let Some(s) = q.get_str_mut() {
        s.value = None;
    }
    if let Some(a) = q.get_array_mut() {
        n += hash(a) as usize % 2;
    }
    n + (p == q) as usize
}

fn use_file(f: GvasFile, pick: u32) -> usize {
    let mut n = 0;
    if pick % 3 == 0 {
        let g = f.clone();
        n += (f == g) as usize;
    }
    if pick % 2 == 0 {
        let mut out = Cursor::new(vec![]);
        n += f.write(&mut out).is_ok() as usize;
    } else {
        let mut s = Sink { c: Cursor::new(vec![]), left: pick as usize % 29 };
        n += f.write(&mut s).is_ok() as usize;
    }
    match pick % 8 {
        0 => n += format!("{f:?}").len(),
        1 => {
            if let Ok(t) = serde_json::to_string(&f) {
                n += serde_json::from_str::<GvasFile>(&t).is_ok() as usize;
            }
        }
        2 => n += f.properties.iter().map(|(_, p)| hash(p) as usize % 2).sum::<usize>(),
        _ => {}
    }
    n
}

fn file(i: &mut In, pick: u32) -> usize {
    let pal = i.u8();
    let fail = i.u32();
    let hints = i.hints();
    let bytes = i.bytes();
    let r = if fail == u32::MAX && bytes.len() % 2 == 0 {
        GvasFile::read_with_hints(&mut Cursor::new(bytes), game(pal), &hints)
    } else {
        let mut s = Src { c: Cursor::new(bytes), fail: fail as u64, chunk: 1 + fail as usize % 40, seen: 0 };
        GvasFile::read_with_hints(&mut s, game(pal), &hints)
    };
    match r {
        Ok(f) => use_file(f, pick),
        Err(e) => e.to_string().len() + format!("{e:?}").len(),
    }
}

fn property(i: &mut In, pick: u32) -> usize {
    let ty = i.str();
    let tagged = i.u8() != 0;
    let fail = i.u32();
    let mut stack: Vec<String> = (0..i.u32()).map(|_| i.str()).collect();
    let hints = i.hints();
    let mut custom = HashableIndexMap::new();
    for _ in 0..i.u32() {
        let g = Guid(i.take(16).try_into().unwrap());
        custom.insert(g, i.u32());
    }
    let bytes = i.bytes();
    let r = {
        let mut o = PropertyOptions { hints: &hints, properties_stack: &mut stack, custom_versions: &custom };
        if fail == u32::MAX && bytes.len() % 2 == 0 {
            Property::new(&mut Cursor::new(bytes), &ty, tagged, &mut o, None)
        } else {
            let mut s = Src { c: Cursor::new(bytes), fail: fail as u64, chunk: 1 + fail as usize % 40, seen: 0 };
            Property::new(&mut s, &ty, tagged, &mut o, None)
        }
    };
    let n = stack.iter().map(|s| s.len()).sum::<usize>();
    n + match r {
        Ok(p) => use_property(p, &custom, pick),
        Err(e) => e.to_string().len(),
    }
}

fn guid(i: &mut In) -> usize {
    let g: [u8; 16] = i.take(16).try_into().unwrap();
    let x = Guid(g);
    let t = x.to_string();
    let y = [Guid::from_u128(x.to_u128()), Guid::from_u32(x.to_u32()), Guid::from_u8(x.to_u8()), Guid::from(u128::from(x)), Guid::from(<[u32; 4]>::from(x))];
    y.iter().filter(|y| **y == x).count() + Guid::from_str(&t).is_ok() as usize + Guid::from_str(&i.str()).is_ok() as usize
}

fn threads(i: &mut In) -> usize {
    let n = i.u32();
    let mut recs: Vec<&[u8]> = vec![];
    for _ in 0..n {
        recs.push(i.bytes());
    }
    // one value shared by all threads
    let mut first = In(recs[0]);
    let pal = first.u8();
    first.u32();
    let hints = first.hints();
    let shared = GvasFile::read_with_hints(&mut Cursor::new(first.bytes()), game(pal), &hints).ok();
    let (shared, recs) = (&shared, &recs);
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..3)
            .map(|t| {
                s.spawn(move || {
                    let mut n = 0;
                    for k in 0..recs.len() {
                        n += file(&mut In(recs[(k + t) % recs.len()]), 2 + t as u32);
                        match shared {
                            Some(f) if k == 0 => {
                                let mut out = Cursor::new(vec![]);
                                n += f.write(&mut out).is_ok() as usize;
                            }
                            Some(f) if t == 0 => n += (f.clone() == *f) as usize,
                            Some(f) => n += f.properties.iter().map(|(_, p)| hash(p) as usize % 2).sum::<usize>(),
                            None => {}
                        }
                        let g = Guid::from_u128(k as u128);
                        n += g.to_string().len();
                    }
                    n
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(0)).sum()
    })
}

fn record(kind: u8, body: &[u8], pick: u32) -> usize {
    let mut i = In(body);
    match kind {
        0 => file(&mut i, pick),
        1 => property(&mut i, pick),
        2 => match GvasHeader::read(&mut Cursor::new(body)) {
            Ok(h) => {
                let mut out = Cursor::new(vec![]);
                h.write(&mut out).unwrap_or(0) + format!("{h:?}").len()
            }
            Err(e) => e.to_string().len(),
        },
        3 => guid(&mut i),
        4 => match serde_json::from_slice::<GvasFile>(body) {
            Ok(f) => use_file(f, 3),
            Err(e) => e.to_string().len(),
        },
        _ => threads(&mut i),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let mut pack = std::fs::File::open(&args[1]).expect("pack");
    // records get allocations of their own: borrows of a large one are slow to track
    let mut next = |n: usize| {
        let mut b = vec![0; n];
        pack.read_exact(&mut b).expect("record");
        b
    };
    let seconds: u64 = args[2].parse().expect("seconds");
    let t0 = Instant::now();
    let head = next(8);
    let mut head = In(&head);
    let (must, n) = (head.u32(), head.u32());
    let mut done = 0;
    let mut panics = 0;
    for k in 0..n {
        if k >= must && t0.elapsed() > Duration::from_secs(seconds) {
            break;
        }
        let head = next(5);
        let kind = head[0];
        let body = next(In(&head[1..]).u32() as usize);
        println!("at {k}");
        if catch_unwind(AssertUnwindSafe(|| record(kind, &body, k))).is_err() {
            panics += 1;
        }
        done += 1;
    }
    println!("done {done} panics {panics}");
}
