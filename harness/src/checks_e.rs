//! C27: the work of every operation grows in proportion to the size of the save.
use crate::alloc;
use crate::bulk::*;
use crate::ctx::*;
use crate::gen_::*;
use crate::model::*;
use crate::rng::Rng;
use gvas::GvasFile;
use std::hash::{DefaultHasher, Hash, Hasher};

/// How many times larger the large save of a pair is.
const GROWTH: u64 = 16;
/// Processor time may grow by this factor more than the save.
const SLACK: u64 = 6;
/// Times within which page faults and caches weigh more than the work.
const FLOOR_NS: u64 = 100_000_000;

unsafe extern "C" {
    fn clock_gettime(clock: i32, time: *mut [i64; 2]) -> i32;
}

/// Processor time used by this thread.
fn cpu_ns() -> u64 {
    const THREAD_CPUTIME: i32 = 3;
    let mut t = [0i64; 2];
    if unsafe { clock_gettime(THREAD_CPUTIME, &mut t) } != 0 {
        panic!("harness: no processor time clock");
    }
    t[0] as u64 * 1_000_000_000 + t[1] as u64
}

/// Parts that can grow; with `true`, the rest of the file grows too.
fn growing() -> Vec<(Site, bool)> {
    let mut v: Vec<(Site, bool)> = vec![];
    for (s, _) in bulk_list() {
        if v.contains(&(s, false)) {
            continue;
        }
        v.push((s, false));
        if matches!(s, Site::Arr(K::Struct(_)) | Site::Set(K::Struct(_)) | Site::Map(_, K::Struct(_)) | Site::Arr(K::Text(_)) | Site::Members | Site::Top) {
            v.push((s, true));
        }
    }
    v
}

pub fn c27_directed() -> u64 {
    growing().len() as u64
}

/// A save and what is needed to read it.
struct Save {
    bytes: Vec<u8>,
    pal: bool,
    hints: Hints,
}

fn save(mut r: Rng, site: Site, n: usize, around: bool, pal: Option<Pal>) -> Save {
    let mut m = bulk_file(&mut r, (site, n), !matches!(site, Site::Nest(_)));
    if around {
        for i in 0..n {
            let mut g = [0x6Bu8; 16];
            g[5..13].copy_from_slice(&(i as u64).to_le_bytes());
            m.header.custom.push((g, i as u32));
            m.props.push((format!("around{i}"), P::I32(i as i32)));
        }
    }
    m.pal = pal;
    let mut made = make(m);
    if around {
        for i in 0..n {
            made.hints.insert(format!("P.ArrayProperty.StructProperty.{i}"), "Guid".into());
        }
    }
    let bytes = match pal {
        Some(t) => container(&made.enc.buf, t, 6, 6),
        None => made.enc.buf,
    };
    Save { bytes, pal: pal.is_some(), hints: made.hints }
}

/// Smallest processor time of some runs, and the memory one run asks for.
fn cost(runs: u32, f: &mut dyn FnMut()) -> (u64, u64) {
    let (mut best, mut asked) = (u64::MAX, 0);
    for _ in 0..runs {
        let (a0, t0) = (alloc::total(), cpu_ns());
        f();
        best = best.min(cpu_ns() - t0);
        asked = alloc::total() - a0;
    }
    (best, asked)
}

fn compare(what: &str, site: &str, small: &mut dyn FnMut(), large: &mut dyn FnMut(), bytes: &[u8], ctx: &mut Ctx) -> CR {
    let (mut t1, a1) = must(what, || cost(3, small))?;
    let (mut t2, a2) = must(what, || cost(1, large))?;
    ctx.eval(format!("{what} {site} {}", bytes.len()).as_bytes(), true);
    ctx.count("pairs compared");
    if a2 > a1 * GROWTH * 4 + (4 << 20) {
        return viol(
            &format!("memory requests of {what}"),
            format!("{what}, {site}: {a1} bytes asked for in all, {a2} for the larger save"),
        );
    }
    let slow = |t1: u64, t2: u64| t2 > FLOOR_NS + GROWTH * SLACK * t1;
    let mut again = 0;
    while slow(t1, t2) {
        if again == 4 {
            return viol(
                &format!("time of {what}"),
                format!("{what}, {site}: {t1} ns, but {t2} ns for the larger save"),
            );
        }
        again += 1;
        std::thread::sleep(std::time::Duration::from_millis(300));
        // the slowest of the small ones, the fastest of the large ones
        t1 = t1.max(must(what, || cost(3, small))?.0);
        t2 = t2.min(must(what, || cost(1, large))?.0);
    }
    if again > 0 {
        ctx.count("pairs measured again");
    }
    Ok(())
}

pub fn c27(idx: u64, r: &mut Rng, ctx: &mut Ctx) -> CR {
    let all = growing();
    let (site, around) = if (idx as usize) < all.len() {
        // neighbouring sites cost about the same, workers take every eighth
        all[idx as usize]
    } else {
        *r.pick(&all)
    };
    let n = match site {
        Site::Str(..) => 8000,
        Site::Raw => 65_000,
        Site::Nest(_) => 8,
        _ => 3500,
    };
    let n = n - r.usize(n / 8 + 1);
    let pal = if r.chance(1, 3) { Some(random_pal(r)) } else { None };
    let small = save(r.clone(), site, n, around, pal);
    // nesting: four times as deep, work may grow with its square
    let more = if matches!(site, Site::Nest(_)) { 4 } else { GROWTH as usize };
    let large = save(r.clone(), site, n * more, around, pal);
    let name = format!("{site:?}{}, {n} parts", if around { " and all around it" } else { "" });
    ctx.sample(|| format!("{name}: {} and {} bytes", small.bytes.len(), large.bytes.len()));
    let read = |s: &Save| -> Result<GvasFile, Viol> {
        match must("read", || read_file(&s.bytes, s.pal, &s.hints))? {
            Ok(f) => Ok(f),
            Err(e) => viol("valid save rejected", format!("{name}: {e:?}")),
        }
    };
    let go = |s: &Save| drop(read_file(&s.bytes, s.pal, &s.hints));
    compare("read", &name, &mut || go(&small), &mut || go(&large), &large.bytes, ctx)?;
    let (a, b) = (read(&small)?, read(&large)?);
    // rejected near the end
    let cut = |s: &Save| {
        let n = s.bytes.len() - 1 - s.bytes.len() / 200;
        drop(read_file(&s.bytes[..n], s.pal, &s.hints))
    };
    compare("rejected read", &name, &mut || cut(&small), &mut || cut(&large), &large.bytes, ctx)?;
    let (a2, b2) = (a.clone(), b.clone());
    let op = |f: &GvasFile, g: &GvasFile, k: usize| match k {
        0 => drop(write_file(f)),
        1 => drop(f.clone()),
        2 => drop(std::hint::black_box(f == g)),
        3 => {
            let mut h = DefaultHasher::new();
            f.properties.hash(&mut h);
            std::hint::black_box(h.finish());
        }
        4 => drop(serde_json::to_vec(f)),
        _ => drop(format!("{f:?}")),
    };
    for (k, what) in ["write", "clone", "comparison", "hash", "conversion to JSON", "debug text"].into_iter().enumerate() {
        compare(what, &name, &mut || op(&a, &a2, k), &mut || op(&b, &b2, k), &large.bytes, ctx)?;
    }
    let json = |f: &GvasFile| must("conversion to JSON", || serde_json::to_string(f));
    if let (Ok(x), Ok(y)) = (json(&a)?, json(&b)?) {
        let parse = |s: &str| drop(serde_json::from_str::<GvasFile>(s));
        compare("conversion from JSON", &name, &mut || parse(&x), &mut || parse(&y), &large.bytes, ctx)?;
    }
    Ok(())
}
