//! Fault-injecting sources and sinks.
use crate::rng::Rng;
use std::io::{self, Error, ErrorKind, Read, Seek, SeekFrom, Write};

pub const KINDS: &[ErrorKind] = &[
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionReset,
    ErrorKind::BrokenPipe,
    ErrorKind::TimedOut,
    ErrorKind::Other,
    ErrorKind::InvalidData,
    ErrorKind::WouldBlock,
    ErrorKind::NotFound,
    ErrorKind::UnexpectedEof,
    ErrorKind::OutOfMemory,
];

/// More calls than this on one source or sink mean that the caller never stops.
const CALL_LIMIT: u64 = 40_000_000;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Chunk {
    All,
    Fixed(usize),
    Random(usize),
}

/// Buffers given to `Src` that were never written to, while new memory is filled.
pub static UNSET: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub struct Src<'a> {
    pub data: &'a [u8],
    pub pos: u64,
    pub chunk: Chunk,
    pub interrupts: u64, // chance of 8
    pub rng: Rng,
    /// Error when this many bytes have been delivered.
    pub fail_at: Option<(u64, ErrorKind)>,
    pub failed: bool,
    /// Only one read fails, later ones deliver data again.
    pub once: bool,
    pub reads_after_fail: u64,
    pub reads: u64,
    pub interrupted: u64,
    /// Seeks and position queries.
    pub queries: u64,
    /// Error at this seek or query.
    pub fail_query: Option<(u64, ErrorKind)>,
    pub query_failed: bool,
    /// Position of the first byte as the reader sees it.
    pub base: u64,
    last_int: bool,
}

impl<'a> Src<'a> {
    pub fn new(data: &'a [u8], chunk: Chunk, interrupts: u64, rng: Rng) -> Self {
        Src {
            data,
            pos: 0,
            chunk,
            interrupts,
            rng,
            fail_at: None,
            failed: false,
            once: false,
            reads_after_fail: 0,
            reads: 0,
            interrupted: 0,
            queries: 0,
            fail_query: None,
            query_failed: false,
            base: 0,
            last_int: false,
        }
    }
}

#[derive(Debug)]
pub struct Marker;
impl std::fmt::Display for Marker {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected")
    }
}
impl std::error::Error for Marker {}

impl Read for Src<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        if self.reads > CALL_LIMIT {
            panic!("reading never stops: {} calls", self.reads);
        }
        if self.failed {
            self.reads_after_fail += 1;
        }
        if self.failed && !self.once {
            let k = self.fail_at.map(|f| f.1).unwrap_or(ErrorKind::Other);
            return Err(Error::new(k, Marker));
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if let Some(b) = crate::alloc::fill() {
            let unset = |part: &[u8]| part.iter().all(|x| *x == b);
            if buf.len() >= 8 && (unset(&buf[..8]) || unset(&buf[buf.len() - 8..])) {
                UNSET.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            }
        }
        if !self.last_int && self.interrupts > 0 && self.rng.chance(self.interrupts, 8) {
            self.interrupted += 1;
            self.last_int = true;
            return Err(Error::new(ErrorKind::Interrupted, "injected interrupt"));
        }
        self.last_int = false;
        let mut n = match self.chunk {
            Chunk::All => buf.len(),
            Chunk::Fixed(k) => k,
            Chunk::Random(k) => 1 + self.rng.usize(k),
        };
        if let Some((at, k)) = self.fail_at {
            if self.pos >= at && !self.failed {
                self.failed = true;
                return Err(Error::new(k, Marker));
            }
            if !self.failed {
                n = n.min((at - self.pos) as usize);
            }
        }
        let p = (self.pos as usize).min(self.data.len());
        let n = n.min(buf.len()).min(self.data.len() - p);
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for Src<'_> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let c = self.queries;
        self.queries += 1;
        if let Some((at, k)) = self.fail_query
            && c == at
        {
            self.query_failed = true;
            return Err(Error::new(k, Marker));
        }
        let n = match p {
            SeekFrom::Start(n) => n as i64 - self.base as i64,
            SeekFrom::Current(n) => self.pos as i64 + n,
            SeekFrom::End(n) => self.data.len() as i64 + n,
        };
        if n < 0 {
            return Err(Error::new(ErrorKind::InvalidInput, "negative seek"));
        }
        self.pos = n as u64;
        Ok(self.base + self.pos)
    }
}

/// A seekable sink that can accept few bytes per call, be interrupted, or fail.
pub struct Sink {
    pub data: Vec<u8>,
    pub pos: u64,
    pub chunk: Chunk,
    pub interrupts: u64,
    pub rng: Rng,
    /// Fail at this call (write, flush and seek calls that move are counted).
    pub fail_call: Option<(u64, ErrorKind)>,
    /// Fail once this many bytes were accepted in total.
    pub fail_bytes: Option<(u64, ErrorKind)>,
    /// Accept zero bytes from this call on.
    pub zero_from: Option<u64>,
    /// Keep failing after the first failure.
    pub sticky: bool,
    pub calls: u64,
    pub accepted: u64,
    pub failures: u64,
    /// Position of the first byte as the writer sees it.
    pub base: u64,
    last_int: bool,
}

impl Sink {
    pub fn new(chunk: Chunk, interrupts: u64, rng: Rng) -> Self {
        Sink {
            data: vec![],
            pos: 0,
            chunk,
            interrupts,
            rng,
            fail_call: None,
            fail_bytes: None,
            zero_from: None,
            sticky: false,
            calls: 0,
            accepted: 0,
            failures: 0,
            base: 0,
            last_int: false,
        }
    }
    fn gate(&mut self) -> io::Result<()> {
        let c = self.calls;
        self.calls += 1;
        if self.calls > CALL_LIMIT {
            panic!("writing never stops: {} calls", self.calls);
        }
        if let Some((at, k)) = self.fail_call
            && (c == at || (self.sticky && c > at))
        {
            self.failures += 1;
            return Err(Error::new(k, Marker));
        }
        Ok(())
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if !buf.is_empty() && !self.last_int && self.interrupts > 0 && self.rng.chance(self.interrupts, 8) {
            self.last_int = true;
            return Err(Error::new(ErrorKind::Interrupted, "injected interrupt"));
        }
        self.last_int = false;
        self.gate()?;
        if buf.is_empty() {
            return Ok(0);
        }
        if let Some(z) = self.zero_from
            && self.calls > z
        {
            self.failures += 1;
            return Ok(0);
        }
        let mut n = match self.chunk {
            Chunk::All => buf.len(),
            Chunk::Fixed(k) => k,
            Chunk::Random(k) => 1 + self.rng.usize(k),
        }
        .min(buf.len());
        if let Some((at, k)) = self.fail_bytes {
            if self.accepted >= at && (self.sticky || self.failures == 0) {
                self.failures += 1;
                return Err(Error::new(k, Marker));
            }
            if self.accepted < at {
                n = n.min((at - self.accepted) as usize);
            }
        }
        let p = self.pos as usize;
        if self.data.len() < p + n {
            self.data.resize(p + n, 0xEE);
        }
        self.data[p..p + n].copy_from_slice(&buf[..n]);
        self.pos += n as u64;
        self.accepted += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.gate()
    }
}

impl Seek for Sink {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let n = match p {
            SeekFrom::Start(n) => n as i64 - self.base as i64,
            SeekFrom::Current(n) => self.pos as i64 + n,
            SeekFrom::End(n) => self.data.len() as i64 + n,
        };
        if n != self.pos as i64 {
            self.gate()?;
        }
        if n < 0 {
            return Err(Error::new(ErrorKind::InvalidInput, "negative seek"));
        }
        self.pos = n as u64;
        Ok(self.base + self.pos)
    }
}

/// Places around which positions stop fitting into 31, 32, 52 or 53 bits.
pub const FAR: &[u64] = &[(1 << 31) - 20, 1 << 31, (1 << 32) - 20, 1 << 32, (1 << 32) + 1000, (1 << 52) - 20, (1 << 53) + 1, 1 << 60];

/// Bytes that are part of a much larger stream: the first one is at position `base`.
pub struct Far<'a> {
    c: io::Cursor<&'a [u8]>,
    base: u64,
}

impl<'a> Far<'a> {
    pub fn new(data: &'a [u8], base: u64) -> Self {
        Far { c: io::Cursor::new(data), base }
    }
    /// Position within `data`.
    pub fn position(&self) -> u64 {
        self.c.position()
    }
    pub fn set_position(&mut self, n: u64) {
        self.c.set_position(n);
    }
}

impl Read for Far<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.c.read(buf)
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
        self.c.read_exact(buf)
    }
}

impl Seek for Far<'_> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let p = match p {
            SeekFrom::Start(n) => match n.checked_sub(self.base) {
                Some(n) => SeekFrom::Start(n),
                None => return Err(Error::new(ErrorKind::InvalidInput, "seek before the data")),
            },
            other => other,
        };
        Ok(self.base + self.c.seek(p)?)
    }
}
