//! The simulated reader and everything generated formats call.
use crate::model::{map_kind, opts_hash, CErr, Io};
use crate::schema::custom_code;
use crate::rng::Rng;
use crate::val::{ToVal, Val};
use binread::io::{Error as IoError, ErrorKind, Read, Result as IoResult, Seek, SeekFrom};
use binread::{BinRead, BinReaderExt, BinResult, Endian, Error, ReadOptions};
use std::cell::{Cell, RefCell};
use std::sync::Arc;

pub use crate::model::zmix;

#[derive(Clone, Debug, PartialEq)]
pub struct ZErr(pub u64);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Act {
    Full,
    /// at most n bytes
    Short(u32),
    Eintr,
    Err(u8, u64),
    /// nothing delivered, as at the end of the file
    Zero,
    Panic,
    /// this and every later operation fails: the device is gone
    Dead(u8, u64),
}

impl Act {
    pub fn hard(&self) -> bool {
        matches!(self, Act::Err(..) | Act::Zero | Act::Panic | Act::Dead(..))
    }
    pub fn name(&self) -> &'static str {
        match self {
            Act::Full => "full",
            Act::Short(_) => "short_read",
            Act::Eintr => "eintr",
            Act::Err(..) => "io_error",
            Act::Dead(..) => "device_gone",
            Act::Zero => "transient_eof",
            Act::Panic => "panic",
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Media {
    /// where the image lies in the stream; before it there are a few zeros, and nothing before them
    pub base: u64,
    pub bytes: Vec<u8>,
    pub bad: Vec<(u64, u64)>,
}

pub const MARGIN: u64 = 48;

impl Media {
    pub fn begin(&self) -> u64 {
        self.base.saturating_sub(MARGIN)
    }
    pub fn end(&self) -> u64 {
        self.base + self.bytes.len() as u64
    }
    /// The bytes from `pos` on, all before the end.
    pub fn copy(&self, pos: u64, out: &mut [u8]) {
        let zeros = self.base.saturating_sub(pos).min(out.len() as u64) as usize;
        out[..zeros].fill(0);
        if zeros < out.len() {
            let at = (pos + zeros as u64 - self.base) as usize;
            let n = out.len() - zeros;
            out[zeros..].copy_from_slice(&self.bytes[at..at + n]);
        }
    }
}

#[derive(Clone, Debug)]
pub struct RandSched {
    pub rng: Rng,
    pub short: u32,
    pub eintr: u32,
    /// hard failures per mille of operations
    pub hard_pm: u32,
    pub hard_left: u32,
    pub next_id: u64,
    pub zero: bool,
    pub panics: bool,
    /// failures may be of the kind of an end of file
    pub eof_kind: bool,
    /// after a hard failure the next operation fails too, in percent
    pub burst: u32,
    pub after_hard: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Sched {
    pub list: Vec<(u64, Act)>,
    pub rand: Option<RandSched>,
}

pub struct Budget;
pub struct SimPanic;

pub struct SimReader {
    pub media: Arc<Media>,
    pub pos: u64,
    pub ops: u64,
    pub next: usize,
    pub sched: Sched,
    pub fired: Vec<(u64, Act, bool)>,
    pub budget: u64,
    pub last_failed_seek: bool,
    pub digest: u64,
    pub hard: u32,
    pub natural_bad: u64,
    pub eofs: u64,
    /// positions and lengths of delivered data (for coverage of an image)
    pub delivered: u64,
    pub trace: Option<Vec<String>>,
    /// runs another parse from inside this operation
    pub reenter_at: Option<u64>,
    pub kinds: Vec<bool>,
    pub track: bool,
    pub dead: Option<(u8, u64)>,
}

thread_local! {
    pub static CUR: Cell<(u64, bool, u32)> = const { Cell::new((0, false, 0)) };
    pub static PROBES: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) };
    pub static SPY: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    pub static SPY_RUNS: Cell<u64> = const { Cell::new(0) };
    pub static SPY_SOFT: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    pub static YIELD: RefCell<Option<Box<dyn FnMut(&'static str)>>> = const { RefCell::new(None) };
    pub static NESTED: RefCell<Option<Box<dyn FnMut()>>> = const { RefCell::new(None) };
    pub static REENTERED: Cell<u64> = const { Cell::new(0) };
}

pub fn yield_point(what: &'static str) {
    let h = YIELD.with(|y| y.borrow_mut().take());
    if let Some(mut h) = h {
        h(what);
        YIELD.with(|y| *y.borrow_mut() = Some(h));
    }
}

/// Kinds of failure; the last one (std only) is an error code of the operating system.
pub const KINDS: u8 = if cfg!(feature = "std") { 14 } else { 13 };
#[cfg(feature = "std")]
const OS_CODE: i32 = 1_000_000;

/// A failure whose kind is that of an end of file. Only used where nothing gives that kind a meaning.
pub const EOF_KIND: u8 = 100;

pub fn clip_kind(k: u8) -> u8 {
    if k == EOF_KIND {
        k
    } else {
        k % KINDS
    }
}

pub fn fault_kind(k: u8) -> ErrorKind {
    if k == EOF_KIND {
        return ErrorKind::UnexpectedEof;
    }
    match k % KINDS {
        0 => ErrorKind::TimedOut,
        1 => ErrorKind::ConnectionReset,
        2 => ErrorKind::BrokenPipe,
        3 => ErrorKind::Other,
        4 => ErrorKind::WouldBlock,
        5 => ErrorKind::NotConnected,
        6 => ErrorKind::AlreadyExists,
        7 => ErrorKind::NotFound,
        8 => ErrorKind::ConnectionRefused,
        9 => ErrorKind::ConnectionAborted,
        10 => ErrorKind::AddrInUse,
        11 => ErrorKind::AddrNotAvailable,
        12 => ErrorKind::WriteZero,
        _ => ErrorKind::Other,
    }
}

/// Payload of every error the simulation creates.
#[derive(Debug, Clone, PartialEq)]
pub struct ZIo(pub u8, pub u64);

impl std::fmt::Display for ZIo {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "simulated {} {}", self.0, self.1)
    }
}
impl std::error::Error for ZIo {}

pub fn io_err(io: Io) -> IoError {
    match io {
        #[cfg(feature = "std")]
        Io::Fault(k, id) if clip_kind(k) == 13 => IoError::from_raw_os_error(OS_CODE + id as i32),
        Io::Fault(k, id) => IoError::new(fault_kind(k), ZIo(0, id)),
        Io::Bad(id) => IoError::new(ErrorKind::PermissionDenied, ZIo(1, id)),
        Io::Map(id) => IoError::new(map_kind(id).map_or(ErrorKind::InvalidData, fault_kind), ZIo(2, id)),
        Io::Seek => IoError::new(ErrorKind::InvalidInput, ZIo(3, 0)),
        Io::Eof | Io::Other(_) => unreachable!(),
    }
}

/// The io::Error a `try_map` function returns.
pub fn zio(id: u32) -> IoError {
    io_err(Io::Map(u64::from(id)))
}

pub fn io_canon(e: &IoError) -> Io {
    #[cfg(feature = "std")]
    {
        if let Some(z) = e.get_ref().and_then(|x| x.downcast_ref::<ZIo>()) {
            return match z.0 {
                0 if e.kind() == ErrorKind::UnexpectedEof => Io::Fault(EOF_KIND, z.1),
                0 => match (0..13).find(|k| fault_kind(*k) == e.kind()) {
                    Some(k) => Io::Fault(k, z.1),
                    None => Io::Other(1),
                },
                1 if e.kind() == ErrorKind::PermissionDenied => Io::Bad(z.1),
                2 if e.kind() == map_kind(z.1).map_or(ErrorKind::InvalidData, fault_kind) => Io::Map(z.1),
                3 if e.kind() == ErrorKind::InvalidInput => Io::Seek,
                _ => Io::Other(2),
            };
        }
        if let Some(code) = e.raw_os_error() {
            return Io::Fault(13, (code - OS_CODE) as u64);
        }
        match e.kind() {
            ErrorKind::UnexpectedEof => Io::Eof,
            ErrorKind::Interrupted => Io::Other(3),
            _ => Io::Other(4),
        }
    }
    #[cfg(not(feature = "std"))]
    {
        match e.kind() {
            ErrorKind::UnexpectedEof => Io::Eof,
            ErrorKind::InvalidInput => Io::Seek,
            ErrorKind::PermissionDenied => Io::Bad(0),
            ErrorKind::InvalidData => Io::Map(0),
            k => match (0..13).find(|i| fault_kind(*i) == k) {
                Some(i) => Io::Fault(i, 0),
                None => Io::Other(5),
            },
        }
    }
}

pub fn canon(e: &Error) -> CErr {
    match e {
        Error::BadMagic { pos, found } => {
            let f = &**found;
            macro_rules! num {
                ($($t:ty),*) => { $( if let Some(x) = f.downcast_ref::<$t>() { return CErr::Magic { pos: *pos, found: x.val() }; } )* };
            }
            num!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64, char);
            num!([u8; 1], [u8; 2], [u8; 3], [u8; 4], [u8; 5], [u8; 6]);
            CErr::Unknown("magic of unknown type".into())
        }
        Error::AssertFail { pos, message } => CErr::Assert { pos: *pos, msg: message.chars().filter(|c| !c.is_whitespace()).collect() },
        Error::Io(e) => CErr::Io(io_canon(e)),
        Error::Custom { pos, err } => {
            let code = if let Some(z) = err.downcast_ref::<ZErr>() {
                custom_code(0, z.0)
            } else if let Some(Error::NoVariantMatch { pos }) = err.downcast_ref::<Error>() {
                custom_code(1, *pos)
            } else if let Some(x) = err.downcast_ref::<u64>() {
                custom_code(2, *x)
            } else {
                return CErr::Unknown("custom error of unknown type".into());
            };
            CErr::Custom { pos: *pos, code }
        }
        Error::NoVariantMatch { pos } => CErr::NoVariant { pos: *pos },
        Error::EnumErrors { pos, variant_errors } => {
            CErr::Enum { pos: *pos, errs: variant_errors.iter().map(|(n, e)| (n.to_string(), canon(e))).collect() }
        }
        _ => CErr::Unknown("new error variant".into()),
    }
}

impl SimReader {
    pub fn new(media: Arc<Media>, start: u64, sched: Sched) -> Self {
        CUR.with(|c| c.set((start, false, 0)));
        SimReader {
            media,
            pos: start,
            ops: 0,
            next: 0,
            sched,
            fired: vec![],
            budget: 1_000_000,
            last_failed_seek: false,
            digest: 0x1234_5678,
            hard: 0,
            natural_bad: 0,
            eofs: 0,
            delivered: 0,
            trace: None,
            reenter_at: None,
            kinds: vec![],
            track: false,
            dead: None,
        }
    }

    fn decide(&mut self, read: bool) -> Act {
        let op = self.ops;
        while self.next < self.sched.list.len() && self.sched.list[self.next].0 < op {
            self.next += 1;
        }
        let mut act = Act::Full;
        if self.next < self.sched.list.len() && self.sched.list[self.next].0 == op {
            act = self.sched.list[self.next].1;
        } else if let Some(r) = &mut self.sched.rand {
            let burst = r.after_hard && r.rng.pct(r.burst);
            r.after_hard = false;
            if r.hard_left > 0 && (burst || r.rng.below(1000) < u64::from(r.hard_pm)) {
                r.hard_left -= 1;
                r.after_hard = true;
                r.next_id += 1;
                act = if r.panics && r.rng.pct(50) {
                    Act::Panic
                } else if read && r.zero && r.rng.pct(30) {
                    Act::Zero
                } else if r.eof_kind && r.rng.pct(15) {
                    Act::Err(EOF_KIND, r.next_id)
                } else {
                    Act::Err(r.rng.below(u64::from(KINDS)) as u8, r.next_id)
                };
            } else if read && r.rng.pct(r.eintr) {
                act = Act::Eintr;
            } else if read && r.rng.pct(r.short) {
                act = Act::Short(if r.rng.pct(50) { 1 } else { 1 + r.rng.below(7) as u32 });
            }
        }
        // what makes no sense on a seek does nothing
        if !read && matches!(act, Act::Short(_) | Act::Eintr | Act::Zero) {
            act = Act::Full;
        }
        act
    }

    fn note(&mut self, read: bool, what: u64, out: u64) {
        self.digest = crate::rng::mix(self.digest ^ crate::rng::mix(what ^ (out << 20) ^ (u64::from(read) << 60)) ^ self.pos);
        CUR.with(|c| c.set((self.pos, self.last_failed_seek, self.hard)));
    }

    fn begin(&mut self, read: bool) -> Act {
        yield_point(if read { "read" } else { "seek" });
        let op = self.ops;
        if self.reenter_at == Some(op) {
            let n = NESTED.with(|n| n.borrow_mut().take());
            if let Some(mut n) = n {
                let cur = CUR.with(|c| c.get());
                n();
                CUR.with(|c| c.set(cur));
                REENTERED.with(|c| c.set(c.get() + 1));
            }
        }
        let was_dead = self.dead;
        let act = was_dead.map_or_else(|| self.decide(read), |(k, id)| Act::Dead(k, id));
        if let Act::Dead(k, id) = act {
            self.dead = Some((k, id));
        }
        self.ops += 1;
        if self.track {
            self.kinds.push(read);
        }
        if self.ops > self.budget {
            std::panic::panic_any(Budget);
        }
        if act != Act::Full && was_dead.is_none() {
            self.fired.push((op, act, read));
        }
        if act.hard() {
            self.hard += 1;
        }
        if act == Act::Panic {
            self.note(read, 99, op);
            std::panic::panic_any(SimPanic);
        }
        act
    }
    fn tr(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            let s = f();
            t.push(s);
        }
    }
}

impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> IoResult<usize> {
        let act = self.begin(true);
        self.last_failed_seek = false;
        let (op, pos) = (self.ops - 1, self.pos);
        let res = match act {
            Act::Eintr => Err(IoError::new(ErrorKind::Interrupted, ZIo(4, 0))),
            Act::Err(k, id) | Act::Dead(k, id) => Err(io_err(Io::Fault(k, id))),
            Act::Zero => Ok(0),
            _ => {
                let end = if self.pos < self.media.begin() { 0 } else { self.media.end() };
                let mut stop = end.max(self.pos).min(self.pos.saturating_add(buf.len() as u64));
                if let Act::Short(n) = act {
                    stop = stop.min(self.pos.saturating_add(u64::from(n.max(1))));
                }
                let mut bad = None;
                for (i, (a, b)) in self.media.bad.iter().enumerate() {
                    let q = (*a).max(self.pos);
                    if q < *b && q < stop {
                        stop = q;
                        bad = Some(i as u64);
                    }
                }
                if let (Some(i), true) = (bad, stop == self.pos) {
                    self.natural_bad += 1;
                    Err(io_err(Io::Bad(i)))
                } else {
                    let n = (stop - self.pos) as usize;
                    if n > 0 {
                        self.media.copy(self.pos, &mut buf[..n]);
                    } else if !buf.is_empty() {
                        self.eofs += 1;
                    }
                    self.pos = stop;
                    self.delivered += n as u64;
                    Ok(n)
                }
            }
        };
        let out = match &res {
            Ok(n) => *n as u64,
            Err(_) => 1 << 30,
        };
        self.note(true, buf.len() as u64, out);
        self.tr(|| {
            format!(
                "{:>4} read {:>5} bytes at {:#x} -> {}",
                op,
                buf.len(),
                pos,
                match &res {
                    Ok(n) => format!("{} ({})", n, act.name()),
                    Err(e) => format!("error {:?} ({})", e.kind(), act.name()),
                }
            )
        });
        res
    }
}

impl Seek for SimReader {
    fn seek(&mut self, to: SeekFrom) -> IoResult<u64> {
        let act = self.begin(false);
        let (op, pos) = (self.ops - 1, self.pos);
        let (w, base, off) = match to {
            SeekFrom::Start(x) => (1u64, x, 0),
            SeekFrom::Current(x) => (2, self.pos, x),
            SeekFrom::End(x) => (3, self.media.end(), x),
        };
        let res = match act {
            Act::Err(k, id) | Act::Dead(k, id) => Err(io_err(Io::Fault(k, id))),
            _ => match base.checked_add_signed(off) {
                Some(p) => {
                    self.pos = p;
                    Ok(p)
                }
                None => Err(io_err(Io::Seek)),
            },
        };
        self.last_failed_seek = res.is_err();
        let out = match &res {
            Ok(n) => *n,
            Err(_) => u64::MAX,
        };
        self.note(false, w.wrapping_mul(base) ^ off as u64, out);
        self.tr(|| {
            format!(
                "{:>4} seek {:?} from {:#x} -> {}",
                op,
                to,
                pos,
                match &res {
                    Ok(n) => format!("{:#x}", n),
                    Err(e) => format!("error {:?} ({})", e.kind(), act.name()),
                }
            )
        });
        res
    }
}

// ---- called from formats ----

pub fn probe(id: u32, v: i64) -> i64 {
    PROBES.with(|p| p.borrow_mut().push(id));
    v
}

pub fn spy<T: BinRead, R: Read + Seek>(r: &mut R, o: &ReadOptions, a: T::Args) -> BinResult<T> {
    T::read_options(r, o, a)
}

/// Parses and records whether a failure left the reader where the parse began.
pub fn spy_checked<T: BinRead, R: Read + Seek>(r: &mut R, o: &ReadOptions, a: T::Args) -> BinResult<T> {
    let (p0, _, h0) = CUR.with(|c| c.get());
    SPY_RUNS.with(|s| s.set(s.get() + 1));
    let res = T::read_options(r, o, a);
    let (p1, failed_seek, h1) = CUR.with(|c| c.get());
    if let Err(e) = &res {
        if p0 != p1 {
            let m = format!("nested parse began at {:#x}, failed with {:?}, left the reader at {:#x}", p0, canon(e), p1);
            if !failed_seek {
                SPY.with(|s| s.borrow_mut().push(m));
            } else if h1 - h0 <= 1 {
                // the only failure was a seek: excusable only if something else failed before
                SPY_SOFT.with(|s| s.borrow_mut().push(m));
            }
        }
    }
    res
}

pub trait OptsArgs {
    fn list(&self) -> Vec<i64>;
}
impl OptsArgs for () {
    fn list(&self) -> Vec<i64> {
        vec![]
    }
}
impl OptsArgs for (i64, i64) {
    fn list(&self) -> Vec<i64> {
        vec![self.0, self.1]
    }
}

pub fn opts_probe<A: OptsArgs, R: Read + Seek>(r: &mut R, o: &ReadOptions, a: A) -> BinResult<i64> {
    let v = u16::read_options(r, o, ())?;
    Ok(opts_hash(u64::from(v), o.endian == Endian::Big, o.count.map(|c| c as u64), o.offset, &a.list()))
}

#[derive(BinRead)]
#[br(big, magic = b"NEST")]
struct Nest {
    #[br(count = 2, pad_before = 1)]
    a: Vec<u16>,
    #[br(little, assert(b == 0x0102_0304))]
    b: u32,
    #[br(if(a[0] == 7))]
    c: u8,
}

/// A custom parser that, while the outer parse is in progress, parses something else from
/// other readers, once failing and once succeeding.
pub fn reenter<A, R: Read + Seek>(_: &mut R, _: &ReadOptions, _: A) -> BinResult<i64> {
    let cur = CUR.with(|c| c.get());
    let mut bad = binread::io::Cursor::new(&b"xxNESX\0\0\x07"[..]);
    bad.seek(SeekFrom::Start(2)).map_err(Error::Io)?;
    let x: BinResult<Nest> = bad.read_le();
    let ok = x.is_err() && bad.position() == 2;
    let mut good = binread::io::Cursor::new(&b"NEST\xff\0\x07\0\0\x04\x03\x02\x01\x0b"[..]);
    let n: Nest = good.read_le()?;
    REENTERED.with(|c| c.set(c.get() + 1));
    CUR.with(|c| c.set(cur));
    let sum = i64::from(n.b) + i64::from(n.a[0]) + i64::from(n.c) + i64::from(n.a[1]);
    Ok(if ok && good.position() == 14 { sum } else { -sum })
}

// ---- entry points ----

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Entry {
    Read,
    ReadArgs,
    Ext(Endian),
    Options(Endian, Option<u64>, u64),
}

impl Entry {
    pub fn opts(&self) -> crate::model::Opts {
        let big = |e: Endian| e == Endian::Big;
        match *self {
            Entry::Read | Entry::ReadArgs => crate::model::Opts { big: false, count: None, offset: 0 },
            Entry::Ext(e) => crate::model::Opts { big: big(e), count: None, offset: 0 },
            Entry::Options(e, count, offset) => crate::model::Opts { big: big(e), count, offset },
        }
    }
}

impl Entry {
    /// The same with a number of elements
    pub fn counted(&self) -> Entry {
        match *self {
            Entry::Read | Entry::ReadArgs => Entry::Options(Endian::Native, Some(3), 0),
            Entry::Ext(e) => Entry::Options(e, Some(2), 0),
            Entry::Options(e, c, o) => Entry::Options(e, c.or(Some(1)), o),
        }
    }
}

pub fn read_options_of(e: Endian, count: Option<u64>, offset: u64) -> ReadOptions {
    let mut o = ReadOptions::default();
    o.endian = e;
    o.count = count.map(|c| c as usize);
    o.offset = offset;
    o
}

pub fn run0<T: BinRead<Args = ()> + ToVal, R: Read + Seek>(e: &Entry, r: &mut R) -> Result<Val, Error> {
    let v: T = match *e {
        Entry::Read => T::read(r)?,
        Entry::ReadArgs => T::read_args(r, ())?,
        Entry::Ext(Endian::Big) => r.read_be()?,
        Entry::Ext(Endian::Little) => r.read_le()?,
        Entry::Ext(Endian::Native) => r.read_ne()?,
        Entry::Options(e, c, o) => T::read_options(r, &read_options_of(e, c, o), ())?,
    };
    Ok(v.val())
}

pub fn run<T: BinRead + ToVal, R: Read + Seek>(e: &Entry, r: &mut R, a: T::Args) -> Result<Val, Error> {
    let v: T = match *e {
        Entry::Read | Entry::ReadArgs => T::read_args(r, a)?,
        Entry::Ext(Endian::Big) => r.read_be_args(a)?,
        Entry::Ext(Endian::Little) => r.read_le_args(a)?,
        Entry::Ext(Endian::Native) => r.read_ne_args(a)?,
        Entry::Options(e, c, o) => T::read_options(r, &read_options_of(e, c, o), a)?,
    };
    Ok(v.val())
}

/// Roots from here on are plain numbers.
pub const PRIM_BASE: usize = 1_000_000;
pub const PRIMS: &[crate::schema::P] = {
    use crate::schema::P::*;
    &[U8, U16, U32, U64, U128, I8, I16, I32, I64, I128, F32, F64, Char]
};

pub fn call_prim<R: Read + Seek>(i: usize, e: &Entry, r: &mut R) -> Result<Val, Error> {
    match i {
        0 => run0::<u8, R>(e, r),
        1 => run0::<u16, R>(e, r),
        2 => run0::<u32, R>(e, r),
        3 => run0::<u64, R>(e, r),
        4 => run0::<u128, R>(e, r),
        5 => run0::<i8, R>(e, r),
        6 => run0::<i16, R>(e, r),
        7 => run0::<i32, R>(e, r),
        8 => run0::<i64, R>(e, r),
        9 => run0::<i128, R>(e, r),
        10 => run0::<f32, R>(e, r),
        11 => run0::<f64, R>(e, r),
        _ => run0::<char, R>(e, r),
    }
}

pub mod zoo {
    #![allow(warnings)]
    use super::{opts_probe, probe, reenter, run, run0, spy, spy_checked, zio, zmix, Entry, ZErr};
    use crate::val::{zh, ToVal, Val};
    use binread::io::SeekFrom;
    use binread::punctuated::Punctuated;
    use binread::{derive_binread, BinRead, FilePtr, NullString, NullWideString, PosValue};
    use std::collections::VecDeque;
    use std::marker::PhantomData;
    use std::num::{NonZeroU16, NonZeroU8};

    include!(concat!(env!("OUT_DIR"), "/zoo.rs"));
}

pub fn opts_of_hash(e: &Entry) -> u64 {
    let (k, o) = match e {
        Entry::Read => (1, e.opts()),
        Entry::ReadArgs => (2, e.opts()),
        Entry::Ext(Endian::Native) => (3, e.opts()),
        Entry::Ext(_) => (4, e.opts()),
        Entry::Options(Endian::Native, ..) => (5, e.opts()),
        Entry::Options(..) => (6, e.opts()),
    };
    let mut h = crate::rng::mix(k ^ u64::from(o.big) << 8);
    h = crate::rng::mix(h ^ o.count.map_or(0, |c| c + 1));
    crate::rng::mix(h ^ o.offset)
}
