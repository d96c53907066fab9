//! Operation histories on the crate's own I/O layer, step by step beside std::io (C14).
//! Only meaningful in the no_std build; elsewhere the layer *is* std::io.
use crate::exec::*;
use crate::oracle::*;
use crate::rng::mix;
use crate::rt::*;
use crate::spec::Spec;
use binread::io as nio;
use std::io as sio;

/// What one operation did: data, number or error kind, and the position afterwards.
#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    N(u64),
    Data(Vec<u8>),
    Items(Vec<Result<u8, String>>),
    Err(String),
}

pub const OPS: &[&str] = &[
    "read", "read_exact", "seek Start", "seek Current", "seek End", "set_position", "stream_position", "shrink/grow buffer", "bytes", "by_ref read_exact",
    "through &mut", "clone", "stream_pos", "read into empty", "chunks",
];

/// Both sides run exactly this text; `$io` is the I/O layer.
macro_rules! side {
    ($name:ident, $io:ident, $pos:expr) => {
        pub mod $name {
            use super::Step;
            use super::$io::{Cursor, ErrorKind, Read, Seek, SeekFrom};

            fn kind(e: super::$io::Error) -> String {
                let k: ErrorKind = e.kind();
                format!("{:?}", k)
            }
            fn num(r: super::$io::Result<u64>) -> Step {
                match r {
                    Ok(n) => Step::N(n),
                    Err(e) => Step::Err(kind(e)),
                }
            }
            pub fn read<R: Read>(r: &mut R, n: usize) -> Step {
                let mut b = vec![0xa5; n];
                match r.read(&mut b) {
                    Ok(k) => {
                        let mut out = (k as u64).to_le_bytes().to_vec();
                        out.extend(&b);
                        Step::Data(out)
                    }
                    Err(e) => Step::Err(kind(e)),
                }
            }
            pub fn exact<R: Read>(r: &mut R, n: usize) -> Step {
                let mut b = vec![0xa5; n];
                match r.read_exact(&mut b) {
                    Ok(()) => Step::Data(b),
                    Err(e) => Step::Err(kind(e)),
                }
            }
            pub fn items<R: Read>(r: R, n: usize) -> Step {
                let mut it = r.bytes();
                let mut out = vec![];
                for _ in 0..n {
                    match it.next() {
                        Some(Ok(b)) => out.push(Ok(b)),
                        Some(Err(e)) => out.push(Err(kind(e))),
                        None => {
                            out.push(Err("end".into()));
                        }
                    }
                }
                Step::Items(out)
            }
            fn generic_exact<R: Read + Seek>(mut r: R, n: usize) -> Step {
                exact(&mut r, n)
            }
            fn generic_seek<S: Seek>(mut s: S, to: SeekFrom) -> Step {
                num(s.seek(to))
            }
            fn nested<R: Read + Seek>(r: &mut R, n: usize, off: i64) -> Vec<Step> {
                let mut rr = &mut *r;
                let a = read(&mut rr, n);
                let b = generic_seek(&mut rr, SeekFrom::Current(off));
                let c = exact(&mut (&mut rr), n / 2);
                vec![a, b, c]
            }
            pub fn stream<R: Read + Seek>(r: &mut R, op: i64, a: i64, b: i64) -> Vec<Step> {
                let n = (a as u64 % if a % 7 == 3 { 300 } else { 24 }) as usize;
                match op {
                    0 => vec![read(r, n)],
                    1 => vec![exact(r, n)],
                    2 => vec![num(r.seek(SeekFrom::Start(a as u64)))],
                    3 => vec![num(r.seek(SeekFrom::Current(a)))],
                    4 => vec![num(r.seek(SeekFrom::End(a)))],
                    6 | 12 => vec![num(r.stream_position())],
                    8 => vec![items(r.by_ref(), n)],
                    9 => vec![exact(r.by_ref(), n), read(r.by_ref(), (b as u64 % 9) as usize)],
                    10 => nested(r, n, b),
                    13 => vec![read(r, 0), exact(r, 0)],
                    14 => {
                        // a client that fills a buffer piece by piece
                        let mut out = vec![];
                        for k in 0..4 {
                            out.push(generic_exact(&mut *r, (k + n) % 5));
                        }
                        out
                    }
                    _ => vec![],
                }
            }
            pub fn cursor<T: AsRef<[u8]>>(c: &mut Cursor<T>, op: i64, a: i64, b: i64) -> Vec<Step> {
                match op {
                    5 => {
                        c.set_position(a as u64);
                        vec![Step::N(c.position())]
                    }
                    _ => stream(c, op, a, b),
                }
            }
            pub fn vec_cursor(c: &mut Cursor<Vec<u8>>, op: i64, a: i64, b: i64) -> Vec<Step> {
                match op {
                    7 => {
                        let n = (b as u64 % 40) as usize;
                        if a % 3 == 0 {
                            c.get_mut().resize(n, a as u8);
                        } else if a % 3 == 1 {
                            c.get_mut().push(a as u8);
                        } else if let Some(x) = c.get_mut().get_mut(n) {
                            *x = a as u8;
                        }
                        vec![Step::Data(c.get_ref().clone())]
                    }
                    11 => {
                        let mut d = c.clone();
                        let x = stream(&mut d, b % 5, a, b);
                        let mut v = vec![Step::N(d.position()), Step::Data(d.into_inner())];
                        v.extend(x);
                        v
                    }
                    _ => cursor(c, op, a, b),
                }
            }
        }
    };
}

side!(mine, nio, ());
side!(twin, sio, ());

/// The same simulated reader, seen through std::io's traits.
pub struct Std(pub SimReader);

fn conv(e: nio::Error) -> sio::Error {
    let k = match e.kind() {
        nio::ErrorKind::NotFound => sio::ErrorKind::NotFound,
        nio::ErrorKind::PermissionDenied => sio::ErrorKind::PermissionDenied,
        nio::ErrorKind::ConnectionReset => sio::ErrorKind::ConnectionReset,
        nio::ErrorKind::NotConnected => sio::ErrorKind::NotConnected,
        nio::ErrorKind::BrokenPipe => sio::ErrorKind::BrokenPipe,
        nio::ErrorKind::AlreadyExists => sio::ErrorKind::AlreadyExists,
        nio::ErrorKind::WouldBlock => sio::ErrorKind::WouldBlock,
        nio::ErrorKind::InvalidInput => sio::ErrorKind::InvalidInput,
        nio::ErrorKind::InvalidData => sio::ErrorKind::InvalidData,
        nio::ErrorKind::TimedOut => sio::ErrorKind::TimedOut,
        nio::ErrorKind::ConnectionRefused => sio::ErrorKind::ConnectionRefused,
        nio::ErrorKind::ConnectionAborted => sio::ErrorKind::ConnectionAborted,
        nio::ErrorKind::AddrInUse => sio::ErrorKind::AddrInUse,
        nio::ErrorKind::AddrNotAvailable => sio::ErrorKind::AddrNotAvailable,
        nio::ErrorKind::WriteZero => sio::ErrorKind::WriteZero,
        nio::ErrorKind::Interrupted => sio::ErrorKind::Interrupted,
        nio::ErrorKind::UnexpectedEof => sio::ErrorKind::UnexpectedEof,
        _ => sio::ErrorKind::Other,
    };
    k.into()
}

impl sio::Read for Std {
    fn read(&mut self, b: &mut [u8]) -> sio::Result<usize> {
        nio::Read::read(&mut self.0, b).map_err(conv)
    }
}
impl sio::Seek for Std {
    fn seek(&mut self, to: sio::SeekFrom) -> sio::Result<u64> {
        let to = match to {
            sio::SeekFrom::Start(x) => nio::SeekFrom::Start(x),
            sio::SeekFrom::End(x) => nio::SeekFrom::End(x),
            sio::SeekFrom::Current(x) => nio::SeekFrom::Current(x),
        };
        nio::Seek::seek(&mut self.0, to).map_err(conv)
    }
}

fn describe(ops: &[i64], k: usize) -> String {
    format!("operation {} ({} {} {})", k, OPS.get(ops[3 * k] as usize).unwrap_or(&"?"), ops[3 * k + 1], ops[3 * k + 2])
}

fn compare(a: &[Step], b: &[Step], pa: u64, pb: u64, what: String) -> Option<(String, String)> {
    if a != b {
        return Some(("data".into(), format!("{}: std::io gives {:?}, the crate's layer {:?}", what, b, a)));
    }
    if pa != pb {
        return Some(("position".into(), format!("{}: std::io is at {:#x}, the crate's layer at {:#x} (both gave {:?})", what, pb, pa, a)));
    }
    None
}

fn hash(h: u64, s: &[Step], pos: u64) -> u64 {
    let mut h = mix(h ^ pos);
    for b in format!("{:?}", s).bytes() {
        h = mix(h ^ u64::from(b));
    }
    h
}

fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| last_panic())
}

pub fn judge_cursor(ctx: &mut Ctx, spec: &Spec) -> Verdict {
    clear_tls();
    let a = &spec.actors[0];
    let bytes = a.media.bytes.clone();
    let kind = a.start % 3;
    let mut bad = None;
    let mut h = 77 ^ kind;
    let mut trace = vec![];
    let mut tags = vec![];
    let ops = &spec.extra[..spec.extra.len() / 3 * 3];
    macro_rules! go {
        ($m:expr, $t:expr, $fm:path, $ft:path) => {{
            let mut m = $m;
            let mut t = $t;
            for k in 0..ops.len() / 3 {
                let (op, x, y) = (ops[3 * k], ops[3 * k + 1], ops[3 * k + 2]);
                let before = t.position();
                let len = AsRef::<[u8]>::as_ref(t.get_ref()).len() as u64;
                if before > len {
                    tags.push("beyond_end");
                }
                // where std documents nothing about the position after a failed read_exact
                // (cursor beyond the end), the history is not continued through it
                let reads = matches!(op, 1 | 9 | 10 | 11 | 14);
                if before > len && reads {
                    continue;
                }
                if op == 10 {
                    // the second half of this operation seeks and reads again: keep it inside
                    let after = (before + (x as u64 % if x % 7 == 3 { 300 } else { 24 }).min(len - before)) as i64;
                    if after.checked_add(y).map_or(true, |p| p < 0 || p > len as i64) {
                        continue;
                    }
                }
                let r = match guarded(|| $fm(&mut m, op, x, y)) {
                    Ok(r) => r,
                    Err(p) => {
                        bad = Some(("panic".to_string(), format!("{}: panicked: {}", describe(ops, k), p)));
                        break;
                    }
                };
                let w = $ft(&mut t, op, x, y);
                if w.iter().any(|s| matches!(s, Step::Err(_))) {
                    tags.push(if op <= 4 && op >= 2 { "seek_refused" } else { "end_of_data" });
                }
                h = hash(h, &r, m.position());
                if ctx.trace {
                    trace.push(format!("{:>3} {} -> {:?} at {:#x}", k, describe(ops, k), r, m.position()));
                }
                bad = compare(&r, &w, m.position(), t.position(), describe(ops, k));
                if bad.is_some() {
                    break;
                }
            }
        }};
    }
    match kind {
        0 => go!(nio::Cursor::new(bytes.clone()), sio::Cursor::new(bytes.clone()), mine::vec_cursor, twin::vec_cursor),
        1 => go!(nio::Cursor::new(&bytes[..]), sio::Cursor::new(&bytes[..]), mine::cursor, twin::cursor),
        _ => go!(nio::Cursor::new(bytes.clone().into_boxed_slice()), sio::Cursor::new(bytes.clone().into_boxed_slice()), mine::cursor, twin::cursor),
    }
    tags.sort_unstable();
    tags.dedup();
    let mut r = reader(a);
    r.ops = (ops.len() / 3) as u64;
    r.trace = Some(trace);
    let mut out = finish(Res::SimPanic, r);
    out.digest = h;
    Verdict { bad, out, acts: vec![a.acts.clone()], extra: spec.extra.clone(), also: 0, nontrivial: ops.len() > 6, tags }
}

pub fn judge_adapt(ctx: &mut Ctx, spec: &Spec) -> Verdict {
    clear_tls();
    let a = &spec.actors[0];
    let mut m = reader(a);
    if ctx.trace {
        m.trace = Some(vec![]);
    }
    let mut t = Std(reader(a));
    let ops = &spec.extra[..spec.extra.len() / 3 * 3];
    let mut bad = None;
    let mut h = 5;
    for k in 0..ops.len() / 3 {
        let (op, x, y) = (ops[3 * k], ops[3 * k + 1], ops[3 * k + 2]);
        if matches!(op, 5 | 7 | 11) {
            continue;
        }
        if let Some(tr) = &mut m.trace {
            tr.push(format!("-- {}", describe(ops, k)));
        }
        let r = match guarded(|| mine::stream(&mut m, op, x, y)) {
            Ok(r) => r,
            Err(p) => {
                bad = Some(("panic".to_string(), format!("{}: panicked: {}", describe(ops, k), p)));
                break;
            }
        };
        let w = twin::stream(&mut t, op, x, y);
        h = hash(h, &r, m.pos);
        bad = compare(&r, &w, m.pos, t.0.pos, describe(ops, k));
        if bad.is_some() {
            break;
        }
    }
    let pos = m.pos;
    let mut out = finish(Res::SimPanic, m);
    out.digest = mix(out.digest ^ h ^ pos);
    let acts = vec![out.acts()];
    let nontrivial = !out.fired.is_empty() || out.eofs > 0;
    Verdict { bad, out, acts, extra: spec.extra.clone(), also: 0, nontrivial, tags: vec![] }
}
