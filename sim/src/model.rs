//! The reference model: an interpreter of the format IR that says what a parse must return,
//! where it must leave the reader and which message/alternate expressions it may evaluate.
//! It also fabricates images that parse (fill mode) and enumerates what a single transient
//! failure at any point may lead to.
use crate::emit::{b_src, Scope};
use crate::rng::{mix, Rng};
use crate::rt::Entry;
use crate::schema::*;
use crate::val::Val;
use std::collections::BTreeSet;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Io {
    Eof,
    Seek,
    /// injected: kind index, identity
    Fault(u8, u64),
    /// unreadable range
    Bad(u64),
    Map(u64),
    Other(u64),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum CErr {
    Magic { pos: u64, found: Val },
    Assert { pos: u64, msg: String },
    Custom { pos: u64, code: u64 },
    NoVariant { pos: u64 },
    Enum { pos: u64, errs: Vec<(String, CErr)> },
    Io(Io),
    Unknown(String),
    /// the model gave up
    Fuel,
}

/// The kind (see `fault_kind`) of the I/O error a map function returns; InvalidData if none
pub fn map_kind(id: u64) -> Option<u8> {
    let h = mix(id ^ 0x6d61_7065);
    match h % 8 {
        0 | 1 => None,
        // ErrorKind::Other
        2..=4 => Some(3),
        _ => Some(((h >> 8) % 13) as u8),
    }
}

impl CErr {
    /// The library cannot tell errors of one kind apart without std.
    pub fn weaken(&mut self) {
        match self {
            CErr::Io(i) => {
                *i = match *i {
                    Io::Fault(k, _) => Io::Fault(k, 0),
                    Io::Bad(_) => Io::Bad(0),
                    Io::Map(id) => map_kind(id).map_or(Io::Map(0), |k| Io::Fault(k, 0)),
                    x => x,
                }
            }
            CErr::Enum { errs, .. } => errs.iter_mut().for_each(|e| e.1.weaken()),
            _ => {}
        }
    }
    pub fn class(&self) -> &'static str {
        match self {
            CErr::Magic { .. } => "bad_magic",
            CErr::Assert { .. } => "assert_fail",
            CErr::Custom { .. } => "custom",
            CErr::NoVariant { .. } => "no_variant",
            CErr::Enum { .. } => "enum_errors",
            CErr::Io(Io::Eof) => "eof",
            CErr::Io(Io::Seek) => "invalid_seek",
            CErr::Io(Io::Fault(..)) => "io_fault",
            CErr::Io(Io::Bad(_)) => "io_bad_sector",
            CErr::Io(Io::Map(_)) => "io_from_map",
            CErr::Io(Io::Other(_)) => "io_other",
            CErr::Unknown(_) => "unknown",
            CErr::Fuel => "fuel",
        }
    }
}

pub type R<T> = Result<T, CErr>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Opts {
    pub big: bool,
    pub count: Option<u64>,
    pub offset: u64,
}

#[derive(Clone, Debug)]
pub struct Fill {
    pub r: Rng,
    pub assigned: Vec<bool>,
}

#[derive(Clone, Copy, PartialEq)]
enum Hint {
    Any,
    Ptr,
    Zeroish,
    /// hardly ever zero
    Rare,
}

#[derive(Clone)]
pub struct M<'a> {
    pub zoo: &'a Zoo,
    pub bytes: std::borrow::Cow<'a, [u8]>,
    /// where the image lies in the stream (see Media)
    pub base: u64,
    pub bad: &'a [(u64, u64)],
    pub pos: u64,
    pub ticks: u64,
    /// (tick, what), ascending
    pub faults: Vec<(u64, Io)>,
    pub fuel: u64,
    /// failures may also strike where the model needs no reader operation but the code may
    pub virt: bool,
    pub probes: BTreeSet<u32>,
    pub fill: Option<Fill>,
    pub max_touched: u64,
    pub end_seek: bool,
    pub pos_any: bool,
    /// failures absorbed or wrapped by an alternative
    pub absorbed: u32,
    /// every number read: position, width, big endian
    pub log: Option<Vec<(u64, usize, bool)>>,
    pub item_depth: u32,
}

pub const REENTER_VALUE: i64 = 0x0102_0304 + 7 + 11;

pub fn cast(e: i64, p: P) -> i64 {
    let bits = e as u64 as u128 & if p.size() >= 8 { u64::MAX as u128 } else { (1u128 << (p.size() * 8)) - 1 };
    p.as_i64(bits)
}

impl<'a> M<'a> {
    pub fn new(zoo: &'a Zoo, bytes: &'a [u8], base: u64, bad: &'a [(u64, u64)], start: u64) -> Self {
        M {
            zoo,
            bytes: bytes.into(),
            base,
            bad,
            pos: start,
            ticks: 0,
            faults: vec![],
            fuel: 20_000,
            virt: false,
            probes: BTreeSet::new(),
            fill: None,
            max_touched: 0,
            end_seek: false,
            pos_any: false,
            absorbed: 0,
            log: None,
            item_depth: 0,
        }
    }

    fn tick(&mut self, read: bool) -> R<()> {
        self.ticks += 1;
        if self.ticks > self.fuel {
            return Err(CErr::Fuel);
        }
        if let Some((t, f)) = self.faults.first() {
            if self.ticks >= *t {
                let f = *f;
                if f == Io::Eof && !read {
                    return Ok(());
                }
                self.faults.remove(0);
                return Err(CErr::Io(f));
            }
        }
        Ok(())
    }
    fn op(&mut self) -> R<()> {
        self.tick(false)
    }
    fn vop(&mut self) -> R<()> {
        if self.virt {
            self.tick(false)
        } else {
            Ok(())
        }
    }
    /// A seek back to an absolute position
    fn back(&mut self, to: u64) -> R<()> {
        match self.op() {
            Ok(()) => {
                self.pos = to;
                self.pos_any = false;
                Ok(())
            }
            Err(e) => {
                self.pos_any = true;
                Err(e)
            }
        }
    }
    fn seek_rel(&mut self, base: u64, off: i64) -> R<()> {
        self.op()?;
        match base.checked_add_signed(off) {
            Some(p) => {
                self.pos = p;
                Ok(())
            }
            None => Err(CErr::Io(Io::Seek)),
        }
    }

    fn assign(&mut self, at: u64, f: impl Fn(&mut Rng, usize) -> u8, n: usize) {
        let len = self.bytes.len();
        if let Some(fill) = &mut self.fill {
            let bytes = self.bytes.to_mut();
            let mut val: Option<Vec<u8>> = None;
            for i in 0..n {
                let p = match at.checked_sub(self.base).and_then(|a| usize::try_from(a).ok()).and_then(|a| a.checked_add(i)) {
                    Some(p) if p < len => p,
                    _ => break,
                };
                if !fill.assigned[p] {
                    if val.is_none() {
                        val = Some((0..n).map(|i| f(&mut fill.r, i)).collect());
                    }
                    fill.assigned[p] = true;
                    bytes[p] = val.as_ref().unwrap()[i];
                }
            }
        }
    }
    fn read(&mut self, n: usize) -> R<Vec<u8>> {
        self.tick(true)?;
        if self.fill.is_some() {
            let p = self.pos;
            self.assign(p, |r, _| r.byte(), n);
        }
        let start = self.pos;
        let want_end = start.saturating_add(n as u64);
        let end = if start < self.base.saturating_sub(crate::rt::MARGIN) { 0 } else { self.base + self.bytes.len() as u64 };
        let mut stop = want_end.min(end.max(start));
        let mut err = if stop - start < n as u64 { Some(CErr::Io(Io::Eof)) } else { None };
        for (i, (a, b)) in self.bad.iter().enumerate() {
            // first bad byte within [start, stop)
            let q = (*a).max(start);
            if q < *b && q < stop {
                stop = q;
                err = Some(CErr::Io(Io::Bad(i as u64)));
            }
        }
        self.pos = stop;
        self.max_touched = self.max_touched.max(stop.saturating_sub(self.base).min(1 << 40));
        match err {
            Some(e) => Err(e),
            None if stop == start => Ok(vec![]),
            None => {
                let zeros = self.base.saturating_sub(start).min(n as u64) as usize;
                let mut v = vec![0; zeros];
                if zeros < n {
                    let at = (start + zeros as u64 - self.base) as usize;
                    v.extend_from_slice(&self.bytes[at..at + n - zeros]);
                }
                Ok(v)
            }
        }
    }

    fn bits(p: P, b: &[u8], big: bool) -> u128 {
        let _ = p;
        let mut x: u128 = 0;
        if big {
            for v in b {
                x = x << 8 | u128::from(*v);
            }
        } else {
            for v in b.iter().rev() {
                x = x << 8 | u128::from(*v);
            }
        }
        x
    }

    fn prim(&mut self, p: P, o: Opts, hint: Hint) -> R<u128> {
        self.op()?;
        let start = self.pos;
        let n = p.size();
        if let Some(l) = &mut self.log {
            l.push((start, n, o.big));
        }
        if self.fill.is_some() {
            let len = self.bytes.len();
            let f = self.fill.as_mut().unwrap();
            let small = match hint {
                Hint::Ptr => f.r.pct(93),
                Hint::Zeroish => f.r.pct(60),
                Hint::Rare if len > 900 => f.r.below(1000) < 3,
                Hint::Rare => f.r.pct(2),
                Hint::Any => f.r.pct(35),
            };
            let v = match hint {
                Hint::Ptr => f.r.below(56),
                Hint::Zeroish => f.r.below(2),
                Hint::Rare => 0,
                Hint::Any => f.r.below(12),
            };
            if small {
                let big = o.big;
                let v = if hint == Hint::Ptr && o.offset < self.base && n >= 8 { v + self.base - o.offset } else { v };
                self.assign(start, move |_, i| (u128::from(v) >> (8 * if big { n - 1 - i } else { i })) as u8, n);
            }
        }
        match self.read(n) {
            Ok(b) => Ok(Self::bits(p, &b, o.big)),
            Err(e) => {
                if e != CErr::Fuel {
                    self.back(start)?;
                }
                Err(e)
            }
        }
    }

    fn magic_ty(m: &Magic) -> Ty {
        match m {
            Magic::Int(p, _) | Magic::Float(p, _) => Ty::P(*p),
            Magic::Byte(_) => Ty::P(P::U8),
            Magic::Ch(_) => Ty::P(P::Char),
            Magic::Bytes(b) => Ty::Arr(Box::new(Ty::P(P::U8)), b.len()),
        }
    }
    fn magic_val(m: &Magic) -> Val {
        match m {
            Magic::Int(_, v) => Val::N(*v),
            Magic::Float(_, v) => Val::N(u128::from(*v)),
            Magic::Byte(b) | Magic::Ch(b) => Val::N(u128::from(*b)),
            Magic::Bytes(b) => Val::L(b.iter().map(|x| Val::N(u128::from(*x))).collect()),
        }
    }
    fn assign_magic(&mut self, at: u64, m: &Magic, big: bool) {
        let n = match Self::magic_ty(m) {
            Ty::P(p) => p.size(),
            Ty::Arr(_, n) => n,
            _ => unreachable!(),
        };
        let b: Vec<u8> = match m {
            Magic::Bytes(b) => b.clone(),
            _ => {
                let x = match Self::magic_val(m) {
                    Val::N(x) => x,
                    _ => unreachable!(),
                };
                let mut v: Vec<u8> = (0..n).map(|i| (x >> (8 * i)) as u8).collect();
                if big {
                    v.reverse();
                }
                v
            }
        };
        self.assign(at, |_, i| b[i], n);
    }

    fn check_magic(&mut self, m: &Magic, o: Opts) -> R<()> {
        self.op()?;
        let p = self.pos;
        if let Some(f) = &mut self.fill {
            if f.r.pct(97) {
                self.assign_magic(p, m, o.big);
            }
        }
        let found = self.ty(&Self::magic_ty(m), o, &[])?;
        if found == Self::magic_val(m) {
            Ok(())
        } else {
            Err(CErr::Magic { pos: p, found })
        }
    }

    // ---- expressions ----
    fn e(&self, e: &E, fs: &[Field], env: &[Val], imp: &[i64]) -> i64 {
        match e {
            E::C(n) => *n,
            E::F(i) => match (&fs[*i].ty, &env[*i]) {
                (Ty::P(p), Val::N(b)) => p.as_i64(*b),
                _ => unreachable!(),
            },
            E::Imp(i) => imp[*i],
            E::H(i) => env[*i].zh(),
            E::PosOf(i) => match &env[*i] {
                Val::At(p, _) => *p as i64,
                _ => unreachable!(),
            },
            E::And(a, m) => self.e(a, fs, env, imp) & m,
            E::Add(a, n) => self.e(a, fs, env, imp).wrapping_add(*n),
            E::Mul(a, n) => self.e(a, fs, env, imp).wrapping_mul(*n),
            E::Sum(a, b) => self.e(a, fs, env, imp).wrapping_add(self.e(b, fs, env, imp)),
            E::Xor(a, b) => self.e(a, fs, env, imp) ^ self.e(b, fs, env, imp),
        }
    }
    fn b(&self, b: &B, fs: &[Field], env: &[Val], imp: &[i64]) -> bool {
        match b {
            B::T => true,
            B::F => false,
            B::Eq(e, n) => self.e(e, fs, env, imp) == *n,
            B::Ne(e, n) => self.e(e, fs, env, imp) != *n,
            B::Lt(e, n) => self.e(e, fs, env, imp) < *n,
            B::ModEq(e, m, r) => (self.e(e, fs, env, imp) & 0xffff) % m == *r,
            B::Not(b) => !self.b(b, fs, env, imp),
        }
    }
    fn asserts(&mut self, list: &[Assert], fs: &[Field], env: &[Val], imp: &[i64], pos: u64, s: Scope) -> R<()> {
        for a in list {
            if !self.b(&a.cond, fs, env, imp) {
                return Err(match &a.conseq {
                    Conseq::None => {
                        CErr::Assert { pos, msg: b_src(&a.cond, s).chars().filter(|c| !c.is_whitespace()).collect() }
                    }
                    Conseq::Msg(id, e) => {
                        self.probes.insert(*id);
                        CErr::Assert { pos, msg: format!("m{}{}", id, self.e(e, fs, env, imp)) }
                    }
                    Conseq::Custom(id, e) => {
                        self.probes.insert(*id);
                        CErr::Custom { pos, code: custom_code(custom_kind(*id), zmix(*id, self.e(e, fs, env, imp))) }
                    }
                });
            }
        }
        Ok(())
    }

    fn map(&self, m: &Map, x: &Val, fs: &[Field], env: &[Val], imp: &[i64], pos: u64) -> R<Val> {
        match m {
            Map::None => Ok(x.clone()),
            Map::Map(_, e) => Ok(Val::N((x.zh() ^ self.e(e, fs, env, imp)) as u64 as u128)),
            Map::Try { e, m, r, id, io, .. } => {
                if (x.zh() & 0xffff) % m != *r {
                    Ok(Val::N((x.zh() ^ self.e(e, fs, env, imp)) as u64 as u128))
                } else if *io {
                    Err(CErr::Io(Io::Map(u64::from(*id))))
                } else {
                    Err(CErr::Custom { pos, code: custom_code(custom_kind(*id), zmix(*id, 0)) })
                }
            }
        }
    }

    pub fn default_of(&self, t: &Ty) -> Val {
        match t {
            Ty::P(_) => Val::N(0),
            Ty::Unit | Ty::Phantom => Val::U,
            Ty::NStr => Val::B(vec![]),
            Ty::NWStr => Val::W(vec![]),
            Ty::Vec(_) | Ty::Deque(_) | Ty::VNz8 | Ty::VNz16 => Val::L(vec![]),
            Ty::Opt(_) => Val::O(None),
            Ty::Bx(t) => self.default_of(t),
            Ty::Arr(t, n) => Val::L((0..*n).map(|_| self.default_of(t)).collect()),
            Ty::Tup(ts) => Val::L(ts.iter().map(|t| self.default_of(t)).collect()),
            Ty::Named(i) => match &self.zoo.types[*i].kind {
                Kind::Struct(f) => Val::S(f.fields.iter().filter(|f| !f.temp).map(|f| self.default_of(&f.ty)).collect()),
                Kind::UnitStruct => Val::S(vec![]),
                Kind::Mapped(_) => Val::S(vec![Val::N(0)]),
                _ => unreachable!("default of an enum"),
            },
            Ty::Ptr(..) | Ty::Pos(_) | Ty::Punct(..) => unreachable!("no default"),
        }
    }

    // ---- types ----
    pub fn ty(&mut self, t: &Ty, o: Opts, args: &[i64]) -> R<Val> {
        self.vop()?;
        if let Some(l) = &mut self.log {
            l.push((self.pos, 0, o.big));
        }
        let v = self.ty_(t, o, args)?;
        self.vop()?;
        Ok(v)
    }
    fn ty_(&mut self, t: &Ty, o: Opts, args: &[i64]) -> R<Val> {
        match t {
            Ty::P(p) => Ok(Val::N(self.prim(*p, o, Hint::Any)?)),
            Ty::Unit | Ty::Phantom => Ok(Val::U),
            Ty::Named(i) => self.named(*i, o, args),
            Ty::Vec(t) => {
                let n = o.count.expect("count for Vec");
                let o = Opts { count: None, ..o };
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.ty(t, o, args)?);
                }
                Ok(Val::L(v))
            }
            Ty::Deque(_) => unreachable!("VecDeque is only built by helpers"),
            Ty::Arr(t, n) => {
                let mut v = vec![];
                for _ in 0..*n {
                    v.push(self.ty(t, o, args)?);
                }
                Ok(Val::L(v))
            }
            Ty::Tup(ts) => {
                let mut v = vec![];
                for t in ts {
                    v.push(self.ty(t, o, &[])?);
                }
                Ok(Val::L(v))
            }
            Ty::Bx(t) => self.ty(t, o, args),
            Ty::Opt(t) => Ok(Val::O(Some(Box::new(self.ty(t, o, args)?)))),
            Ty::NStr | Ty::VNz8 => {
                let mut v = vec![];
                let long = self.bytes.len() > 900;
                let end = self.fill.as_mut().map_or(0, |f| *f.r.pick(&if long { [250, 250, 120, 20, 3, 3] } else { [250, 250, 250, 250, 120, 20] }));
                loop {
                    if self.fill.is_some() {
                        let p = self.pos;
                        self.assign(p, |r, _| if r.below(1000) < end { 0 } else { r.byte() | u8::from(end < 10) }, 1);
                    }
                    let b = self.read(1)?[0];
                    if b == 0 {
                        break;
                    }
                    v.push(b);
                }
                Ok(if *t == Ty::NStr { Val::B(v) } else { Val::L(v.into_iter().map(|x| Val::N(u128::from(x))).collect()) })
            }
            Ty::NWStr | Ty::VNz16 => {
                let mut v = vec![];
                let hint = if self.fill.as_mut().map_or(false, |f| f.r.pct(20)) { Hint::Rare } else { Hint::Zeroish };
                loop {
                    let b = self.prim(P::U16, o, hint)? as u16;
                    if b == 0 {
                        break;
                    }
                    v.push(b);
                }
                Ok(if *t == Ty::NWStr { Val::W(v) } else { Val::L(v.into_iter().map(|x| Val::N(u128::from(x))).collect()) })
            }
            Ty::Ptr(p, _) => Ok(Val::P(self.prim(*p, o, Hint::Ptr)?, None)),
            Ty::Pos(t) => {
                self.op()?;
                let p = self.pos;
                Ok(Val::At(p, Box::new(self.ty(t, o, args)?)))
            }
            Ty::Punct(..) => unreachable!("Punctuated is only built by its parsers"),
        }
    }

    pub fn after(&mut self, v: &mut Val, t: &Ty, o: Opts, args: &[i64]) -> R<()> {
        self.vop()?;
        match (t, v) {
            (Ty::Vec(t), Val::L(v)) | (Ty::Arr(t, _), Val::L(v)) => {
                for x in v {
                    self.after(x, t, o, args)?;
                }
                Ok(())
            }
            (Ty::Tup(ts), Val::L(v)) => {
                for (x, t) in v.iter_mut().zip(ts) {
                    self.after(x, t, o, &[])?;
                }
                Ok(())
            }
            (Ty::Bx(t), v) => self.after(v, t, o, args),
            (Ty::Opt(t), Val::O(Some(v))) => self.after(v, t, o, args),
            (Ty::Pos(t), Val::At(_, v)) => self.after(v, t, o, args),
            (Ty::Ptr(p, t), Val::P(bits, target)) => {
                self.op()?;
                let before = self.pos;
                self.op()?;
                self.pos = o.offset;
                let off: i64 = if p.signed() {
                    let sh = 128 - p.size() as u32 * 8;
                    let x = ((*bits << sh) as i128) >> sh;
                    x.clamp(i128::from(i64::MIN), i128::from(i64::MAX)) as i64
                } else {
                    (*bits).min(i64::MAX as u128) as i64
                };
                let base = self.pos;
                self.seek_rel(base, off)?;
                let mut x = self.ty(t, o, args)?;
                self.after(&mut x, t, o, args)?;
                *target = Some(Box::new(x));
                self.back(before)
            }
            _ => Ok(()),
        }
    }

    fn item(&mut self, t: &Ty, o: Opts, args: &[i64], hint: Hint) -> R<Val> {
        let o = Opts { count: None, ..o };
        let mut v = match t {
            Ty::P(p) => Val::N(self.prim(*p, o, hint)?),
            _ => self.ty(t, o, args)?,
        };
        self.after(&mut v, t, o, args)?;
        Ok(v)
    }

    fn is_eof(e: &CErr) -> bool {
        match e {
            CErr::Io(Io::Eof) => true,
            CErr::Enum { errs, .. } => errs.iter().all(|e| Self::is_eof(&e.1)),
            _ => false,
        }
    }

    fn parse_with(&mut self, pw: &Pw, t: &Ty, o: Opts, args: &[i64], count_arg: i64) -> R<Val> {
        self.vop()?;
        let v = self.parse_with_(pw, t, o, args, count_arg)?;
        self.vop()?;
        Ok(v)
    }
    fn parse_with_(&mut self, pw: &Pw, t: &Ty, o: Opts, args: &[i64], count_arg: i64) -> R<Val> {
        let elem = || match t {
            Ty::Vec(t) | Ty::Deque(t) => &**t,
            _ => unreachable!(),
        };
        match pw {
            Pw::Until { excl, .. } | Pw::UntilZero { excl } => {
                let mut v = vec![];
                let long = matches!(pw, Pw::UntilZero { .. }) && self.fill.as_mut().map_or(false, |f| f.r.pct(15));
                let hint = match pw {
                    Pw::UntilZero { .. } if long => Hint::Rare,
                    Pw::UntilZero { .. } => Hint::Zeroish,
                    _ => Hint::Any,
                };
                loop {
                    let x = self.item(elem(), o, args, hint)?;
                    let done = match pw {
                        Pw::Until { m, r, .. } => x.zh() % m == *r,
                        _ => x == Val::N(0),
                    };
                    if !done || !excl {
                        v.push(x);
                    }
                    if done {
                        return Ok(Val::L(v));
                    }
                }
            }
            Pw::UntilEof => {
                let mut v = vec![];
                loop {
                    match self.item(elem(), o, args, Hint::Any) {
                        Ok(x) => v.push(x),
                        Err(CErr::Fuel) => return Err(CErr::Fuel),
                        Err(e) if Self::is_eof(&e) => {
                            self.absorbed += 1;
                            return Ok(Val::L(v));
                        }
                        Err(e) => return Err(e),
                    }
                }
            }
            Pw::Count(_) => {
                let mut v = vec![];
                for _ in 0..count_arg as u64 {
                    v.push(self.item(elem(), o, args, Hint::Any)?);
                }
                Ok(Val::L(v))
            }
            Pw::ReadBytes => {
                let n = o.count.expect("count for read_bytes");
                let mut v = vec![];
                while (v.len() as u64) < n {
                    let k = (n - v.len() as u64).min(4096) as usize;
                    v.extend(self.read(k)?);
                }
                Ok(Val::L(v.into_iter().map(|x| Val::N(u128::from(x))).collect()))
            }
            Pw::PunctSep | Pw::PunctTrail => {
                let (a, s) = match t {
                    Ty::Punct(a, s) => (a, s),
                    _ => unreachable!(),
                };
                let n = o.count.expect("count for Punctuated");
                let (mut d, mut q) = (vec![], vec![]);
                for i in 0..n {
                    let mut x = self.ty(a, o, args)?;
                    self.after(&mut x, a, o, args)?;
                    d.push(x);
                    if *pw == Pw::PunctTrail || i + 1 != n {
                        let mut x = self.ty(s, o, &[])?;
                        self.after(&mut x, s, o, &[])?;
                        q.push(x);
                    }
                }
                Ok(Val::Pn(d, q))
            }
            Pw::PtrParse(p) => {
                let pt = Ty::Ptr(*p, Box::new(t.clone()));
                let mut v = self.ty(&pt, o, args)?;
                self.op()?;
                let saved = self.pos;
                self.after(&mut v, &pt, o, args)?;
                self.back(saved)?;
                match v {
                    Val::P(_, Some(x)) => Ok(*x),
                    _ => unreachable!(),
                }
            }
            Pw::Spy => self.ty(t, o, args),
            Pw::ThenAfter => {
                let mut v = self.ty(t, o, args)?;
                self.after(&mut v, t, o, args)?;
                Ok(v)
            }
            Pw::Opts => {
                let v = self.prim(P::U16, o, Hint::Any)? as u64;
                Ok(Val::N(opts_hash(v, o.big, o.count, o.offset, args) as u64 as u128))
            }
            Pw::Reenter => Ok(Val::N(REENTER_VALUE as u128)),
        }
    }

    fn align(&mut self, a: i64) -> R<()> {
        self.op()?;
        let pos = self.pos as i64;
        if a != 0 {
            let pad = a.wrapping_sub(pos.wrapping_rem(a)).wrapping_rem(a);
            let p = self.pos;
            self.seek_rel(p, pad)?;
        }
        Ok(())
    }

    /// Reads the fields of a struct or variant; returns what is stored.
    fn fields(&mut self, fs: &Fields, so: Opts, imp: &[i64], pos0: u64, s: Scope) -> R<(Vec<Val>, Vec<Val>)> {
        let list = &fs.fields;
        let mut env: Vec<Val> = vec![];
        let mut meta: Vec<(Opts, Vec<i64>)> = vec![];
        for f in list {
            let mut fo = so;
            let arg_tys = crate::emit::args_of(self.zoo, &f.read_ty());
            let args: Vec<i64> = match &f.args {
                None => vec![],
                Some(a) => a
                    .iter()
                    .enumerate()
                    .map(|(i, e)| {
                        let v = self.e(e, list, &env, imp);
                        if matches!(f.mode, Mode::With(Pw::Opts)) {
                            v
                        } else {
                            cast(v, arg_tys[i])
                        }
                    })
                    .collect(),
            };
            match &f.endian {
                EndDir::Inherit => {}
                EndDir::Fixed(e) => fo.big = *e == End::Big,
                EndDir::Cond(e, b) => fo.big = (*e == End::Big) == self.b(b, list, &env, imp),
            }
            if let Some(e) = &f.offset {
                fo.offset = self.e(e, list, &env, imp) as u64;
            }
            if let Some(e) = &f.count {
                fo.count = Some(self.e(e, list, &env, imp) as u64);
            }
            let cond = f.if_.as_ref().map_or(true, |c| self.b(&c.cond, list, &env, imp));
            if let Some(m) = &f.magic {
                if cond {
                    self.check_magic(m, fo)?;
                }
            }
            let saved = if f.restore {
                self.op()?;
                Some(self.pos)
            } else {
                None
            };
            self.vop()?;
            let v = if cond {
                self.field_value(f, fo, &args, list, &env, imp)?
            } else {
                match &f.if_.as_ref().unwrap().alt {
                    None => self.default_of(&f.ty),
                    Some((id, n)) => {
                        self.probes.insert(*id);
                        match &f.ty {
                            Ty::P(_) => Val::N(*n as u128),
                            _ => Val::O(Some(Box::new(Val::N(*n as u128)))),
                        }
                    }
                }
            };
            env.push(v);
            meta.push((fo, args));
            self.vop()?;
            self.asserts(&f.asserts, list, &env, imp, pos0, s)?;
            if let Some(p) = saved {
                self.back(p)?;
            }
        }
        let late = |f: &Field| matches!(f.mode, Mode::Normal) && f.map.is_none() && !f.deref_now;
        if list.iter().any(late) {
            self.op()?;
            let saved = self.pos;
            for (i, f) in list.iter().enumerate() {
                if late(f) {
                    let (mut fo, args) = meta[i].clone();
                    if let Some(e) = &f.offset_after {
                        fo.offset = self.e(e, list, &env, imp) as u64;
                    }
                    let mut v = std::mem::replace(&mut env[i], Val::U);
                    let r = self.after(&mut v, &f.ty, fo, &args);
                    env[i] = v;
                    r?;
                }
            }
            self.back(saved)?;
        }
        self.asserts(&fs.asserts, list, &env, imp, pos0, s)?;
        let stored = env.iter().zip(list).filter(|(_, f)| !f.temp).map(|(v, _)| v.clone()).collect();
        Ok((stored, env))
    }

    fn field_value(&mut self, f: &Field, fo: Opts, args: &[i64], list: &[Field], env: &[Val], imp: &[i64]) -> R<Val> {
        if let Some((w, e)) = &f.seek_before {
            let x = self.e(e, list, env, imp);
            match w {
                Whence::Start => {
                    self.op()?;
                    self.pos = x as u64;
                }
                Whence::Current => {
                    let p = self.pos;
                    self.seek_rel(p, x)?
                }
                Whence::End => {
                    self.end_seek = true;
                    let p = self.base + self.bytes.len() as u64;
                    self.seek_rel(p, x)?
                }
            }
        }
        if let Some(e) = &f.pad_before {
            let p = self.pos;
            let x = self.e(e, list, env, imp);
            self.seek_rel(p, x)?;
        }
        if let Some(e) = &f.align_before {
            let x = self.e(e, list, env, imp);
            self.align(x)?;
        }
        let p0 = if f.pad_size_to.is_some() {
            self.op()?;
            self.pos
        } else {
            0
        };
        let mpos = if let Map::Try { .. } = f.map {
            self.op()?;
            self.pos
        } else {
            0
        };
        let x = match &f.mode {
            Mode::Default | Mode::Ignore => self.default_of(&f.ty),
            Mode::Calc(e) => Val::N(self.e(e, list, env, imp) as u64 as u128),
            Mode::Normal | Mode::With(_) => {
                let t = f.read_ty();
                let saved = if f.try_ {
                    self.op()?;
                    self.pos
                } else {
                    0
                };
                let r = match &f.mode {
                    Mode::With(pw) => {
                        let n = if let Pw::Count(e) = pw { self.e(e, list, env, imp) } else { 0 };
                        self.parse_with(pw, &t, fo, args, n)
                    }
                    _ => self.ty(&t, fo, args),
                };
                if f.try_ {
                    match r {
                        Ok(v) => Val::O(Some(Box::new(v))),
                        Err(CErr::Fuel) => return Err(CErr::Fuel),
                        Err(_) => {
                            self.absorbed += 1;
                            self.back(saved)?;
                            Val::O(None)
                        }
                    }
                } else {
                    r?
                }
            }
        };
        let mut v = self.map(&f.map, &x, list, env, imp, mpos)?;
        if f.deref_now && matches!(f.mode, Mode::Normal) && f.map.is_none() {
            self.after(&mut v, &f.ty, fo, args)?;
        }
        if let Some(e) = &f.pad_size_to {
            self.op()?;
            let pad = self.e(e, list, env, imp);
            let size = (self.pos as i64).saturating_sub(p0 as i64);
            if size < pad {
                let p = self.pos;
                self.seek_rel(p, pad.saturating_sub(size))?;
            }
        }
        if let Some(e) = &f.pad_after {
            let p = self.pos;
            let x = self.e(e, list, env, imp);
            self.seek_rel(p, x)?;
        }
        if let Some(e) = &f.align_after {
            let x = self.e(e, list, env, imp);
            self.align(x)?;
        }
        Ok(v)
    }

    /// What a caller outside of the format starts
    pub fn root(&mut self, id: usize, e: &Entry, args: &[i64]) -> R<Val> {
        let zoo = self.zoo;
        let t = match &zoo.types[id].kind {
            Kind::Alias(t) => t,
            _ => return self.named(id, e.opts(), args),
        };
        let e = if has_vec(t) { e.counted() } else { e.clone() };
        let r = self.ty(t, e.opts(), args).and_then(|mut v| {
            // with read_options the caller is the one who resolves pointers
            if !matches!(e, Entry::Options(..)) {
                self.after(&mut v, t, e.opts(), args)?;
            }
            Ok(v)
        });
        // where a type of the crate stops when it fails is not fixed
        self.pos_any |= r.is_err();
        r
    }

    pub fn named(&mut self, id: usize, o: Opts, args: &[i64]) -> R<Val> {
        self.op()?;
        let p0 = self.pos;
        let r = self.vop().and_then(|_| self.inner(id, o, args, p0));
        let r = r.and_then(|v| self.vop().map(|_| v));
        match r {
            Ok(v) => Ok(v),
            Err(CErr::Fuel) => Err(CErr::Fuel),
            Err(e) => {
                self.back(p0)?;
                Err(e)
            }
        }
    }

    fn inner(&mut self, id: usize, o: Opts, imp: &[i64], p0: u64) -> R<Val> {
        let zoo = self.zoo;
        let t = &zoo.types[id];
        let s = Scope { tuple: false, import_tuple: t.import_tuple };
        let end = |o: Opts, e: &EndDir| match e {
            EndDir::Fixed(e) => Opts { big: *e == End::Big, ..o },
            _ => o,
        };
        let so = end(o, &t.endian);
        match &t.kind {
            Kind::Struct(f) => {
                if let Some(m) = &t.magic {
                    self.check_magic(m, so)?;
                }
                self.asserts(&t.pre, &[], &[], imp, p0, s)?;
                Ok(Val::S(self.fields(f, so, imp, p0, Scope { tuple: f.tuple, ..s })?.0))
            }
            Kind::UnitStruct => {
                if let Some(m) = &t.magic {
                    self.check_magic(m, so)?;
                }
                self.asserts(&t.pre, &[], &[], imp, p0, s)?;
                Ok(Val::S(vec![]))
            }
            Kind::Enum { variants, unexpected, asserts } => {
                if let Some(f) = &mut self.fill {
                    let i = f.r.below(variants.len() as u64) as usize;
                    let vo = if variants[i].endian != EndDir::Inherit { end(o, &variants[i].endian) } else { so };
                    if let Some(m) = variants[i].magic.as_ref().or(t.magic.as_ref()) {
                        if f.r.pct(92) {
                            self.assign_magic(p0, m, vo.big);
                        }
                    }
                }
                let mut errs = vec![];
                for (i, v) in variants.iter().enumerate() {
                    match self.variant(t, v, o, so, imp, p0, s, asserts) {
                        Ok(fields) => return Ok(Val::V(i as u32, fields)),
                        Err(CErr::Fuel) => return Err(CErr::Fuel),
                        Err(e) => {
                            self.absorbed += 1;
                            errs.push((format!("V{}", i), e));
                            self.back(p0)?;
                        }
                    }
                }
                Err(if *unexpected { CErr::NoVariant { pos: p0 } } else { CErr::Enum { pos: p0, errs } })
            }
            Kind::UnitEnum { repr, variants } => {
                if let Some(m) = &t.magic {
                    self.check_magic(m, so)?;
                }
                let at = self.pos;
                match repr {
                    Some(p) => {
                        let disc = |v: &UnitVariant| v.disc as u128 & if p.size() == 16 { u128::MAX } else { (1u128 << (8 * p.size())) - 1 };
                        if let Some(f) = &mut self.fill {
                            if f.r.pct(90) {
                                let v = &variants[f.r.below(variants.len() as u64) as usize];
                                let m = Magic::Int(*p, disc(v));
                                self.assign_magic(at, &m, so.big);
                            }
                        }
                        let x = self.prim(*p, so, Hint::Any)?;
                        for (i, v) in variants.iter().enumerate() {
                            if disc(v) == x && v.pre.iter().all(|b| self.b(b, &[], &[], imp)) {
                                return Ok(Val::V(i as u32, vec![]));
                            }
                        }
                        Err(CErr::NoVariant { pos: p0 })
                    }
                    None => {
                        if let Some(f) = &mut self.fill {
                            if f.r.pct(90) {
                                let v = &variants[f.r.below(variants.len() as u64) as usize];
                                let m = v.magic.clone().unwrap();
                                self.assign_magic(at, &m, so.big);
                            }
                        }
                        let mt = Self::magic_ty(variants[0].magic.as_ref().unwrap());
                        let x = self.ty(&mt, so, &[])?;
                        for (i, v) in variants.iter().enumerate() {
                            if Self::magic_val(v.magic.as_ref().unwrap()) == x && v.pre.iter().all(|b| self.b(b, &[], &[], imp)) {
                                return Ok(Val::V(i as u32, vec![]));
                            }
                        }
                        Err(CErr::NoVariant { pos: p0 })
                    }
                }
            }
            Kind::Alias(_) => unreachable!("only a root"),
            Kind::Mapped(m) => {
                if let Some(m) = &t.magic {
                    self.check_magic(m, so)?;
                }
                self.asserts(&t.pre, &[], &[], imp, p0, s)?;
                let inner = match m {
                    Map::Map(t, _) | Map::Try { ty: t, .. } => t,
                    Map::None => unreachable!(),
                };
                let x = self.ty(inner, so, imp)?;
                Ok(Val::S(vec![self.map(m, &x, &[], &[], imp, p0)?]))
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn variant(&mut self, t: &TypeDef, v: &Variant, o: Opts, so: Opts, imp: &[i64], p0: u64, s: Scope, asserts: &[Assert]) -> R<Vec<Val>> {
        self.vop()?;
        let vo = match &v.endian {
            EndDir::Fixed(e) => Opts { big: *e == End::Big, ..o },
            _ => so,
        };
        if let Some(m) = v.magic.as_ref().or(t.magic.as_ref()) {
            self.check_magic(m, vo)?;
        }
        self.asserts(&t.pre, &[], &[], imp, p0, s)?;
        self.asserts(&v.pre, &[], &[], imp, p0, s)?;
        if let Map::Map(inner, _) | Map::Try { ty: inner, .. } = &v.map {
            let x = self.ty(inner, vo, imp)?;
            return Ok(vec![self.map(&v.map, &x, &[], &[], imp, p0)?]);
        }
        match &v.body {
            None => Ok(vec![]),
            Some(f) => {
                let (stored, env) = self.fields(f, vo, imp, p0, Scope { tuple: f.tuple, ..s })?;
                self.asserts(asserts, &f.fields, &env, imp, p0, s)?;
                Ok(stored)
            }
        }
    }
}

pub fn zmix(id: u32, v: i64) -> u64 {
    mix(u64::from(id) << 32 ^ v as u64)
}

pub fn opts_hash(v: u64, big: bool, count: Option<u64>, offset: u64, args: &[i64]) -> i64 {
    let mut h = mix(v ^ 0x77) ^ u64::from(big);
    h = mix(h ^ count.map_or(0, |c| c.wrapping_add(1)));
    h = mix(h ^ offset);
    for a in args {
        h = mix(h ^ *a as u64);
    }
    (h & 0x7fff_ffff) as i64
}

/// What a parse must do.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Expect {
    pub res: Result<Val, CErr>,
    pub pos: u64,
    /// the position is not determined (the repositioning seek itself failed)
    pub pos_any: bool,
    pub probes: BTreeSet<u32>,
}
