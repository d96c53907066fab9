//! Decides whether one simulated execution satisfies a property.
use crate::emit::args_of;
use crate::exec::*;
use crate::model::*;
use crate::rng::mix;
use crate::rt::{zoo, Act, Media, PRIMS, PRIM_BASE};
use crate::schema::*;
use crate::spec::{Actor, Spec};
use crate::val::Val;
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;
use std::sync::Arc;

pub struct RootInfo {
    pub big: bool,
    pub id: usize,
    pub opaque: bool,
    pub imports: Vec<P>,
    pub feats: BTreeSet<&'static str>,
}

/// What the model says about an undisturbed parse.
#[derive(Clone, Debug)]
pub struct Nat {
    pub exp: Expect,
    pub ticks: u64,
    pub absorbed: u32,
    pub max_touched: u64,
    pub end_seek: bool,
    pub fuel: bool,
}

pub struct Memo {
    pub nat: Option<Rc<Nat>>,
    pub base: Option<Rc<Out>>,
    pub set_err: Option<Rc<Vec<Expect>>>,
    pub set_eof: Option<Rc<Vec<Expect>>>,
}

pub struct Ctx {
    pub zoo: Zoo,
    pub info: Vec<RootInfo>,
    pub memo: HashMap<u64, Memo>,
    pub fuel: u64,
    pub trace: bool,
    pub solo: HashMap<u64, Arc<Result<crate::conc::Report, String>>>,
    pub extra_kinds: std::collections::BTreeMap<&'static str, u64>,
    pub extra_points: std::collections::BTreeMap<&'static str, u64>,
    pub switches: u64,
}

pub struct Verdict {
    pub bad: Option<(String, String)>,
    pub out: Out,
    /// the spec with every random decision replaced by what was decided
    pub acts: Vec<Vec<(u64, Act)>>,
    pub extra: Vec<i64>,
    /// further real executions judged with this one
    pub also: u64,
    pub nontrivial: bool,
    pub tags: Vec<&'static str>,
}

pub fn weak(mut e: Expect) -> Expect {
    if !cfg!(feature = "std") {
        if let Err(x) = &mut e.res {
            x.weaken();
        }
    }
    e
}

/// Stands for the failure, whatever it is, in the outcomes of `one_fault_set`
const ANY_FAULT: Io = Io::Fault(255, 0);

fn same_err(e: &CErr, got: &CErr, id: Io) -> bool {
    match (e, got) {
        (CErr::Io(ANY_FAULT), CErr::Io(g)) => *g == id,
        (CErr::Enum { pos, errs }, CErr::Enum { pos: p, errs: g }) => {
            pos == p && errs.len() == g.len() && errs.iter().zip(g).all(|(a, b)| a.0 == b.0 && same_err(&a.1, &b.1, id))
        }
        (a, b) => a == b,
    }
}

/// Every i/o failure in an error, also those listed under variants.
pub fn ios(e: &CErr, out: &mut Vec<Io>) {
    match e {
        CErr::Io(i) => out.push(*i),
        CErr::Enum { errs, .. } => errs.iter().for_each(|e| ios(&e.1, out)),
        _ => {}
    }
}

impl Ctx {
    pub fn new() -> Ctx {
        static ZOO: std::sync::OnceLock<Zoo> = std::sync::OnceLock::new();
        let prof = crate::gen::profile(zoo::ZOO_PROFILE);
        let prof = crate::gen::Prof { roots: zoo::ZOO_NROOTS, ..prof };
        let z = ZOO.get_or_init(|| crate::gen::generate(zoo::ZOO_SEED, &prof)).clone();
        let info = z
            .roots
            .iter()
            .map(|id| {
                let mut feats = BTreeSet::new();
                features(&z, *id, &mut feats);
                RootInfo { id: *id, big: z.big.contains(id), opaque: z.types[*id].opaque, imports: z.types[*id].imports.clone(), feats }
            })
            .collect();
        let fuel = if prof.hostile { 60_000 } else { 20_000 };
        Ctx {
            zoo: z,
            info,
            memo: HashMap::new(),
            fuel,
            trace: false,
            solo: HashMap::new(),
            extra_kinds: Default::default(),
            extra_points: Default::default(),
            switches: 0,
        }
    }

    pub fn opaque(&self, root: usize) -> bool {
        root >= PRIM_BASE || self.info[root].opaque
    }

    pub fn args(&self, a: &Actor) -> Vec<i64> {
        if a.root >= PRIM_BASE {
            return vec![];
        }
        self.info[a.root].imports.iter().zip(&a.args).map(|(p, v)| cast(*v, *p)).collect()
    }

    pub fn step_model(&self, m: &mut M, a: &Actor) -> R<Val> {
        let r = if a.root >= PRIM_BASE {
            m.ty(&Ty::P(PRIMS[a.root - PRIM_BASE]), a.entry.opts(), &[])
        } else {
            let args = self.args(a);
            m.root(self.info[a.root].id, &a.entry, &args)
        };
        r
    }

    pub fn model(&self, a: &Actor, faults: Vec<(u64, Io)>) -> Nat {
        self.model_with(a, faults, false)
    }
    fn model_with(&self, a: &Actor, faults: Vec<(u64, Io)>, virt: bool) -> Nat {
        let mut m = M::new(&self.zoo, &a.media.bytes, a.media.base, &a.media.bad, a.start);
        m.fuel = self.fuel;
        m.virt = virt;
        m.faults = faults;
        let res = self.step_model(&mut m, a);
        Nat {
            fuel: res == Err(CErr::Fuel),
            exp: weak(Expect { res, pos: m.pos, pos_any: m.pos_any, probes: m.probes }),
            ticks: m.ticks,
            absorbed: m.absorbed,
            max_touched: m.max_touched,
            end_seek: m.end_seek,
        }
    }

    /// The undisturbed parse and everything it reads: position, width (0: a whole value), big endian.
    pub fn logged(&self, a: &Actor) -> (Nat, Vec<(u64, usize, bool)>) {
        let mut m = M::new(&self.zoo, &a.media.bytes, a.media.base, &a.media.bad, a.start);
        m.fuel = self.fuel;
        m.log = Some(vec![]);
        let res = self.step_model(&mut m, a);
        let log = m.log.take().unwrap();
        let nat = Nat {
            fuel: res == Err(CErr::Fuel),
            exp: weak(Expect { res, pos: m.pos, pos_any: m.pos_any, probes: m.probes }),
            ticks: m.ticks,
            absorbed: m.absorbed,
            max_touched: m.max_touched,
            end_seek: m.end_seek,
        };
        (nat, log)
    }

    fn key(&self, a: &Actor) -> u64 {
        let mut h = mix(a.root as u64 ^ a.start << 24);
        h = mix(h ^ crate::rt::opts_of_hash(&a.entry));
        for x in &a.args {
            h = mix(h ^ *x as u64);
        }
        for c in a.media.bytes.chunks(8) {
            let mut b = [0; 8];
            b[..c.len()].copy_from_slice(c);
            h = mix(h ^ u64::from_le_bytes(b));
        }
        h = mix(h ^ a.media.bytes.len() as u64);
        h = mix(h ^ a.media.base);
        for (x, y) in &a.media.bad {
            h = mix(mix(h ^ x) ^ y);
        }
        h
    }

    fn slot(&mut self, a: &Actor) -> &mut Memo {
        let k = self.key(a);
        if self.memo.len() > 3000 {
            self.memo.clear();
        }
        self.memo.entry(k).or_insert(Memo { nat: None, base: None, set_err: None, set_eof: None })
    }

    pub fn nat(&mut self, a: &Actor) -> Rc<Nat> {
        if let Some(n) = &self.slot(a).nat {
            return n.clone();
        }
        let n = Rc::new(self.model(a, vec![]));
        self.slot(a).nat = Some(n.clone());
        n
    }

    pub fn budget(&mut self, a: &Actor) -> u64 {
        let n = self.nat(a);
        4000 + 300 * n.ticks + 40 * a.media.bytes.len() as u64
    }

    /// The real code on a reader that delivers everything at once.
    pub fn base(&mut self, a: &Actor) -> Rc<Out> {
        if let Some(n) = &self.slot(a).base {
            return n.clone();
        }
        let b = self.budget(a);
        let calm = Actor { acts: vec![], rand: None, nest: None, ..a.clone() };
        let n = Rc::new(run_actor(&calm, b, false));
        self.slot(a).base = Some(n.clone());
        n
    }

    /// Everything a single failure may lead to.
    pub fn one_fault_set(&mut self, a: &Actor, f: Io) -> Rc<Vec<Expect>> {
        let eof = f == Io::Eof;
        let slot = self.slot(a);
        if let Some(s) = if eof { &slot.set_eof } else { &slot.set_err } {
            return s.clone();
        }
        let mut ticks = self.nat(a).ticks;
        if !eof {
            ticks = self.model_with(a, vec![], true).ticks;
        }
        // too long to enumerate: an empty set decides nothing
        if ticks > 500 {
            ticks = 0;
        }
        let mut v = vec![];
        for t in 1..=ticks {
            let n = self.model_with(a, vec![(t, if eof { Io::Eof } else { ANY_FAULT })], !eof);
            if n.fuel {
                // this path was not followed to its end
                v.clear();
                break;
            }
            if v.last() != Some(&n.exp) {
                v.push(n.exp);
            }
        }
        let v = Rc::new(v);
        let slot = self.slot(a);
        if eof {
            slot.set_eof = Some(v.clone());
        } else {
            slot.set_err = Some(v.clone());
        }
        v
    }

    /// Does the real result equal the model's?
    pub fn same(out: &Out, e: &Expect, pos: bool, probes: bool) -> bool {
        match &out.res {
            Res::V(r) => *r == e.res && (!pos || e.pos_any || out.pos == e.pos) && (!probes || out.probes == e.probes),
            _ => false,
        }
    }

    /// Without std an error that a map function returned looks like a failure of the reader.
    fn may_be_mapped(&self, root: usize) -> bool {
        if cfg!(feature = "std") || root >= PRIM_BASE {
            return false;
        }
        let mut fs = Default::default();
        features(&self.zoo, self.zoo.roots[root], &mut fs);
        ["try_map", "type_try_map", "variant_try_map"].iter().any(|f| fs.contains(f))
    }

    pub fn base_agrees(&mut self, a: &Actor) -> bool {
        let n = self.nat(a);
        if n.fuel {
            return false;
        }
        let b = self.base(a);
        Self::same(&b, &n.exp, true, true)
    }
}

fn v(class: &str, msg: String) -> Option<(String, String)> {
    Some((class.into(), msg))
}

pub struct Want {
    pub pos: bool,
    pub probes: bool,
}

/// Compares one execution with the reference model.
fn against_model(ctx: &mut Ctx, a: &Actor, out: &Out, w: &Want) -> Option<(String, String)> {
    let nat = ctx.nat(a);
    if nat.fuel {
        return None;
    }
    match &out.res {
        Res::Panic(m) => return v("panic", format!("the parse panicked: {}", m)),
        Res::Budget => return v("no-progress", format!("the parse did not finish within {} reader operations (model: {})", out.ops, nat.ticks)),
        Res::SimPanic => return None,
        Res::V(_) => {}
    }
    let res = match &out.res {
        Res::V(r) => r,
        _ => unreachable!(),
    };
    let explain = |e: &Expect| {
        format!(
            "expected {:?} at {:#x}{}, got {:?} at {:#x}; evaluated messages/alternates expected {:?}, got {:?}",
            e.res,
            e.pos,
            if e.pos_any { " (position free)" } else { "" },
            out.res,
            out.pos,
            e.probes,
            out.probes
        )
    };
    match out.hard {
        0 => {
            let e = &nat.exp;
            if *res != e.res {
                return v("result", explain(e));
            }
            if w.pos && !e.pos_any && out.pos != e.pos {
                return v("position", explain(e));
            }
            if w.probes && out.probes != e.probes {
                return v("evaluated", explain(e));
            }
            None
        }
        1 => {
            let id = out.hard_ids()[0];
            let set = ctx.one_fault_set(a, id);
            if set.is_empty() {
                return None;
            }
            let mut res_ok = false;
            let mut pos_ok = false;
            let mut probe_ok = !w.probes;
            for e in set.iter() {
                let same = match (&e.res, res) {
                    (Ok(x), Ok(y)) => x == y,
                    (Err(x), Err(y)) => same_err(x, y, id),
                    _ => false,
                };
                if same {
                    res_ok = true;
                    if !w.pos || e.pos_any || e.pos == out.pos {
                        pos_ok = true;
                        probe_ok |= out.probes == e.probes;
                    }
                }
            }
            let last = set.iter().rev().take(3).map(|e| format!("{:?} at {:#x}", e.res, e.pos)).collect::<Vec<_>>().join(" | ");
            if !res_ok {
                return v("result", format!("one operation failed ({:?}); got {:?} at {:#x}, which no position of that failure explains; e.g. {}", id, out.res, out.pos, last));
            }
            if !pos_ok {
                return v("position", format!("one operation failed ({:?}); got {:?} at {:#x}, a position no position of that failure explains; e.g. {}", id, out.res, out.pos, last));
            }
            if !probe_ok {
                return v("evaluated", format!("one operation failed ({:?}); evaluated messages/alternates {:?}", id, out.probes));
            }
            None
        }
        _ => None,
    }
}

/// A failed parse is back where it began (unless the last thing that happened is that a
/// seek failed).
fn restored(ctx: &mut Ctx, a: &Actor, out: &Out) -> Option<(String, String)> {
    if let Some(m) = out.spy.first() {
        return v("nested-position", m.clone());
    }
    let nat = ctx.nat(a);
    let first_failure = out.hard == 1 && !nat.fuel && nat.exp.res.is_ok() && nat.absorbed == 0;
    if let (Some(m), true) = (out.spy_soft.first(), first_failure) {
        return v("nested-position", format!("{} (the failing seek was not a repositioning one)", m));
    }
    if let Res::V(Err(e)) = &out.res {
        if out.pos != a.start && (!out.last_failed_seek || first_failure) {
            return v("position", format!("parse began at {:#x}, failed with {:?}, left the reader at {:#x}", a.start, e, out.pos));
        }
    }
    None
}

/// Injected failures come back as they are.
fn identity(ctx: &mut Ctx, a: &Actor, out: &Out) -> Option<(String, String)> {
    let ids = out.hard_ids();
    let dead = out.fired.iter().any(|f| matches!(f.1, Act::Dead(..)));
    if out.hard > 0 && (ids.len() as u32 == out.hard || dead) && ctx.opaque(a.root) {
        return match &out.res {
            Res::V(Ok(x)) => v("swallowed", format!("operations failed with {:?} but the parse returned {:?}", ids, x)),
            Res::V(Err(CErr::Io(i))) if ids.contains(i) => None,
            // the failure was met while handling an end of file or a bad sector
            Res::V(Err(CErr::Io(Io::Bad(_)))) | Res::V(Err(CErr::Io(Io::Eof))) if out.hard > 1 => None,
            Res::V(Err(e)) => v("error-identity", format!("operations failed with {:?} but the parse returned {:?}", ids, e)),
            _ => None,
        };
    }
    if out.hard > 0 {
        // any i/o failure reported must have happened
        if let Res::V(Err(e)) = &out.res {
            let mut l = vec![];
            ios(e, &mut l);
            for i in l {
                if matches!(i, Io::Fault(..)) && !ids.contains(&i) && !ctx.may_be_mapped(a.root) || matches!(i, Io::Other(_)) {
                    return v("error-identity", format!("operations failed with {:?}; the error reports {:?}", ids, i));
                }
            }
        }
    }
    None
}

pub fn cut(a: &Actor, n: i64) -> Actor {
    let mut b = a.clone();
    let m: &mut Media = Arc::make_mut(&mut b.media);
    m.bytes.truncate(n.max(0) as usize);
    b
}

pub fn judge(ctx: &mut Ctx, spec: &Spec) -> Verdict {
    match spec.mode.as_str() {
        "parse" => judge_parse(ctx, spec),
        "cut" => judge_cut(ctx, spec),
        "stream" => crate::stream::judge_stream(ctx, spec),
        #[cfg(not(feature = "std"))]
        "cursor" => crate::io14::judge_cursor(ctx, spec),
        #[cfg(not(feature = "std"))]
        "adapt" => crate::io14::judge_adapt(ctx, spec),
        #[cfg(cursor_entry)]
        "equal" => judge_equal(ctx, spec),
        #[cfg(cursor_entry)]
        "cparse" => judge_cparse(ctx, spec),
        "hostile" => judge_hostile(ctx, spec),
        m if m.starts_with("conc") || m.starts_with("template") => crate::conc::judge(ctx, spec),
        m => panic!("harness: unknown mode {}", m),
    }
}

fn verdict(bad: Option<(String, String)>, out: Out, spec: &Spec, nontrivial: bool) -> Verdict {
    let mut acts: Vec<_> = spec.actors.iter().map(|a| a.acts.clone()).collect();
    acts[0] = out.acts();
    Verdict { bad, out, acts, extra: spec.extra.clone(), also: 0, nontrivial, tags: vec![] }
}

fn judge_parse(ctx: &mut Ctx, spec: &Spec) -> Verdict {
    let a = &spec.actors[0];
    let budget = ctx.budget(a);
    let out = run_actor(a, budget, ctx.trace);
    let full = Want { pos: true, probes: true };
    let bad = match spec.prop.as_str() {
        "C01" => {
            let base = ctx.base(a);
            if out.hard > 0 {
                None
            } else if out.res != base.res {
                v("result", format!("delivered at once: {:?} at {:#x}; with this delivery: {:?} at {:#x}", base.res, base.pos, out.res, out.pos))
            } else if out.pos != base.pos {
                v("position", format!("result {:?}; delivered at once the reader ends at {:#x}, with this delivery at {:#x}", out.res, base.pos, out.pos))
            } else {
                None
            }
        }
        "C02" => restored(ctx, a, &out),
        "C04" => identity(ctx, a, &out).or_else(|| {
            let calm = Actor { media: Arc::new(Media { bad: vec![], ..(*a.media).clone() }), ..a.clone() };
            if ctx.base_agrees(&calm) && out.hard <= 1 {
                against_model(ctx, a, &out, &Want { pos: false, probes: false })
            } else {
                None
            }
        }),
        _ => against_model(ctx, a, &out, &full),
    };
    let nontrivial = !out.fired.is_empty() || out.natural_bad > 0 || out.eofs > 0 || out.ops > 3;
    verdict(bad, out, spec, nontrivial)
}

fn judge_cut(ctx: &mut Ctx, spec: &Spec) -> Verdict {
    let whole = &spec.actors[0];
    let n = spec.extra[0];
    let a = &cut(whole, n);
    let budget = ctx.budget(a);
    let out = run_actor(a, budget, ctx.trace);
    let nat = ctx.nat(whole);
    let mut bad = None;
    if ctx.base_agrees(whole) && out.hard == 0 {
        if nat.exp.res.is_ok() && ctx.opaque(a.root) && !nat.end_seek && (a.media.bytes.len() as u64) < nat.max_touched {
            if let Res::V(r) = &out.res {
                if *r != Err(CErr::Io(Io::Eof)) {
                    bad = v("accepted", format!("the parse needs the first {} bytes, got {}; returned {:?}", nat.max_touched, n, r));
                }
            }
        }
        if bad.is_none() {
            bad = against_model(ctx, a, &out, &Want { pos: false, probes: false });
        }
    }
    let nontrivial = out.eofs > 0;
    verdict(bad, out, spec, nontrivial)
}

/// A parse from the crate's own cursor against the same parse from the simulated reader.
#[cfg(cursor_entry)]
fn judge_cparse(ctx: &mut Ctx, spec: &Spec) -> Verdict {
    let a = &spec.actors[0];
    let b = ctx.budget(a);
    let out = run_actor(a, b, ctx.trace);
    let (res, pos) = call_cursor(a);
    let mut bad = None;
    let seek = |r: &Res| matches!(r, Res::V(Err(CErr::Io(Io::Seek))));
    let strip = |r: &Res| match r {
        Res::V(Err(e)) => {
            let mut e = e.clone();
            unid(&mut e);
            Res::V(Err(e))
        }
        x => x.clone(),
    };
    if out.res != Res::Budget && !seek(&out.res) {
        if strip(&res) != strip(&out.res) {
            bad = v("cursor-result", format!("from the simulated reader: {:?} at {:#x}; from the cursor: {:?} at {:#x}", out.res, out.pos, res, pos));
        } else if pos != out.pos {
            bad = v("cursor-position", format!("{:?}; the simulated reader ends at {:#x}, the cursor at {:#x}", res, out.pos, pos));
        }
    } else if seek(&out.res) && !matches!(res, Res::V(Err(CErr::Io(_)))) {
        bad = v("cursor-result", format!("from the simulated reader: {:?}; from the cursor: {:?}", out.res, res));
    }
    verdict(bad, out, spec, true)
}

/// C15: the digest is what all builds must agree on; the driver compares them.
#[cfg(cursor_entry)]
fn judge_equal(ctx: &mut Ctx, spec: &Spec) -> Verdict {
    let a = &spec.actors[0];
    let b = ctx.budget(a);
    let mut out = run_actor(a, b, ctx.trace);
    let cursor = spec.extra.first() == Some(&1) && out.res != Res::Budget;
    if cursor {
        let (res, pos) = call_cursor(a);
        out.res = res;
        out.pos = pos;
    }
    let res = match &out.res {
        Res::V(Err(e)) => {
            let mut e = e.clone();
            e.weaken();
            if cursor {
                unid(&mut e);
            }
            Res::V(Err(e))
        }
        Res::Panic(_) => Res::Panic(String::new()),
        x => x.clone(),
    };
    out.digest = mix(res.hash() ^ mix(out.pos));
    out.res = res;
    verdict(None, out, spec, true)
}

/// Refused seeks carry other payloads from a cursor than from the simulated reader.
#[cfg(cursor_entry)]
pub fn unid(e: &mut CErr) {
    match e {
        CErr::Io(i) => {
            *i = match *i {
                Io::Seek | Io::Other(_) => Io::Other(0),
                x => x,
            }
        }
        CErr::Enum { errs, .. } => errs.iter_mut().for_each(|e| unid(&mut e.1)),
        _ => {}
    }
}

/// C13: whatever the data and the reader do, the parse ends, in bounded memory.
fn judge_hostile(ctx: &mut Ctx, spec: &Spec) -> Verdict {
    let a = &spec.actors[0];
    let nat = ctx.nat(a);
    let len = a.media.bytes.len() as u64;
    let budget = if nat.fuel { 8 * ctx.fuel + 200 * len } else { 4000 + 300 * nat.ticks + 40 * len };
    let (out, peak, biggest) = crate::alloc::measure(|| run_actor(a, budget, ctx.trace));
    let mut bad = match &out.res {
        Res::Panic(m) => v("panic", format!("the parse panicked: {}", m)),
        // where the reference interpreter gives up nothing is decided about the number of calls
        Res::Budget if !nat.fuel => v("no-progress", format!("the parse did not finish within {} reader calls on {} bytes (model: {})", out.ops, len, nat.ticks)),
        _ => None,
    };
    let benign = out.fired.iter().filter(|(_, a, _)| !a.hard()).count() as u64;
    if bad.is_none() && out.hard == 0 && !nat.fuel {
        let bound = 200 + 8 * nat.ticks;
        if out.ops - benign > bound {
            bad = v("operations", format!("{} reader calls on {} bytes; the reference interpreter needs {}", out.ops - benign, len, nat.ticks));
        }
    }
    let bound = MEM_BASE + MEM_OP * out.ops + MEM_LEN * len;
    if bad.is_none() && peak > bound {
        bad = v("memory", format!("the parse of {} bytes held up to {} bytes of memory (largest request {}) in {} reader calls", len, peak, biggest, out.ops));
    }
    let nontrivial = !out.fired.is_empty() || out.eofs > 0 || out.natural_bad > 0;
    let mut vd = verdict(bad, out, spec, nontrivial);
    if nat.fuel {
        vd.tags.push("huge");
    }
    if std::env::var("SIM_MEM").is_ok() {
        let o = &vd.out;
        println!("MEM {} {} {} {} {}", peak, o.ops, len, o.ops.saturating_sub(benign), nat.ticks);
    }
    vd
}
const MEM_BASE: u64 = 64 << 10;
const MEM_OP: u64 = 1024;
const MEM_LEN: u64 = 64;

#[allow(dead_code)]
pub fn imports(zoo: &Zoo, t: &Ty) -> Vec<P> {
    args_of(zoo, t)
}
