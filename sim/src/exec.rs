//! Runs the real code once.
use crate::model::{CErr, Io};
use crate::rng::mix;
use crate::rt::*;
use crate::spec::Actor;
use crate::val::Val;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        if i.payload().is::<SimPanic>() || i.payload().is::<Budget>() {
            return;
        }
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if m.starts_with("harness:") || at.starts_with("src/") {
            eprintln!("HARNESS PANIC {} at {}", m, at);
        }
        PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, at));
    }));
}
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

#[derive(Clone, PartialEq, Debug)]
pub enum Res {
    V(Result<Val, CErr>),
    Panic(String),
    Budget,
    SimPanic,
}

impl Res {
    pub fn class(&self) -> &'static str {
        match self {
            Res::V(Ok(_)) => "ok",
            Res::V(Err(e)) => e.class(),
            Res::Panic(_) => "panic",
            Res::Budget => "budget",
            Res::SimPanic => "injected_panic",
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Res::V(Ok(_)))
    }
    pub fn hash(&self) -> u64 {
        match self {
            Res::V(Ok(v)) => v.hash64(),
            x => {
                let mut h = 0x99;
                for b in format!("{:?}", x).bytes() {
                    h = mix(h ^ u64::from(b));
                }
                h
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct Out {
    pub res: Res,
    pub pos: u64,
    pub ops: u64,
    pub fired: Vec<(u64, Act, bool)>,
    pub hard: u32,
    pub probes: BTreeSet<u32>,
    pub spy: Vec<String>,
    pub spy_soft: Vec<String>,
    pub spy_runs: u64,
    pub last_failed_seek: bool,
    pub natural_bad: u64,
    pub eofs: u64,
    pub digest: u64,
    pub trace: Vec<String>,
    pub delivered: u64,
    /// results of several parses
    pub classes: Vec<String>,
}

impl Out {
    pub fn hard_ids(&self) -> Vec<Io> {
        self.fired
            .iter()
            .filter_map(|(_, a, _)| match a {
                Act::Err(k, id) | Act::Dead(k, id) => Some(fault(*k, *id)),
                Act::Zero => Some(Io::Eof),
                _ => None,
            })
            .collect()
    }
    pub fn acts(&self) -> Vec<(u64, Act)> {
        self.fired.iter().map(|(op, a, _)| (*op, *a)).collect()
    }
}

fn fault(k: u8, id: u64) -> Io {
    match clip_kind(k) {
        k if cfg!(feature = "std") => Io::Fault(k, id),
        EOF_KIND => Io::Eof,
        k => Io::Fault(k, 0),
    }
}

pub fn clear_tls() {
    PROBES.with(|p| p.borrow_mut().clear());
    SPY.with(|p| p.borrow_mut().clear());
    SPY_SOFT.with(|p| p.borrow_mut().clear());
    SPY_RUNS.with(|p| p.set(0));
}

pub fn reader(a: &Actor) -> SimReader {
    SimReader::new(a.media.clone(), a.start, a.sched())
}

/// Calls the generated entry point on a reader.
pub fn call<R: binread::io::Read + binread::io::Seek>(a: &Actor, r: &mut R) -> Res {
    let x = catch_unwind(AssertUnwindSafe(|| {
        if a.root >= PRIM_BASE {
            call_prim(a.root - PRIM_BASE, &a.entry, r)
        } else {
            zoo::call(a.root, &a.entry, r, &a.args)
        }
        .map_err(|e| canon(&e))
    }));
    match x {
        Ok(v) => Res::V(v),
        Err(p) => {
            if p.is::<Budget>() {
                Res::Budget
            } else if p.is::<SimPanic>() {
                Res::SimPanic
            } else {
                Res::Panic(last_panic())
            }
        }
    }
}

/// The same parse on the cursor users have.
#[cfg(cursor_entry)]
pub fn call_cursor(a: &Actor) -> (Res, u64) {
    let mut c = binread::io::Cursor::new(&a.media.bytes[..]);
    c.set_position(a.start);
    let res = call(a, &mut c);
    PROBES.with(|p| p.borrow_mut().clear());
    SPY.with(|p| p.borrow_mut().clear());
    SPY_SOFT.with(|p| p.borrow_mut().clear());
    (res, c.position())
}

pub fn finish(res: Res, r: SimReader) -> Out {
    Out {
        digest: mix(r.digest ^ res.hash() ^ mix(r.pos)),
        res,
        pos: r.pos,
        ops: r.ops,
        hard: r.hard,
        probes: PROBES.with(|p| p.borrow_mut().drain(..).collect()),
        spy: SPY.with(|p| std::mem::take(&mut *p.borrow_mut())),
        spy_soft: SPY_SOFT.with(|p| std::mem::take(&mut *p.borrow_mut())),
        spy_runs: SPY_RUNS.with(|p| p.replace(0)),
        last_failed_seek: r.last_failed_seek,
        natural_bad: r.natural_bad,
        eofs: r.eofs,
        delivered: r.delivered,
        classes: vec![],
        trace: r.trace.unwrap_or_default(),
        fired: r.fired,
    }
}

pub fn run_actor(a: &Actor, budget: u64, trace: bool) -> Out {
    clear_tls();
    let mut r = reader(a);
    r.budget = budget;
    if trace {
        r.trace = Some(vec![]);
    }
    let res = call(a, &mut r);
    finish(res, r)
}
