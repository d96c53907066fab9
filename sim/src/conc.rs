//! Several parses in progress at once (C17) and the debug template they write (C16).
//!
//! Every execution happens in a forked child, so it starts from the state of a fresh process.
//! In the child, each simulated thread is a real thread, but only the one holding the baton
//! runs; at every reader call (and, with the hook, every lock, counter and sink operation) the
//! seeded scheduler decides who goes on. The parent never runs the code under test itself.
use crate::exec::*;
use crate::oracle::*;
use crate::rng::{mix, Rng};
use crate::rt::*;
use crate::spec::{act_str, Actor, Spec};
use std::cell::Cell;
use std::collections::{BTreeSet, HashMap};
use std::fmt::Write as _;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

/// Roots from here on act on the template output instead of parsing.
pub const CTRL_BASE: usize = 2_000_000;
pub const CTRL: &[&str] = &["output", "no_output", "short_output", "interrupted_output", "failing_output", "panicking_output"];

// ---- child processes ----

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, b: *mut u8, n: usize) -> isize;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn alarm(s: u32) -> u32;
}

static REPORT_TO: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);

fn report(text: &[u8]) -> ! {
    let fd = REPORT_TO.load(std::sync::atomic::Ordering::SeqCst);
    let mut at = 0;
    unsafe {
        while at < text.len() {
            let n = write(fd, text[at..].as_ptr(), text.len() - at);
            if n <= 0 {
                _exit(9);
            }
            at += n as usize;
        }
        _exit(0)
    }
}

/// Runs f in a forked child; its report, or how the child ended.
pub fn in_child(f: impl FnOnce() -> String) -> Result<String, String> {
    unsafe {
        let mut fds = [0i32; 2];
        if pipe(fds.as_mut_ptr()) != 0 {
            panic!("harness: pipe");
        }
        let pid = fork();
        if pid < 0 {
            panic!("harness: fork");
        }
        if pid == 0 {
            close(fds[0]);
            REPORT_TO.store(fds[1], std::sync::atomic::Ordering::SeqCst);
            alarm(25);
            let s = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
                Ok(s) => s,
                Err(_) => _exit(8),
            };
            report(s.as_bytes());
        }
        close(fds[1]);
        let mut out = vec![];
        let mut buf = [0u8; 65536];
        loop {
            let n = read(fds[0], buf.as_mut_ptr(), buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        close(fds[0]);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        if st == 0 {
            Ok(String::from_utf8_lossy(&out).into_owned())
        } else if st & 0x7f == 14 {
            Err("hang".into())
        } else if st >> 8 == 8 {
            panic!("harness: child failed");
        } else {
            Err(format!("status {:#x}", st))
        }
    }
}

// ---- the scheduler ----

const NOBODY: usize = usize::MAX;
/// So often in a row may threads be found waiting for a lock while none does anything else.
const MAX_IDLE: u64 = 20_000;

struct St {
    cur: usize,
    alive: Vec<bool>,
    /// blocked outside the simulator's control
    away: Vec<bool>,
    picks: Vec<i64>,
    script: Vec<i64>,
    at: usize,
    rng: Option<(Rng, u32)>,
    yields: u64,
    idle: u64,
    switches: u64,
    contended: u64,
    os_blocked: u64,
    points: HashMap<&'static str, u64>,
}

pub struct Baton {
    st: Mutex<St>,
    cvs: Vec<Condvar>,
    mon: Condvar,
}

impl Baton {
    fn new(n: usize, extra: &[i64]) -> Baton {
        let (script, rng) = if extra.first() == Some(&-1) {
            (vec![], Some((Rng::new(extra[1] as u64), extra[2] as u32)))
        } else {
            (extra.to_vec(), None)
        };
        Baton {
            st: Mutex::new(St {
                cur: 0,
                alive: vec![true; n],
                away: vec![false; n],
                picks: vec![],
                script,
                at: 0,
                rng,
                yields: 0,
                idle: 0,
                switches: 0,
                contended: 0,
                os_blocked: 0,
                points: HashMap::new(),
            }),
            cvs: (0..n).map(|_| Condvar::new()).collect(),
            mon: Condvar::new(),
        }
    }

    /// Who goes on: 0 the same thread, k the k-th other one.
    fn pick(st: &mut St, t: usize, must_leave: bool) -> usize {
        let n = st.alive.len();
        let others: Vec<usize> = (1..n).map(|k| (t + k) % n).filter(|i| st.alive[*i] && !st.away[*i]).collect();
        let me = st.alive[t];
        if others.is_empty() {
            return if me { t } else { NOBODY };
        }
        let mut p = match &mut st.rng {
            Some((r, pct)) => {
                if !me || must_leave || r.pct(*pct) {
                    1 + r.below(others.len() as u64) as usize
                } else {
                    0
                }
            }
            None => {
                let p = st.script.get(st.at).copied().unwrap_or(0).max(0) as usize;
                st.at += 1;
                p % (others.len() + 1)
            }
        };
        if p == 0 && (!me || must_leave) {
            p = 1;
        }
        st.picks.push(p as i64);
        if p == 0 {
            t
        } else {
            others[p - 1]
        }
    }

    fn wait(&self, t: usize) {
        let mut st = self.st.lock().unwrap();
        if st.cur == NOBODY {
            st.cur = t;
        }
        while st.cur != t {
            st = self.cvs[t].wait(st).unwrap();
        }
    }

    pub fn point(&self, t: usize, what: &'static str) {
        let mut st = self.st.lock().unwrap();
        st.yields += 1;
        *st.points.entry(what).or_default() += 1;
        st.idle = if what == "blocked" { st.idle + 1 } else { 0 };
        if st.idle > MAX_IDLE {
            report(b"DEADLOCK every thread keeps waiting\n");
        }
        if st.cur != t {
            // back from a wait outside the simulator
            st.away[t] = false;
            drop(st);
            return self.wait(t);
        }
        if what == "blocked" {
            st.contended += 1;
        }
        if what == "blocked" && st.away.iter().any(|a| *a) {
            // What this thread waits for may be held by one that the machine does not let run
            st.idle = 0;
            drop(st);
            std::thread::sleep(Duration::from_micros(300));
            st = self.st.lock().unwrap();
            if st.cur != t {
                st.away[t] = false;
                drop(st);
                return self.wait(t);
            }
        }
        let next = Self::pick(&mut st, t, what == "blocked");
        if next != t {
            st.switches += 1;
            st.cur = next;
            self.cvs[next].notify_one();
            while st.cur != t {
                st = self.cvs[t].wait(st).unwrap();
            }
        }
    }

    fn done(&self, t: usize) {
        let mut st = self.st.lock().unwrap();
        st.alive[t] = false;
        if st.cur == t {
            let next = Self::pick(&mut st, t, true);
            st.cur = next;
            if next != NOBODY {
                self.cvs[next].notify_one();
            }
        }
        self.mon.notify_one();
    }

    /// Hands the baton on when its holder is stuck where the simulator cannot see it.
    fn monitor(&self) {
        let mut st = self.st.lock().unwrap();
        let mut last = (st.yields, 0u32);
        while st.alive.iter().any(|a| *a) {
            let (g, timeout) = self.mon.wait_timeout(st, Duration::from_millis(400)).unwrap();
            st = g;
            if !timeout.timed_out() {
                continue;
            }
            if st.yields != last.0 {
                last = (st.yields, 0);
                continue;
            }
            last.1 += 1;
            if last.1 > 12 {
                report(b"DEADLOCK no thread makes progress\n");
            }
            if st.cur != NOBODY {
                let c = st.cur;
                let n = st.alive.len();
                if let Some(next) = (1..n).map(|k| (c + k) % n).find(|i| st.alive[*i] && !st.away[*i]) {
                    st.os_blocked += 1;
                    st.away[c] = true;
                    st.cur = next;
                    self.cvs[next].notify_one();
                }
            }
        }
    }
}

thread_local! {
    static TID: Cell<usize> = const { Cell::new(0) };
}

// ---- one actor ----

#[derive(Clone, Debug, Default, PartialEq)]
pub struct COut {
    pub class: String,
    pub res: String,
    pub pos: u64,
    pub ops: u64,
    pub hard: u32,
    pub probes: BTreeSet<u32>,
    pub fired: Vec<(u64, Act)>,
    pub digest: u64,
}

type Results = Arc<Mutex<Vec<Option<COut>>>>;

struct World {
    spec: Spec,
    results: Results,
    log: Arc<Mutex<Vec<(usize, usize, Vec<u8>)>>>,
    budgets: Vec<u64>,
}

fn run_one(w: &Arc<World>, i: usize) {
    let a = &w.spec.actors[i];
    if a.root >= CTRL_BASE {
        control(w, i, a.root - CTRL_BASE);
        return;
    }
    clear_tls();
    let mut r = reader(a);
    r.budget = w.budgets[i];
    if let Some((op, j)) = a.nest {
        if j > i && j < w.spec.actors.len() {
            r.reenter_at = Some(op);
            let w = w.clone();
            let f: Box<dyn FnMut()> = Box::new(move || {
                let keep = (
                    PROBES.with(|p| std::mem::take(&mut *p.borrow_mut())),
                    SPY.with(|p| std::mem::take(&mut *p.borrow_mut())),
                    SPY_SOFT.with(|p| std::mem::take(&mut *p.borrow_mut())),
                );
                run_one(&w, j);
                PROBES.with(|p| *p.borrow_mut() = keep.0);
                SPY.with(|p| *p.borrow_mut() = keep.1);
                SPY_SOFT.with(|p| *p.borrow_mut() = keep.2);
            });
            NESTED.with(|n| *n.borrow_mut() = Some(f));
        }
    }
    let res = call(a, &mut r);
    NESTED.with(|n| *n.borrow_mut() = None);
    let out = finish(res, r);
    let c = COut {
        class: out.res.class().into(),
        res: format!("{:?}", out.res),
        pos: out.pos,
        ops: out.ops,
        hard: out.hard,
        probes: out.probes.clone(),
        fired: out.acts(),
        digest: out.digest,
    };
    w.results.lock().unwrap()[i] = Some(c);
}

/// Without the hook a waiter for the template's lock is out of the scheduler's sight.
#[cfg(feature = "all")]
fn sink_point() {
    if cfg!(binread_sim) {
        yield_point("sink");
    }
}

#[cfg(feature = "all")]
struct Sink {
    id: usize,
    kind: usize,
    n: u64,
    log: Arc<Mutex<Vec<(usize, usize, Vec<u8>)>>>,
}

#[cfg(feature = "all")]
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        sink_point();
        self.n += 1;
        let take = match self.kind {
            2 => b.len().min(1 + (self.n as usize * 7) % 5),
            3 if self.n % 4 == 0 => return Err(std::io::ErrorKind::Interrupted.into()),
            4 if self.n > 40 => return Err(std::io::Error::new(std::io::ErrorKind::Other, "sink")),
            5 if self.n % 37 == 36 => std::panic::panic_any(SimPanic),
            _ => b.len(),
        };
        self.log.lock().unwrap().push((self.id, TID.with(|t| t.get()), b[..take].to_vec()));
        Ok(take)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        sink_point();
        Ok(())
    }
}

#[cfg(feature = "all")]
fn control(w: &Arc<World>, i: usize, kind: usize) {
    yield_point("control");
    if kind == 1 {
        binread::binary_template::unset_output();
    } else {
        binread::binary_template::set_output(Sink { id: i, kind, n: 0, log: w.log.clone() });
    }
}
#[cfg(not(feature = "all"))]
fn control(_: &Arc<World>, _: usize, _: usize) {}

#[cfg(binread_sim)]
fn hook(what: &'static str) {
    // a panicking thread cleans up without being scheduled
    if !std::thread::panicking() {
        if what == "blocked" && YIELD.with(|y| y.borrow().is_none()) {
            std::thread::yield_now();
        }
        yield_point(what);
    }
}
fn set_hook() {
    #[cfg(binread_sim)]
    binread::binary_template::sim_hooks::set_hook(hook);
}

fn world(spec: &Spec, budgets: &[u64]) -> Arc<World> {
    Arc::new(World {
        spec: spec.clone(),
        results: Arc::new(Mutex::new(vec![None; spec.actors.len()])),
        log: Arc::new(Mutex::new(vec![])),
        budgets: budgets.to_vec(),
    })
}

fn encode(w: &World) -> String {
    let mut s = String::new();
    for (i, c) in w.results.lock().unwrap().iter().enumerate() {
        if let Some(c) = c {
            let res: String = c.res.chars().map(|x| if x == '\n' { ' ' } else { x }).collect();
            writeln!(s, "A {} {} {} {} {} {}", i, c.class, c.pos, c.ops, c.hard, c.digest).unwrap();
            writeln!(s, "R {}", res).unwrap();
            writeln!(s, "O {}", c.probes.iter().map(|p| p.to_string()).collect::<Vec<_>>().join(" ")).unwrap();
            for (op, a) in &c.fired {
                writeln!(s, "F {} {}", op, act_str(a)).unwrap();
            }
        }
    }
    for (sink, t, b) in w.log.lock().unwrap().iter() {
        writeln!(s, "T {} {} {}", sink, t, crate::spec::hex(b)).unwrap();
    }
    s
}

#[derive(Default, Debug)]
pub struct Report {
    pub outs: HashMap<usize, COut>,
    pub picks: Vec<i64>,
    pub switches: u64,
    pub contended: u64,
    pub os_blocked: u64,
    pub points: Vec<(String, u64)>,
    pub text: Vec<(usize, usize, Vec<u8>)>,
    pub dead: Option<String>,
}

fn decode(s: &str) -> Report {
    let mut r = Report::default();
    let mut cur = 0usize;
    for l in s.lines() {
        let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
        let w: Vec<&str> = rest.split(' ').collect();
        let n = |i: usize| w.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        match k {
            "A" => {
                cur = n(0) as usize;
                let c = r.outs.entry(cur).or_default();
                c.class = w[1].into();
                c.pos = n(2);
                c.ops = n(3);
                c.hard = n(4) as u32;
                c.digest = n(5);
            }
            "R" => r.outs.get_mut(&cur).unwrap().res = rest.into(),
            "O" => r.outs.get_mut(&cur).unwrap().probes = rest.split(' ').filter_map(|x| x.parse().ok()).collect(),
            "F" => {
                let a = match w[1] {
                    "short" => Act::Short(n(2) as u32),
                    "eintr" => Act::Eintr,
                    "err" => Act::Err(n(2) as u8, n(3)),
                    "zero" => Act::Zero,
                    "panic" => Act::Panic,
                    "dead" => Act::Dead(n(2) as u8, n(3)),
                    _ => Act::Full,
                };
                r.outs.get_mut(&cur).unwrap().fired.push((n(0), a));
            }
            "T" => {
                let h = w.get(2).copied().unwrap_or("");
                let b = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
                r.text.push((n(0) as usize, n(1) as usize, b));
            }
            "P" => r.picks = w.iter().filter_map(|x| x.parse().ok()).collect(),
            "S" => {
                r.switches = n(0);
                r.contended = n(1);
                r.os_blocked = n(2);
            }
            "Y" => r.points.push((w[0].into(), n(1))),
            "DEADLOCK" => r.dead = Some(rest.into()),
            _ => {}
        }
    }
    r
}

/// Which actors the threads run, in order; nested ones are run by their outer parse.
pub fn assignment(spec: &Spec, threads: usize) -> Vec<Vec<usize>> {
    let nested: BTreeSet<usize> = spec.actors.iter().enumerate().filter_map(|(i, a)| a.nest.filter(|n| n.1 > i).map(|n| n.1)).collect();
    let mut v = vec![vec![]; threads];
    let first = if spec.mode.starts_with("template") { 1 } else { 0 };
    let mut k = 0;
    for i in first..spec.actors.len() {
        if !nested.contains(&i) {
            v[k % threads].push(i);
            k += 1;
        }
    }
    v
}

fn run_together(spec: &Spec, threads: usize, budgets: &[u64]) -> Result<Report, String> {
    in_child(|| {
        set_hook();
        let w = world(spec, budgets);
        if spec.mode.starts_with("template") && !spec.actors.is_empty() {
            run_one(&w, 0);
        }
        let b = Arc::new(Baton::new(threads, &spec.extra));
        let plan = assignment(spec, threads);
        let mut hs = vec![];
        for (t, list) in plan.into_iter().enumerate() {
            let (w, b) = (w.clone(), b.clone());
            hs.push(
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn(move || {
                        b.wait(t);
                        TID.with(|x| x.set(t + 1));
                        let y = b.clone();
                        YIELD.with(|h| *h.borrow_mut() = Some(Box::new(move |what| y.point(t, what))));
                        for i in list {
                            run_one(&w, i);
                        }
                        YIELD.with(|h| *h.borrow_mut() = None);
                        b.done(t);
                    })
                    .expect("harness: thread"),
            );
        }
        b.monitor();
        for h in hs {
            h.join().expect("harness: simulated thread died");
        }
        let mut s = encode(&w);
        let st = b.st.lock().unwrap();
        writeln!(s, "P {}", st.picks.iter().map(|p| p.to_string()).collect::<Vec<_>>().join(" ")).unwrap();
        writeln!(s, "S {} {} {}", st.switches, st.contended, st.os_blocked).unwrap();
        for (k, n) in &st.points {
            writeln!(s, "Y {} {}", k, n).unwrap();
        }
        s
    })
    .map(|s| decode(&s))
}

/// One parse in a process of its own.
pub fn alone(ctx: &mut Ctx, a: &Actor, budget: u64, template: bool) -> Arc<Result<Report, String>> {
    let mut h = mix(a.root as u64 ^ u64::from(template) << 50);
    for b in format!("{:?} {:?} {} {:?} {:?} {:?}", a.entry, a.args, a.start, a.acts, a.rand, a.media).bytes() {
        h = mix(h ^ u64::from(b));
    }
    if let Some(r) = ctx.solo.get(&h) {
        return r.clone();
    }
    let mut spec = Spec { prop: String::new(), mode: "alone".into(), actors: vec![Actor { nest: None, ..a.clone() }], extra: vec![] };
    if template {
        spec.actors.insert(0, Actor { root: CTRL_BASE, ..spec.actors[0].clone() });
    }
    let budgets = vec![budget; 2];
    let r = in_child(|| {
        let w = world(&spec, &budgets);
        for i in 0..spec.actors.len() {
            run_one(&w, i);
        }
        encode(&w)
    })
    .map(|s| decode(&s));
    let r = Arc::new(r);
    if ctx.solo.len() > 2000 {
        ctx.solo.clear();
    }
    ctx.solo.insert(h, r.clone());
    r
}

fn v(class: &str, msg: String) -> Option<(String, String)> {
    Some((class.into(), msg))
}

fn budget_of(ctx: &mut Ctx, a: &Actor) -> u64 {
    if a.root >= CTRL_BASE {
        0
    } else {
        ctx.budget(a)
    }
}

/// Every parse of the run must have done what it does alone.
fn like_alone(ctx: &mut Ctx, spec: &Spec, rep: &Report, budgets: &[u64], template: bool) -> Option<(String, String)> {
    let mut order: Vec<usize> = rep.outs.keys().copied().collect();
    order.sort_unstable();
    for i in order {
        let a = &spec.actors[i];
        let c = &rep.outs[&i];
        if a.root >= CTRL_BASE || (template && c.class == "injected_panic") {
            continue;
        }
        let undisturbed = c.hard == 0 && c.class != "injected_panic";
        if undisturbed {
            let nat = ctx.nat(a);
            let want = format!("{:?}", Res::V(nat.exp.res.clone()));
            if !nat.fuel && c.res == want && (nat.exp.pos_any || c.pos == nat.exp.pos) && c.probes == nat.exp.probes {
                continue;
            }
        }
        let solo = alone(ctx, a, budgets[i], false);
        let s = match &*solo {
            Ok(r) => match r.outs.get(&0) {
                Some(s) => s,
                None => continue,
            },
            Err(_) => continue,
        };
        // a plain defect shows alone as well: not this property's business
        if s.res != c.res {
            return v("result", format!("parse {}: alone {} at {:#x}; with the others {} at {:#x}", i, s.res, s.pos, c.res, c.pos));
        }
        if s.pos != c.pos {
            return v("position", format!("parse {} ({}): alone ends at {:#x}; with the others at {:#x}", i, s.res, s.pos, c.pos));
        }
        if s.probes != c.probes {
            return v("evaluated", format!("parse {}: alone evaluated {:?}; with the others {:?}", i, s.probes, c.probes));
        }
    }
    None
}

fn empty_out(digest: u64) -> Out {
    Out {
        res: Res::SimPanic,
        pos: 0,
        ops: 0,
        fired: vec![],
        hard: 0,
        probes: BTreeSet::new(),
        spy: vec![],
        spy_soft: vec![],
        spy_runs: 0,
        last_failed_seek: false,
        natural_bad: 0,
        eofs: 0,
        digest,
        trace: vec![],
        delivered: 0,
        classes: vec![],
    }
}

fn threads_of(mode: &str, prefix: &str) -> usize {
    mode[prefix.len()..].parse::<usize>().unwrap_or(1).clamp(1, 8)
}

fn ended(e: &str) -> Option<(String, String)> {
    match e {
        "hang" => v("hang", "the parses do not finish".into()),
        e => v("abort", format!("the process died ({})", e)),
    }
}

pub fn judge(ctx: &mut Ctx, spec: &Spec) -> Verdict {
    let template = spec.mode.starts_with("template");
    let threads = threads_of(&spec.mode, if template { "template" } else { "conc" });
    let budgets: Vec<u64> = spec.actors.iter().map(|a| budget_of(ctx, a)).collect();
    let mut rep = run_together(spec, threads, &budgets);
    for _ in 0..2 {
        // Judged by the clock, so it counts only if it happens again: a busy machine also stalls a thread
        if matches!(&rep, Ok(r) if r.dead.is_none()) || matches!(&rep, Err(e) if e != "hang") {
            break;
        }
        rep = run_together(spec, threads, &budgets);
    }
    let mut acts: Vec<_> = spec.actors.iter().map(|a| a.acts.clone()).collect();
    let rep = match rep {
        Ok(r) => r,
        Err(e) => {
            return Verdict { bad: ended(&e), out: empty_out(1), acts, extra: spec.extra.clone(), also: 0, nontrivial: true, tags: vec![] };
        }
    };
    let mut tags: Vec<&'static str> = vec![];
    let mut bad = rep.dead.as_ref().and_then(|d| v("deadlock", format!("the parses block each other: {}", d)));
    if bad.is_none() {
        bad = like_alone(ctx, spec, &rep, &budgets, template);
    }
    if bad.is_none() && template {
        bad = crate::template::check(ctx, spec, &rep, &budgets, threads, &mut tags);
    }
    let mut h = 3;
    let mut out = empty_out(0);
    for (i, a) in spec.actors.iter().enumerate() {
        if a.root >= CTRL_BASE {
            *ctx.extra_kinds.entry(CTRL.get(a.root - CTRL_BASE).copied().unwrap_or("output")).or_default() += 1;
        }
        if let Some(c) = rep.outs.get(&i) {
            h = mix(h ^ c.digest ^ (a.root as u64) << 20);
            out.ops += c.ops;
            out.classes.push(c.class.clone());
            acts[i] = c.fired.clone();
            out.fired.extend(c.fired.iter().map(|(op, a)| (*op, *a, true)));
            if a.nest.is_some_and(|n| n.1 > i && rep.outs.contains_key(&n.1)) {
                tags.push("nested_parse");
            }
            if c.class == "injected_panic" {
                tags.push("abandoned_parse");
            }
            if ctx.trace {
                out.trace.push(format!("parse {}: {} at {:#x} after {} calls", i, c.res, c.pos, c.ops));
            }
        }
    }
    for p in &rep.picks {
        h = mix(h ^ *p as u64);
    }
    for (s, t, b) in &rep.text {
        h = mix(h ^ (*s as u64) << 8 ^ *t as u64);
        for x in b {
            h = mix(h ^ u64::from(*x));
        }
    }
    out.digest = h;
    if rep.contended > 0 {
        tags.push("lock_contended");
    }
    if rep.os_blocked > 0 {
        tags.push("blocked_outside_the_simulator");
    }
    for (k, n) in &rep.points {
        let k: &'static str = ["read", "seek", "lock", "locked", "unlock", "blocked", "counter", "sink", "control"].iter().find(|x| *x == k).copied().unwrap_or("other");
        *ctx.extra_points.entry(k).or_default() += n;
    }
    ctx.switches += rep.switches;
    let nontrivial = rep.switches >= 2 || tags.contains(&"nested_parse") || threads == 1 && rep.outs.len() > 1;
    if ctx.trace {
        out.trace.push(format!("schedule {:?}", rep.picks));
        for (s, t, b) in &rep.text {
            out.trace.push(format!("sink {} thread {}: {}", s, t, String::from_utf8_lossy(b).escape_debug()));
        }
    }
    tags.sort_unstable();
    tags.dedup();
    Verdict { bad, out, acts, extra: rep.picks, also: 0, nontrivial, tags }
}
