mod alloc;
mod cases;
mod conc;
mod emit;
mod exec;
mod gen;
#[cfg(not(feature = "std"))]
mod io14;
mod model;
mod oracle;
mod rng;
mod rt;
mod schema;
mod spec;
mod stream;
mod template;
mod val;

use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, Read, Write};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

pub fn features_name() -> &'static str {
    if cfg!(feature = "all") {
        "all"
    } else if cfg!(feature = "std") {
        "std"
    } else {
        "nostd"
    }
}

#[derive(Default)]
struct Stats {
    cases: u64,
    runs: u64,
    ops: u64,
    nontrivial: u64,
    kinds: BTreeMap<String, u64>,
    classes: BTreeMap<String, u64>,
    tags: BTreeMap<&'static str, u64>,
    feats: BTreeMap<&'static str, u64>,
    digests: HashSet<u64>,
    nested: u64,
    reentered: u64,
    found: Vec<(u64, u64, String, String, String)>,
    classes_seen: HashSet<String>,
    samples: Vec<String>,
    stream: Vec<(u64, u64)>,
    points: BTreeMap<&'static str, u64>,
    switches: u64,
}

struct Arg(Vec<String>);
impl Arg {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.iter().position(|x| x == k).and_then(|i| self.0.get(i + 1)).map(|s| s.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).and_then(|s| s.parse().ok()).unwrap_or(d)
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 > 126 => {
                let mut b = [0; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn worker(k: u64, n: u64, arg: &Arg, beat: &AtomicU64, stop: &AtomicBool) -> Stats {
    let mut ctx = oracle::Ctx::new();
    let mut s = Stats::default();
    let prop = arg.get("--prop").unwrap().to_string();
    let seed = arg.num("--seed", 1);
    let (from, cases) = (arg.num("--from", 0), arg.num("--cases", 100));
    let stream = arg.get("--stream").is_some();
    let journal = arg.get("--journal").map(|d| std::fs::File::create(format!("{}/w{}", d, k)).unwrap());
    let mut idx = from + k;
    while idx < from + cases && !stop.load(Ordering::Relaxed) {
        let mut sub = 0u64;
        s.cases += 1;
        cases::case(&mut ctx, &prop, seed, idx, &mut |ctx, mut sp| {
            beat.fetch_add(1, Ordering::Relaxed);
            if let Some(j) = &journal {
                use std::os::unix::fs::FileExt;
                let _ = j.write_all_at(format!("{:>20} {:>10}\n", idx, sub).as_bytes(), 0);
            }
            let v = oracle::judge(ctx, &sp);
            sub += 1;
            s.runs += 1 + v.also;
            s.ops += v.out.ops;
            for (_, a, read) in &v.out.fired {
                let side = if a.hard() && *a != rt::Act::Zero { if *read { "_on_read" } else { "_on_seek" } } else { "" };
                *s.kinds.entry(format!("{}{}", a.name(), side)).or_default() += 1;
            }
            if v.out.natural_bad > 0 {
                *s.kinds.entry("bad_sector".into()).or_default() += v.out.natural_bad;
            }
            if v.out.eofs > 0 {
                *s.kinds.entry("end_of_data".into()).or_default() += v.out.eofs;
            }
            if v.out.classes.is_empty() {
                *s.classes.entry(v.out.res.class().into()).or_default() += 1;
            }
            for c in &v.out.classes {
                *s.classes.entry(c.clone()).or_default() += 1;
            }
            for t in &v.tags {
                *s.tags.entry(t).or_default() += 1;
            }
            for a in &sp.actors {
                if a.root < ctx.info.len() {
                    for t in &ctx.info[a.root].feats {
                        *s.feats.entry(t).or_default() += 1;
                    }
                }
            }
            s.nested += v.out.spy_runs;
            if v.nontrivial {
                s.nontrivial += 1;
                let d = rng::mix(v.out.digest ^ (sp.actors.first().map_or(0, |a| a.root) as u64) << 40);
                if s.digests.len() < 4_000_000 {
                    s.digests.insert(d);
                }
            }
            if stream {
                s.stream.push((idx << 16 | sub - 1, v.out.digest));
            }
            let want_sample = s.samples.len() < 2 && v.nontrivial && k == 0;
            if v.bad.is_some() || want_sample {
                sp.extra = v.extra.clone();
                for (a, l) in sp.actors.iter_mut().zip(&v.acts) {
                    a.acts = l.clone();
                    a.rand = None;
                }
                if want_sample {
                    s.samples.push(sp.to_text());
                }
            }
            if let Some((c, m)) = v.bad {
                let root = sp.actors.first().map_or(0, |a| a.root);
                if s.found.len() < 40 && s.classes_seen.insert(format!("{} {}", c, root)) {
                    s.found.push((idx, sub - 1, c, m, sp.to_text()));
                }
            }
        });
        idx += n;
    }
    s.reentered = rt::REENTERED.with(|c| c.get());
    for (k, v) in &ctx.extra_kinds {
        *s.kinds.entry(k.to_string()).or_default() += v;
    }
    s.points = std::mem::take(&mut ctx.extra_points);
    s.switches = ctx.switches;
    s
}

fn run(arg: &Arg) {
    let n = arg.num("--threads", 8);
    let wall = arg.num("--wall", 600);
    let stop = AtomicBool::new(false);
    let done = AtomicU64::new(0);
    let beats: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(0)).collect();
    let t0 = Instant::now();
    let mut all: Vec<Stats> = vec![];
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for k in 0..n {
            let (beats, stop, done) = (&beats, &stop, &done);
            hs.push(
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let s = worker(k, n, arg, &beats[k as usize], stop);
                        done.fetch_add(1, Ordering::SeqCst);
                        s
                    })
                    .unwrap(),
            );
        }
        // watchdog
        let mut last: Vec<(u64, Instant)> = beats.iter().map(|b| (b.load(Ordering::Relaxed), Instant::now())).collect();
        while done.load(Ordering::SeqCst) < n && !hs.iter().all(|h| h.is_finished()) {
            std::thread::sleep(Duration::from_millis(20));
            if t0.elapsed() > Duration::from_secs(wall) {
                stop.store(true, Ordering::SeqCst);
            }
            for (i, b) in beats.iter().enumerate() {
                let x = b.load(Ordering::Relaxed);
                if x != last[i].0 {
                    last[i] = (x, Instant::now());
                } else if done.load(Ordering::SeqCst) < n && !hs[i].is_finished() && last[i].1.elapsed() > Duration::from_secs(240) {
                    println!("HANG worker {}", i);
                    std::process::exit(4);
                }
            }
        }
        for h in hs {
            match h.join() {
                Ok(s) => all.push(s),
                Err(_) => {
                    eprintln!("HARNESS: worker died: {}", exec::last_panic());
                    std::process::exit(5);
                }
            }
        }
    });
    let secs = t0.elapsed().as_secs_f64();
    let mut m = Stats::default();
    let mut digests: HashSet<u64> = HashSet::new();
    for s in all {
        m.cases += s.cases;
        m.runs += s.runs;
        m.ops += s.ops;
        m.nontrivial += s.nontrivial;
        m.nested += s.nested;
        m.reentered += s.reentered;
        for (k, v) in s.kinds {
            *m.kinds.entry(k).or_default() += v;
        }
        for (k, v) in s.classes {
            *m.classes.entry(k).or_default() += v;
        }
        for (k, v) in s.tags {
            *m.tags.entry(k).or_default() += v;
        }
        for (k, v) in s.feats {
            *m.feats.entry(k).or_default() += v;
        }
        for (k, v) in s.points {
            *m.points.entry(k).or_default() += v;
        }
        m.switches += s.switches;
        digests.extend(s.digests);
        m.found.extend(s.found);
        m.samples.extend(s.samples);
        m.stream.extend(s.stream);
    }
    m.found.sort();
    m.stream.sort_unstable();
    let mut combined = 0u64;
    let mut ds: Vec<u64> = digests.iter().copied().collect();
    ds.sort_unstable();
    for d in &ds {
        combined = rng::mix(combined ^ d);
    }
    if let Some(p) = arg.get("--stream") {
        let mut b = Vec::with_capacity(m.stream.len() * 16);
        for (i, d) in &m.stream {
            b.extend(i.to_le_bytes());
            b.extend(d.to_le_bytes());
        }
        std::fs::write(p, b).unwrap();
    }
    if let Some(p) = arg.get("--digests") {
        let b: Vec<u8> = ds.iter().flat_map(|d| d.to_le_bytes()).collect();
        std::fs::write(p, b).unwrap();
    }
    let map = |m: &mut dyn Iterator<Item = (String, u64)>| m.map(|(k, v)| format!("{}: {}", esc(&k), v)).collect::<Vec<_>>().join(", ");
    println!("{{");
    println!(" \"features\": {}, \"zoo_seed\": {}, \"profile\": {}, \"roots\": {},", esc(features_name()), rt::zoo::ZOO_SEED, esc(rt::zoo::ZOO_PROFILE), rt::zoo::ZOO_NROOTS);
    println!(" \"seconds\": {:.3}, \"stopped_early\": {},", secs, stop.load(Ordering::SeqCst));
    println!(" \"cases\": {}, \"runs\": {}, \"ops\": {}, \"nontrivial\": {}, \"distinct\": {}, \"fingerprint\": \"{:016x}\",", m.cases, m.runs, m.ops, m.nontrivial, digests.len(), combined);
    println!(" \"nested\": {}, \"reentered\": {},", m.nested, m.reentered);
    println!(" \"switches\": {}, \"points\": {{{}}},", m.switches, map(&mut m.points.iter().map(|(k, v)| (k.to_string(), *v))));
    println!(" \"faults\": {{{}}},", map(&mut m.kinds.iter().map(|(k, v)| (k.clone(), *v))));
    println!(" \"results\": {{{}}},", map(&mut m.classes.iter().map(|(k, v)| (k.to_string(), *v))));
    println!(" \"tags\": {{{}}},", map(&mut m.tags.iter().map(|(k, v)| (k.to_string(), *v))));
    println!(" \"constructs\": {{{}}},", map(&mut m.feats.iter().map(|(k, v)| (k.to_string(), *v))));
    println!(" \"samples\": [{}],", m.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",\n  "));
    println!(
        " \"found\": [{}]",
        m.found
            .iter()
            .map(|(i, s, c, msg, t)| format!("{{\"case\": {}, \"sub\": {}, \"class\": {}, \"msg\": {}, \"spec\": {}}}", i, s, esc(c), esc(msg), esc(t)))
            .collect::<Vec<_>>()
            .join(",\n  ")
    );
    println!("}}");
}

/// Where the debug template goes while formats are parsed.
#[cfg(feature = "all")]
fn template(arg: &Arg) {
    struct Sink(u64, u64);
    impl Write for Sink {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            self.1 += 1;
            match self.0 {
                0 => Ok(b.len()),
                1 => Err(std::io::Error::new(std::io::ErrorKind::Other, "sink")),
                2 => Ok(b.len().min(1)),
                3 if self.1 % 3 == 0 => Err(std::io::ErrorKind::Interrupted.into()),
                4 => Ok(0),
                _ => Ok(b.len()),
            }
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    let kind = match arg.get("--template") {
        Some("live") => 0,
        Some("fail") => 1,
        Some("short") => 2,
        Some("eintr") => 3,
        Some("full") => 4,
        _ => return,
    };
    binread::binary_template::set_output(Sink(kind, 0));
}
#[cfg(not(feature = "all"))]
fn template(_: &Arg) {}

fn judge_text(ctx: &mut oracle::Ctx, text: &str) -> String {
    let (spec, zoo, feat) = match spec::Spec::parse(text) {
        Some(x) => x,
        None => return "{\"error\": \"cannot parse run\"}".into(),
    };
    if zoo != (rt::zoo::ZOO_PROFILE.to_string(), rt::zoo::ZOO_SEED, rt::zoo::ZOO_NROOTS) || (feat != features_name() && ctx.trace && spec.mode != "equal") {
        return "{\"error\": \"run is for another build\"}".into();
    }
    let v = oracle::judge(ctx, &spec);
    let (c, m) = v.bad.clone().unwrap_or_default();
    format!(
        "{{\"class\": {}, \"msg\": {}, \"result\": {}, \"pos\": {}, \"ops\": {}, \"digest\": \"{:016x}\", \"trace\": [{}]}}",
        esc(&c),
        esc(&m),
        esc(&format!("{:?}", v.out.res)),
        v.out.pos,
        v.out.ops,
        v.out.digest,
        v.out.trace.iter().map(|l| esc(l)).collect::<Vec<_>>().join(", ")
    )
}

fn main() {
    let arg = Arg(std::env::args().skip(1).collect());
    exec::install_hook();
    template(&arg);
    match arg.0.first().map(|s| s.as_str()) {
        Some("run") => run(&arg),
        // one spec per message: lines up to a line with a single dot
        Some("serve") => {
            let h = std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(|| {
                    let mut ctx = oracle::Ctx::new();
                    let mut text = String::new();
                    for l in std::io::stdin().lock().lines() {
                        let l = l.unwrap();
                        if l == "." {
                            println!("{}", judge_text(&mut ctx, &text));
                            std::io::stdout().flush().unwrap();
                            text.clear();
                        } else {
                            text.push_str(&l);
                            text.push('\n');
                        }
                    }
                })
                .unwrap();
            h.join().unwrap();
        }
        Some("replay") => {
            let h = std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(|| {
                    let mut ctx = oracle::Ctx::new();
                    ctx.trace = true;
                    let mut text = String::new();
                    std::io::stdin().read_to_string(&mut text).unwrap();
                    println!("{}", judge_text(&mut ctx, &text));
                })
                .unwrap();
            h.join().unwrap();
        }
        // the run with this number, as text, without executing it
        Some("dump") => {
            let mut ctx = oracle::Ctx::new();
            let (idx, want) = (arg.num("--case", 0), arg.num("--sub", 0));
            let mut n = 0;
            cases::case(&mut ctx, arg.get("--prop").unwrap(), arg.num("--seed", 1), idx, &mut |_, sp| {
                if n == want {
                    println!("{}", sp.to_text());
                }
                n += 1;
            });
        }
        Some("format") => {
            let ctx = oracle::Ctx::new();
            let root = arg.num("--root", 0) as usize;
            println!("{}", emit::source(&ctx.zoo, ctx.info[root].id));
        }
        _ => {
            eprintln!("usage: run|serve|replay|dump|format");
            std::process::exit(2);
        }
    }
}
