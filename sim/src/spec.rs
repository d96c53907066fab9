//! One simulated execution, written out: everything a replay needs.
use crate::rt::{Act, Entry, Media, RandSched, Sched};
use binread::Endian;
use std::fmt::Write;
use std::sync::Arc;

/// One reader and the parse (or parses) done on it.
#[derive(Clone, Debug)]
pub struct Actor {
    pub root: usize,
    pub entry: Entry,
    pub args: Vec<i64>,
    pub start: u64,
    pub media: Arc<Media>,
    pub acts: Vec<(u64, Act)>,
    /// random decisions, not yet made; replaced by `acts` once the run is over
    pub rand: Option<RandSched>,
    /// parse actor n from inside operation m
    pub nest: Option<(u64, usize)>,
}

impl Actor {
    pub fn sched(&self) -> Sched {
        Sched { list: self.acts.clone(), rand: self.rand.clone() }
    }
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub prop: String,
    /// which oracle judges the run
    pub mode: String,
    pub actors: Vec<Actor>,
    /// mode specific numbers (scheduler choices, operation histories)
    pub extra: Vec<i64>,
}

fn end(e: Endian) -> &'static str {
    match e {
        Endian::Big => "big",
        Endian::Little => "little",
        Endian::Native => "native",
    }
}
fn unend(s: &str) -> Endian {
    match s {
        "big" => Endian::Big,
        "little" => Endian::Little,
        _ => Endian::Native,
    }
}

pub fn act_str(a: &Act) -> String {
    match a {
        Act::Full => "full".into(),
        Act::Short(n) => format!("short {}", n),
        Act::Eintr => "eintr".into(),
        Act::Err(k, id) => format!("err {} {}", k, id),
        Act::Zero => "zero".into(),
        Act::Panic => "panic".into(),
        Act::Dead(k, id) => format!("dead {} {}", k, id),
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        write!(s, "{:02x}", x).unwrap();
    }
    s
}

impl Spec {
    pub fn single(prop: &str, mode: &str, a: Actor) -> Spec {
        Spec { prop: prop.into(), mode: mode.into(), actors: vec![a], extra: vec![] }
    }

    pub fn to_text(&self) -> String {
        use crate::rt::zoo;
        let mut s = String::new();
        writeln!(s, "binread-sim-run 1").unwrap();
        writeln!(s, "property {}", self.prop).unwrap();
        writeln!(s, "features {}", crate::features_name()).unwrap();
        writeln!(s, "zoo {} {} {}", zoo::ZOO_PROFILE, zoo::ZOO_SEED, zoo::ZOO_NROOTS).unwrap();
        writeln!(s, "mode {}", self.mode).unwrap();
        for a in &self.actors {
            writeln!(s, "actor").unwrap();
            writeln!(s, "root {}", a.root).unwrap();
            match a.entry {
                Entry::Read => writeln!(s, "entry read"),
                Entry::ReadArgs => writeln!(s, "entry read_args"),
                Entry::Ext(e) => writeln!(s, "entry ext {}", end(e)),
                Entry::Options(e, c, o) => writeln!(s, "entry options {} {} {}", end(e), c.map_or(-1, |c| c as i64), o),
            }
            .unwrap();
            writeln!(s, "args {}", a.args.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")).unwrap();
            writeln!(s, "start {}", a.start).unwrap();
            if a.media.base > 0 {
                writeln!(s, "base {}", a.media.base).unwrap();
            }
            writeln!(s, "image {}", hex(&a.media.bytes)).unwrap();
            for (x, y) in &a.media.bad {
                writeln!(s, "bad {} {}", x, y).unwrap();
            }
            if let Some((op, n)) = a.nest {
                writeln!(s, "nest {} {}", op, n).unwrap();
            }
            for (op, x) in &a.acts {
                writeln!(s, "act {} {}", op, act_str(x)).unwrap();
            }
        }
        for c in self.extra.chunks(64) {
            writeln!(s, "extra {}", c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")).unwrap();
        }
        s
    }

    /// The run, (zoo profile, seed, number of roots), features
    pub fn parse(text: &str) -> Option<(Spec, (String, u64, usize), String)> {
        let mut z = (String::new(), 0, 0);
        let mut feat = String::new();
        let mut s = Spec { prop: String::new(), mode: String::new(), actors: vec![], extra: vec![] };
        for l in text.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            let key = match w.first() {
                Some(k) => *k,
                None => continue,
            };
            match key {
                "property" => s.prop = w[1].into(),
                "features" => feat = w[1].into(),
                "zoo" => z = (w[1].into(), w[2].parse().ok()?, w[3].parse().ok()?),
                "mode" => s.mode = w[1].into(),
                "extra" => s.extra.extend(w[1..].iter().filter_map(|x| x.parse::<i64>().ok())),
                "actor" => s.actors.push(Actor {
                    root: 0,
                    entry: Entry::Read,
                    args: vec![],
                    start: 0,
                    media: Arc::new(Media::default()),
                    acts: vec![],
                    rand: None,
                    nest: None,
                }),
                _ => {
                    let a = match s.actors.last_mut() {
                        Some(a) => a,
                        None => continue,
                    };
                    match key {
                        "root" => a.root = w[1].parse().ok()?,
                        "entry" => {
                            a.entry = match w[1] {
                                "read" => Entry::Read,
                                "read_args" => Entry::ReadArgs,
                                "ext" => Entry::Ext(unend(w[2])),
                                _ => {
                                    let c: i64 = w[3].parse().ok()?;
                                    Entry::Options(unend(w[2]), if c < 0 { None } else { Some(c as u64) }, w[4].parse().ok()?)
                                }
                            }
                        }
                        "args" => a.args = w[1..].iter().filter_map(|x| x.parse().ok()).collect(),
                        "start" => a.start = w[1].parse().ok()?,
                        "base" => Arc::make_mut(&mut a.media).base = w[1].parse().ok()?,
                        "image" => {
                            let h = w.get(1).copied().unwrap_or("");
                            Arc::make_mut(&mut a.media).bytes =
                                (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0)).collect();
                        }
                        "bad" => Arc::make_mut(&mut a.media).bad.push((w[1].parse().ok()?, w[2].parse().ok()?)),
                        "nest" => a.nest = Some((w[1].parse().ok()?, w[2].parse().ok()?)),
                        "act" => {
                            let op = w[1].parse().ok()?;
                            a.acts.push((
                                op,
                                match w[2] {
                                    "short" => Act::Short(w[3].parse().ok()?),
                                    "eintr" => Act::Eintr,
                                    "err" => Act::Err(w[3].parse().ok()?, w[4].parse().ok()?),
                                    "zero" => Act::Zero,
                                    "panic" => Act::Panic,
                                    "dead" => Act::Dead(w[3].parse().ok()?, w[4].parse().ok()?),
                                    _ => Act::Full,
                                },
                            ));
                        }
                        _ => {}
                    }
                }
            }
        }
        Some((s, z, feat))
    }
}
