//! Generates simulated executions for a property: an image, a start, a fault plan.
use crate::exec::Res;
use crate::gen;
use crate::model::*;
use crate::oracle::*;
use crate::rng::Rng;
use crate::rt::{Act, Entry, Media, RandSched, PRIMS, PRIM_BASE};
use crate::schema::Ty;
use crate::spec::{Actor, Spec};
use binread::Endian;
use std::sync::Arc;

/// Where an image lies: mostly at 0, otherwise far away.
pub fn base(r: &mut Rng, prop: &str) -> u64 {
    if prop == "C14" || r.pct(82) {
        return 0;
    }
    let k = *r.pick(&[8u32, 12, 16, 31, 32, 32, 33, 40, 53, 62]);
    (1u64 << k).wrapping_add_signed(r.range(-60, 40))
}

/// An image on which the root usually parses.
pub fn actor(ctx: &mut Ctx, r: &mut Rng, root: usize) -> Actor {
    let mut best: Option<Actor> = None;
    let mut len = 64 + r.below(48);
    let big = root < PRIM_BASE && ctx.info[root].big;
    if big {
        len = *r.pick(&[200, 1000, 4000, 9000]);
    }
    let any = r.pct(8);
    let hostile = gen::profile(crate::rt::zoo::ZOO_PROFILE).hostile;
    for k in 0..30 {
        let base = base(r, crate::rt::zoo::ZOO_PROFILE);
        let rel = match r.below(4) {
            0 => 0,
            1 => r.below(4),
            _ => r.below(24),
        };
        let start = base + rel;
        let endian = *r.pick(&[Endian::Little, Endian::Big, Endian::Native]);
        let entry = match r.below(8) {
            0 => Entry::Read,
            1 => Entry::ReadArgs,
            2 | 3 => Entry::Ext(endian),
            _ => Entry::Options(
                endian,
                if r.pct(30) { Some(r.below(4)) } else { None },
                if r.pct(30) { r.below(16) } else { 0 } + base,
            ),
        };
        let args: Vec<i64> = if root >= PRIM_BASE {
            vec![]
        } else {
            ctx.info[root]
                .imports
                .iter()
                .map(|_| match r.below(4) {
                    0 => r.next() as i64,
                    1 => r.range(-3, 3),
                    _ => r.range(0, 20),
                })
                .collect()
        };
        let mut a = Actor { root, entry, args, start, media: Arc::new(Media::default()), acts: vec![], rand: None, nest: None };
        let zeros = vec![0u8; len as usize];
        let mut m = M::new(&ctx.zoo, &zeros, base, &[], start);
        m.fuel = if big { ctx.fuel } else { ctx.fuel / 10 };
        m.fill = Some(Fill { r: Rng::new(r.next()), assigned: vec![false; len as usize] });
        let res = ctx.step_model(&mut m, &a);
        let touched = m.max_touched;
        let end_seek = m.end_seek;
        let fill = m.fill.take().unwrap();
        let mut bytes = m.bytes.into_owned();
        if hostile && r.pct(30) {
            bytes.iter_mut().for_each(|b| *b = if r.pct(50) { r.byte() } else { *b });
        } else {
            for (b, s) in bytes.iter_mut().zip(&fill.assigned) {
                if !s {
                    *b = r.byte();
                }
            }
        }
        if !end_seek && r.pct(60) {
            bytes.truncate(touched.max(rel).saturating_add(r.below(5)) as usize);
        }
        Arc::make_mut(&mut a.media).bytes = bytes;
        Arc::make_mut(&mut a.media).base = base;
        match res {
            Ok(_) => return a,
            Err(CErr::Fuel) => {
                if hostile && k > 5 {
                    best = Some(a);
                }
                continue;
            }
            Err(e) => {
                if e == CErr::Io(Io::Eof) && len < if big { 150_000 } else { 1200 } {
                    len = len * if big { 2 } else { 3 } / if big { 1 } else { 2 };
                }
                if any {
                    return a;
                }
                best = Some(a);
            }
        }
    }
    best.unwrap_or(Actor { root, entry: Entry::Read, args: vec![0; 8], start: 0, media: Arc::new(Media::default()), acts: vec![], rand: None, nest: None })
}

/// Delivery that must not matter.
pub fn benign(r: &mut Rng) -> RandSched {
    let (short, eintr) = match r.below(8) {
        6 => (0, 95),
        7 => (90, 85),
        0 => (100, 0),
        1 => (0, 60),
        2 => (60, 30),
        3 => (100, 50),
        4 => (15, 15),
        _ => (40, 5),
    };
    RandSched { rng: Rng::new(r.next()), short, eintr, hard_pm: 0, hard_left: 0, next_id: 0, zero: false, panics: false, eof_kind: false, burst: 0, after_hard: false }
}

pub fn mutate(r: &mut Rng, a: &Actor, touched: u64) -> Actor {
    let mut b = a.clone();
    let m = Arc::make_mut(&mut b.media);
    let n = m.bytes.len().min(touched as usize);
    if n == 0 {
        return b;
    }
    for _ in 0..1 + r.below(3) {
        let lo = if r.pct(70) { (a.start.saturating_sub(m.base) as usize).min(n - 1) } else { 0 };
        let i = lo + r.below((n - lo) as u64) as usize;
        match r.below(5) {
            0 => m.bytes[i] ^= 1 << r.below(8),
            1 => m.bytes[i] = 0,
            2 => m.bytes[i] = 0xff,
            3 => m.bytes[i] = r.byte(),
            _ => m.bytes[i] = m.bytes[i].wrapping_add(1),
        }
    }
    b
}

pub fn bad_sector(r: &mut Rng, a: &Actor, touched: u64) -> Actor {
    let mut b = a.clone();
    let m = Arc::make_mut(&mut b.media);
    for _ in 0..1 + r.below(2) {
        let x = m.base + r.below(touched.max(1) + 2);
        m.bad.push((x, x + 1 + r.below(6)));
    }
    b
}

fn err(r: &mut Rng, op: u64, id: u64) -> (u64, Act) {
    (op, Act::Err(r.below(u64::from(crate::rt::KINDS)) as u8, id))
}

/// From here on everything fails.
fn gone(r: &mut Rng, id: u64) -> Act {
    Act::Dead(r.below(u64::from(crate::rt::KINDS)) as u8, id)
}

/// May a failure be of the kind of an end of file? `until_eof` takes it for one.
fn eof_kind(ctx: &Ctx, root: usize) -> bool {
    cfg!(feature = "std") && (root >= PRIM_BASE || !ctx.info[root].feats.contains("until_eof"))
}

/// Records, one after the other, on one image.
fn stream(ctx: &mut Ctx, r: &mut Rng, list: &[usize], first: usize) -> Option<Vec<Actor>> {
    let len = 500 + r.below(300) as usize;
    let zeros = vec![0u8; len];
    let base = base(r, "C03");
    let start = base + if r.pct(40) { 0 } else { r.below(24) };
    let seed = r.next();
    let want = 2 + r.below(7) as usize;
    let zoo = &ctx.zoo;
    let mut m = M::new(zoo, &zeros, base, &[], start);
    m.fill = Some(Fill { r: Rng::new(seed), assigned: vec![false; len] });
    let mut out: Vec<Actor> = vec![];
    let mut tries = 0;
    while out.len() < want && tries < 60 {
        tries += 1;
        let root = if out.is_empty() || r.pct(15) { first } else { *r.pick(list) };
        let mut a = Actor { root, entry: entry(r, base), args: args(ctx, r, root), start, media: Arc::new(Media::default()), acts: vec![], rand: None, nest: None };
        let snap = m.clone();
        m.fuel = m.ticks + 2000;
        match ctx.step_model(&mut m, &a) {
            Ok(_) if m.pos < base + len as u64 => {
                a.start = start;
                out.push(a);
            }
            _ => {
                m = snap;
                m.fill.as_mut().unwrap().r = Rng::new(r.next());
                if out.is_empty() && tries > 30 {
                    return None;
                }
            }
        }
    }
    if out.is_empty() {
        return None;
    }
    let (touched, end_seek) = (m.max_touched.max(m.pos.saturating_sub(base)), m.end_seek);
    let fill = m.fill.take().unwrap();
    let mut bytes = m.bytes.into_owned();
    for (b, s) in bytes.iter_mut().zip(&fill.assigned) {
        if !s {
            *b = r.byte();
        }
    }
    if !end_seek {
        bytes.truncate((touched + r.below(3)) as usize);
    }
    out[0].media = Arc::new(Media { base, bytes, bad: vec![] });
    Some(out)
}

fn entry(r: &mut Rng, base: u64) -> Entry {
    let endian = *r.pick(&[Endian::Little, Endian::Big, Endian::Native]);
    match r.below(8) {
        0 => Entry::Read,
        1 => Entry::ReadArgs,
        2 | 3 => Entry::Ext(endian),
        _ => Entry::Options(endian, if r.pct(30) { Some(r.below(4)) } else { None }, if r.pct(30) { r.below(16) } else { 0 } + base),
    }
}

fn args(ctx: &Ctx, r: &mut Rng, root: usize) -> Vec<i64> {
    if root >= PRIM_BASE {
        return vec![];
    }
    ctx.info[root]
        .imports
        .iter()
        .map(|_| match r.below(4) {
            0 => r.next() as i64,
            1 => r.range(-3, 3),
            _ => r.range(0, 20),
        })
        .collect()
}

/// Lengths, counts, pointers as large as they come.
fn extreme(r: &mut Rng, a: &Actor, touched: u64) -> Actor {
    let mut b = a.clone();
    let m = Arc::make_mut(&mut b.media);
    let n = m.bytes.len().min(touched as usize);
    if n == 0 {
        return b;
    }
    for _ in 0..1 + r.below(4) {
        let lo = if r.pct(80) { (a.start.saturating_sub(m.base) as usize).min(n - 1) } else { 0 };
        let i = lo + r.below((n - lo) as u64) as usize;
        let w = *r.pick(&[1usize, 2, 4, 8, 16]);
        let k = r.below(5);
        for j in i..(i + w).min(m.bytes.len()) {
            m.bytes[j] = match k {
                0 => 0xff,
                1 => {
                    if j == i {
                        0x7f
                    } else {
                        0xff
                    }
                }
                2 => {
                    if j == i {
                        0x80
                    } else {
                        0
                    }
                }
                3 => {
                    if j + 1 == i + w {
                        0x7f
                    } else {
                        0xff
                    }
                }
                _ => {
                    if j + 1 == i + w {
                        0x80
                    } else {
                        0
                    }
                }
            };
        }
    }
    b
}

pub type Sink<'a> = &'a mut dyn FnMut(&mut Ctx, Spec);

pub fn roots(ctx: &Ctx, prop: &str) -> Vec<usize> {
    let mut v: Vec<usize> = (0..ctx.info.len()).filter(|i| !crate::rt::zoo::SKIP.contains(i)).collect();
    if matches!(prop, "C01" | "C02" | "C03" | "C04" | "C05" | "C06") {
        v.extend((0..PRIMS.len()).map(|i| PRIM_BASE + i));
    }
    v
}

pub fn case(ctx: &mut Ctx, prop: &str, seed: u64, idx: u64, f: Sink) {
    let r = &mut Rng::sub(seed, 1, idx);
    let list = roots(ctx, prop);
    let root = list[(idx % list.len() as u64) as usize];
    if prop == "C03" {
        return case_stream(ctx, r, &list, root, f);
    }
    if prop == "C14" && idx % 4 != 0 {
        return case_io(ctx, r, idx, f);
    }
    if prop == "C16" || prop == "C17" {
        return case_together(ctx, r, prop, &list, root, f);
    }
    let a = actor(ctx, r, root);
    let nat = ctx.nat(&a);
    if nat.fuel && prop != "C13" {
        return;
    }
    let touched = nat.max_touched;
    match prop {
        "C01" => {
            for i in 0..8 {
                let b = match i {
                    5 => mutate(r, &a, touched),
                    6 => cut(&a, r.below(touched + 1) as i64),
                    7 => bad_sector(r, &a, touched),
                    _ => a.clone(),
                };
                let b = Actor { rand: Some(benign(r)), ..b };
                f(ctx, Spec::single(prop, "parse", b));
            }
            // one interruption or one short read, at every operation
            let ops = ctx.base(&a).ops.min(24);
            for op in 0..ops {
                let act = if r.pct(50) { Act::Eintr } else { Act::Short(1) };
                f(ctx, Spec::single(prop, "parse", Actor { acts: vec![(op, act)], ..a.clone() }));
            }
        }
        "C05" => {
            let n = a.media.bytes.len() as u64;
            let all = touched.min(n).max(1);
            let cuts: Vec<u64> = if touched <= 48 {
                (0..touched.min(n)).collect()
            } else {
                (0..if all > 1200 { 16 } else { 40 }).map(|_| if r.pct(20) { all - 1 - r.below(all.min(6)) } else { r.below(all) }).collect()
            };
            for c in cuts {
                let b = if r.pct(40) { Actor { rand: Some(benign(r)), ..a.clone() } } else { a.clone() };
                f(ctx, Spec { extra: vec![c as i64], ..Spec::single(prop, "cut", b) });
            }
        }
        "C02" | "C04" => {
            let eofs = eof_kind(ctx, root);
            let mut list = vec![a.clone()];
            list.push(mutate(r, &a, touched));
            list.push(bad_sector(r, &a, touched));
            if prop == "C02" {
                list.push(mutate(r, &a, touched));
                list.push(cut(&a, r.below(touched + 1) as i64));
            }
            for (i, b) in list.into_iter().enumerate() {
                if i > 0 {
                    f(ctx, Spec::single(prop, "parse", b.clone()));
                }
                let ops = ctx.base(&b).ops;
                // a failure of every single operation
                let every: Vec<u64> = if i == 0 && ops <= 60 { (0..ops).collect() } else { (0..12).map(|_| r.below(ops.max(1))).collect() };
                for op in every {
                    let x = match r.below(10) {
                        0 | 1 => (op, Act::Zero),
                        2 if eofs => (op, Act::Err(crate::rt::EOF_KIND, op + 1)),
                        3 => (op, gone(r, op + 1)),
                        _ => err(r, op, op + 1),
                    };
                    f(ctx, Spec::single(prop, "parse", Actor { acts: vec![x], ..b.clone() }));
                }
                // several failures, also while delivery is broken up
                for k in 0..4 {
                    let mut s = benign(r);
                    s.hard_pm = *r.pick(&[10, 40, 150]);
                    s.hard_left = if k == 0 { 1 } else { 1 + r.below(4) as u32 };
                    s.burst = *r.pick(&[0, 50, 90]);
                    s.zero = r.pct(50);
                    s.next_id = 1000;
                    s.eof_kind = eofs;
                    f(ctx, Spec::single(prop, "parse", Actor { rand: Some(s), ..b.clone() }));
                }
            }
        }
        "C15" => {
            for i in 0..10 {
                let b = match i {
                    0 | 1 => a.clone(),
                    2 => cut(&a, r.below(touched + 1) as i64),
                    3 | 4 => bad_sector(r, &a, touched),
                    5 => {
                        let b = mutate(r, &a, touched);
                        bad_sector(r, &b, touched)
                    }
                    6 => extreme(r, &a, touched),
                    _ => mutate(r, &a, touched),
                };
                let nat = ctx.nat(&b);
                if nat.fuel {
                    continue;
                }
                let cursor = b.media.bad.is_empty() && b.media.base == 0 && r.pct(40);
                f(ctx, Spec { extra: vec![i64::from(cursor)], ..Spec::single(prop, "equal", b) });
            }
        }
        "C14" => {
            for i in 0..6 {
                let b = match i {
                    0 => a.clone(),
                    1 => cut(&a, r.below(touched + 1) as i64),
                    2 => {
                        let mut b = a.clone();
                        b.start = *r.pick(&[u64::MAX, 1 << 63, 1 << 40, touched + 3, 200]);
                        b
                    }
                    _ => mutate(r, &a, touched),
                };
                f(ctx, Spec::single(prop, "cparse", b));
            }
        }
        "C13" => {
            for i in 0..16 {
                let b = match i {
                    0 => a.clone(),
                    1 | 2 => mutate(r, &a, touched),
                    3 => cut(&a, r.below(touched + 1) as i64),
                    4 => {
                        let mut b = a.clone();
                        let n = r.below(80) as usize;
                        let mode = r.below(3);
                        Arc::make_mut(&mut b.media).bytes = (0..n).map(|_| if mode == 0 { 0xff } else if mode == 1 && r.pct(60) { 0 } else { r.byte() }).collect();
                        b
                    }
                    _ => extreme(r, &a, touched),
                };
                let mut b = if r.pct(10) { bad_sector(r, &b, touched) } else { b };
                if r.pct(10) {
                    b.start = *r.pick(&[u64::MAX, u64::MAX - 1, i64::MAX as u64, 1 << 63, u64::MAX / 2 - 3, 1 << 32]);
                }
                if r.pct(10) {
                    b.entry = Entry::Options(Endian::Big, Some(*r.pick(&[i64::MAX as u64, 1 << 40, 1 << 33, 1 << 20])), *r.pick(&[0, u64::MAX, 1 << 63, 5]));
                }
                if r.pct(12) {
                    let ops = ctx.nat(&b).ticks.min(2000);
                    b.acts = vec![(r.below(ops.max(1)), gone(r, 7))];
                }
                b.rand = match r.below(4) {
                    _ if !b.acts.is_empty() => None,
                    0 => None,
                    1 => Some(benign(r)),
                    _ => Some(storm(r, 40)),
                };
                f(ctx, Spec::single(prop, "hostile", b));
            }
        }
        _ => {
            let faults = match prop {
                "C06" | "C07" | "C12" | "C18" => 4,
                _ => 8,
            };
            let mut list = vec![a.clone()];
            for _ in 0..3 {
                list.push(mutate(r, &a, touched));
            }
            list.push(cut(&a, r.below(touched + 1) as i64));
            list.push(bad_sector(r, &a, touched));
            for (i, b) in list.into_iter().enumerate() {
                f(ctx, Spec::single(prop, "parse", b.clone()));
                f(ctx, Spec::single(prop, "parse", Actor { rand: Some(benign(r)), ..b.clone() }));
                if i == 0 || r.pct(30) {
                    let ops = ctx.base(&b).ops;
                    for k in 0..faults {
                        let op = r.below(ops.max(1));
                        let x = if r.pct(20) { (op, Act::Zero) } else { err(r, op, op + 1) };
                        let mut c = Actor { acts: vec![x], ..b.clone() };
                        if k % 4 == 3 {
                            c.acts.clear();
                            let mut s = benign(r);
                            s.hard_pm = 1000 / (ops.max(1) as u32 + 1) + 5;
                            s.hard_left = 1;
                            s.zero = r.pct(30);
                            s.next_id = 1000;
                            c.rand = Some(s);
                        }
                        f(ctx, Spec::single(prop, "parse", c));
                    }
                }
            }
        }
    }
}

/// Several parses at once. Only the model runs here: the real code must not run in this process.
fn case_together(ctx: &mut Ctx, r: &mut Rng, prop: &str, list: &[usize], root: usize, f: Sink) {
    let template = prop == "C16";
    let n = 2 + r.below(6) as usize;
    let mut pool = vec![root];
    for _ in 0..r.below(3) {
        pool.push(*r.pick(list));
    }
    let mut actors: Vec<Actor> = vec![];
    while actors.len() < n {
        let root = *r.pick(&pool);
        // the same format on other data, other options
        let a = match actors.iter().find(|a| a.root == root) {
            Some(a) if r.pct(50) => {
                let t = ctx.nat(a).max_touched;
                let a = a.clone();
                let mut b = match r.below(4) {
                    0 => cut(&a, r.below(t + 1) as i64),
                    1 => bad_sector(r, &a, t),
                    2 => a,
                    _ => mutate(r, &a, t),
                };
                if r.pct(50) {
                    b.entry = entry(r, b.media.base);
                }
                b.nest = None;
                b.rand = None;
                b
            }
            _ => actor(ctx, r, root),
        };
        if ctx.nat(&a).fuel || ctx.nat(&a).ticks > 400 {
            if r.pct(10) {
                return;
            }
            continue;
        }
        actors.push(a);
    }
    let threads = if template { 1 + r.below(4) as usize } else { *r.pick(&[1usize, 2, 2, 3, 4]) };
    let ctrl = |kind: usize| Actor {
        root: crate::conc::CTRL_BASE + kind,
        entry: Entry::Read,
        args: vec![],
        start: 0,
        media: Arc::new(Media::default()),
        acts: vec![],
        rand: None,
        nest: None,
    };
    for k in 0..6 {
        let mut set = actors.clone();
        if k == 5 && r.pct(30) {
            // a long history
            let total = 20 + r.below(if template { 80 } else { 240 }) as usize;
            while set.len() < total {
                set.push(r.pick(&actors).clone());
            }
        }
        let n = set.len();
        for (i, a) in set.iter_mut().enumerate() {
            let ticks = ctx.nat(a).ticks;
            match r.below(20) {
                0..=7 if !template || r.pct(30) => a.rand = Some(benign(r)),
                8..=11 => {
                    let op = r.below(ticks + 2);
                    a.acts = vec![err(r, op, op + 1)];
                }
                12 | 13 => {
                    a.acts = vec![(r.below(ticks + 2), if template { Act::Zero } else { Act::Panic })];
                }
                14 if !template || r.pct(30) => a.rand = Some(storm(r, 6)),
                15 if template && r.pct(20) => a.acts = vec![(r.below(ticks + 2), Act::Panic)],
                _ => {}
            }
            if ticks > 2_000 || a.media.bytes.len() > 4_000 {
                // a long parse byte by byte is only slow
                if let Some(s) = a.rand.as_mut() {
                    s.short = 0;
                }
            }
            if !template && i + 1 < n && r.pct(if threads == 1 { 60 } else { 25 }) {
                let j = i + 1 + r.below((n - i - 1) as u64) as usize;
                a.nest = Some((r.below(ticks + 1), j));
            }
        }
        if !template {
            // every parse is nested in at most one other
            let mut seen = vec![false; n];
            for a in set.iter_mut() {
                if let Some((_, j)) = a.nest {
                    if seen[j] {
                        a.nest = None;
                    }
                    seen[j] = true;
                }
            }
        } else {
            let m = match r.below(10) {
                0 => 4,
                1 => 5,
                2 => 1,
                3 | 4 => 2,
                5 => 3,
                _ => 0,
            };
            set.insert(0, ctrl(m));
            if r.pct(60) {
                for _ in 0..1 + r.below(3) {
                    let at = 1 + r.below(set.len() as u64) as usize;
                    let kind = *r.pick(&[0usize, 0, 0, 2, 3, 1, 4, 5]);
                    set.insert(at, ctrl(kind));
                }
            }
        }
        let extra = if k == 0 && r.pct(20) { vec![] } else { vec![-1, (r.next() >> 1) as i64, *r.pick(&[2i64, 10, 30, 60, 100])] };
        let mode = format!("{}{}", if template { "template" } else { "conc" }, threads);
        f(ctx, Spec { prop: prop.into(), mode, actors: set, extra });
    }
}

fn storm(r: &mut Rng, max: u64) -> RandSched {
    let mut s = benign(r);
    if r.pct(30) {
        s.short = 0;
        s.eintr = 0;
    }
    s.hard_pm = *r.pick(&[10, 30, 100, 250]);
    s.hard_left = 1 + r.below(max) as u32;
    s.burst = *r.pick(&[0, 40, 80]);
    s.zero = r.pct(40);
    s.next_id = 1000;
    s
}

fn case_stream(ctx: &mut Ctx, r: &mut Rng, list: &[usize], root: usize, f: Sink) {
    let list: Vec<usize> = list.iter().copied().filter(|i| ctx.opaque(*i)).collect();
    if !ctx.opaque(root) {
        return;
    }
    let actors = match stream(ctx, r, &list, root) {
        Some(a) => a,
        None => return,
    };
    let spec = |first: Actor| {
        let mut l = actors.clone();
        l[0] = first;
        Spec { prop: "C03".into(), mode: "stream".into(), actors: l, extra: vec![] }
    };
    // how long is it?
    let v = judge(ctx, &spec(actors[0].clone()));
    let ops = v.out.ops;
    // one failing operation
    for _ in 0..6 {
        let op = r.below(ops.max(1));
        let x = if r.pct(20) { (op, Act::Zero) } else { err(r, op, op + 1) };
        let mut acts = vec![x];
        if r.pct(50) {
            // and the operation after it, or again when the record is retried
            let next = op + 1 + r.below(6);
            acts.push(err(r, next, op + 500));
        }
        f(ctx, spec(Actor { acts, ..actors[0].clone() }));
    }
    for _ in 0..10 {
        let mut s = storm(r, 12);
        s.eof_kind = true;
        f(ctx, spec(Actor { rand: Some(s), ..actors[0].clone() }));
    }
}

fn number(r: &mut Rng, len: i64) -> i64 {
    match r.below(12) {
        0 => i64::MIN,
        1 => i64::MAX,
        2 => -1,
        3 => i64::MIN + 1,
        4 => -(len + r.range(-2, 2)),
        5 => len + r.range(-2, 2),
        6 => r.next() as i64,
        7 | 8 => r.range(-8, 8),
        _ => r.range(0, len + 4),
    }
}

fn case_io(ctx: &mut Ctx, r: &mut Rng, idx: u64, f: Sink) {
    let cursor = idx % 4 == 1;
    let len = *r.pick(&[0u64, 1, 2, 5, 17, 17, 40, 40, 130, 300]) + r.below(4);
    let bytes: Vec<u8> = (0..len).map(|_| r.byte()).collect();
    let mut media = Media { bytes, ..Media::default() };
    if !cursor && r.pct(30) {
        let x = r.below(len + 1);
        media.bad.push((x, x + 1 + r.below(4)));
    }
    let media = Arc::new(media);
    for _ in 0..12 {
        let mut a =
            Actor { root: PRIM_BASE, entry: Entry::Read, args: vec![], start: r.below(3), media: media.clone(), acts: vec![], rand: None, nest: None };
        let mut extra = vec![];
        for _ in 0..3 + r.below(14) {
            let op = match r.below(20) {
                k if k < 15 => k as i64,
                15 | 16 => 0,
                17 => 1,
                _ => 3,
            };
            let far = matches!(op, 2 | 3 | 4 | 5 | 10) && r.pct(40);
            extra.push(op);
            let near = if r.pct(60) { len.min(40) } else { len } as i64;
            extra.push(if far { number(r, len as i64) } else { r.range(0, near + 1) * if op == 4 { -1 } else { 1 } });
            extra.push(if op == 10 { r.range(-6, 6) } else { number(r, len as i64) });
        }
        if !cursor {
            let mut s = storm(r, 6);
            s.eof_kind = true;
            if r.pct(40) {
                s.hard_left = 0;
            }
            a.rand = Some(s);
        }
        f(ctx, Spec { prop: "C14".into(), mode: if cursor { "cursor" } else { "adapt" }.into(), actors: vec![a], extra });
    }
}

#[allow(dead_code)]
fn unused(_: &Ty, _: &Res) {}
