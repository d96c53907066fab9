//! Reads a debug template back and decides whether it is whole, truthful and complete (C16).
use crate::conc::*;
use crate::oracle::*;
use crate::schema::P;
use crate::spec::{Actor, Spec};
use std::collections::HashSet;

#[derive(Clone, Debug, PartialEq)]
pub enum Rec {
    /// big endian, position, type, name, count
    Value { big: bool, pos: u64, ty: String, name: String, count: Option<u64> },
    Start(String),
    End(String),
    Comment(String),
}

pub struct Parsed {
    pub thread: usize,
    /// where in the history of all outputs it begins
    pub when: usize,
    pub rec: Rec,
    /// the automatic number, as written
    pub auto: Option<String>,
}

fn line(text: &[u8], at: &mut usize) -> Option<String> {
    let n = text[*at..].iter().position(|b| *b == b'\n')?;
    let s = String::from_utf8_lossy(&text[*at..*at + n]).into_owned();
    *at += n + 1;
    Some(s)
}

fn digits(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit())
}

/// One record; None if the text is not one.
fn record(text: &[u8], at: &mut usize) -> Option<(Rec, Option<String>)> {
    let l = line(text, at)?;
    if let Some(c) = l.strip_prefix("// ") {
        return Some((Rec::Comment(c.into()), None));
    }
    if let Some(s) = l.strip_prefix("struct ") {
        let s = s.strip_suffix(" {")?;
        let (name, n) = s.rsplit_once('_')?;
        if !digits(n) {
            return None;
        }
        return Some((Rec::Start(name.into()), Some(format!("struct {}", n))));
    }
    if let Some(s) = l.strip_prefix("} ") {
        return Some((Rec::End(s.strip_suffix(';')?.into()), None));
    }
    let big = match l.as_str() {
        "BigEndian();" => true,
        "LittleEndian();" => false,
        _ => return None,
    };
    let l = line(text, at)?;
    let pos = u64::from_str_radix(l.strip_prefix("FSeek(0x")?.strip_suffix(");")?, 16).ok()?;
    let l = line(text, at)?;
    let l = l.strip_suffix(">;")?;
    let (head, color) = l.rsplit_once("<bgcolor=0x")?;
    if color.len() != 6 {
        return None;
    }
    let (ty, name) = head.rsplit_once(' ')?;
    let (name, count) = match name.strip_suffix(']') {
        Some(x) => {
            let (n, c) = x.rsplit_once('[')?;
            (n, Some(c.parse().ok()?))
        }
        None => (name, None),
    };
    if line(text, at)? != "" {
        return None;
    }
    let num = |s: &str| s.strip_prefix("var").filter(|x| digits(x)).is_some();
    let mut auto = None;
    let mut shown = name.to_string();
    if num(name) {
        auto = Some(name.to_string());
        shown = "var#".into();
    }
    Some((Rec::Value { big, pos, ty: ty.into(), name: shown, count }, auto))
}

fn size_of(ty: &str) -> Option<usize> {
    use P::*;
    [U8, U16, U32, U64, U128, I8, I16, I32, I64, I128, F32, F64].iter().find(|p| p.name() == ty).map(|p| p.size())
}

/// The records one sink received.
fn records(chunks: &[(usize, usize, Vec<u8>)], sink: usize) -> Result<Vec<Parsed>, String> {
    let mut text = vec![];
    let mut who = vec![];
    let mut when = vec![];
    for (i, (s, t, b)) in chunks.iter().enumerate() {
        if *s == sink {
            text.extend_from_slice(b);
            who.extend(std::iter::repeat(*t).take(b.len()));
            when.extend(std::iter::repeat(i).take(b.len()));
        }
    }
    // the header: up to the first empty lines
    if !text.starts_with(b"// Generated by BinRead") {
        return Err(format!("output {} does not begin with the header", sink));
    }
    let mut out = vec![];
    let end = text.windows(3).position(|w| w == b"\n\n\n").map(|p| p + 3);
    let mut at = end.unwrap_or(text.len());
    let t0 = who[0];
    if let Some(p) = who[..at].iter().position(|t| *t != t0) {
        return Err(format!("the header of output {} is torn at byte {}", sink, p));
    }
    while at < text.len() {
        let from = at;
        let show = || String::from_utf8_lossy(&text[from..(from + 160).min(text.len())]).into_owned();
        let (rec, auto) = match record(&text, &mut at) {
            Some(x) => x,
            None => return Err(format!("output {} at byte {}: not a whole record: {:?}", sink, from, show())),
        };
        let t = who[from];
        if who[from..at].iter().any(|x| *x != t) {
            return Err(format!("output {} at byte {}: one record written by several threads: {:?}", sink, from, show()));
        }
        out.push(Parsed { thread: t, when: when[from], rec, auto });
    }
    Ok(out)
}

fn v(class: &str, msg: String) -> Option<(String, String)> {
    Some((class.into(), msg))
}

/// The records a parse writes on its own, checked against what the interpreter reads.
fn solo(ctx: &mut Ctx, a: &Actor, budget: u64) -> Result<Option<Vec<Rec>>, String> {
    let rep = alone(ctx, a, budget, true);
    let rep = match &*rep {
        Ok(r) => r,
        Err(_) => return Ok(None),
    };
    let list = match records(&rep.text, 0) {
        Ok(l) => l,
        Err(e) => return Err(e),
    };
    let recs: Vec<Rec> = list.into_iter().map(|p| p.rec).collect();
    let c = match rep.outs.get(&1) {
        Some(c) => c,
        None => return Ok(None),
    };
    if c.hard == 0 {
        let (nat, log) = ctx.logged(a);
        let same = !nat.fuel && c.res == format!("{:?}", crate::exec::Res::V(nat.exp.res.clone())) && (nat.exp.pos_any || c.pos == nat.exp.pos);
        if same {
            let log: HashSet<(u64, usize, bool)> = log.into_iter().collect();
            for r in &recs {
                if let Rec::Value { big, pos, ty, name, count } = r {
                    let ok = match (size_of(ty), count) {
                        (Some(n), None) => log.contains(&(*pos, n, *big)),
                        (Some(n), Some(c)) if *c > 0 => log.contains(&(*pos, n, *big)),
                        _ => log.contains(&(*pos, 0, *big)),
                    };
                    if !ok {
                        let near: Vec<_> = log.iter().filter(|l| l.0 == *pos).collect();
                        return Err(format!(
                            "the record of {} {} says {} at {:#x}; the parse reads {:?} there",
                            ty,
                            name,
                            if *big { "big endian" } else { "little endian" },
                            pos,
                            near
                        ));
                    }
                }
            }
        }
    }
    Ok(Some(recs))
}

pub fn check(ctx: &mut Ctx, spec: &Spec, rep: &Report, budgets: &[u64], threads: usize, tags: &mut Vec<&'static str>) -> Option<(String, String)> {
    // what every thread writes on its own
    let mut want: Vec<Vec<Rec>> = vec![vec![]; threads + 1];
    let mut known = true;
    let mut complete = true;
    for (t, list) in assignment(spec, threads).into_iter().enumerate() {
        for i in list {
            let a = &spec.actors[i];
            if a.root >= CTRL_BASE {
                complete &= a.root - CTRL_BASE != 1;
                continue;
            }
            if rep.outs.get(&i).map_or(true, |c| c.class == "injected_panic") {
                complete = false;
            }
            match solo(ctx, a, budgets[i]) {
                Ok(Some(r)) => want[t + 1].extend(r),
                Ok(None) => known = false,
                Err(e) => return v("untruthful", format!("parse {} alone: {}", i, e)),
            }
        }
    }
    if spec.actors.first().map_or(true, |a| a.root != CTRL_BASE && a.root != CTRL_BASE + 2 && a.root != CTRL_BASE + 3) {
        complete = false;
    }
    let mut names: HashSet<String> = HashSet::new();
    let mut n = 0;
    let sinks: std::collections::BTreeSet<usize> = rep.text.iter().map(|c| c.0).collect();
    let mut order = vec![];
    for s in sinks {
        if s < spec.actors.len() && spec.actors[s].root >= CTRL_BASE + 4 {
            // an output that fails or panics receives fragments
            complete = false;
            continue;
        }
        let list = match records(&rep.text, s) {
            Ok(l) => l,
            Err(e) => return v("torn", e),
        };
        for p in list {
            n += 1;
            if let Some(a) = &p.auto {
                if !names.insert(a.clone()) {
                    return v("duplicate-name", format!("{} is issued twice", a));
                }
            }
            order.push(p);
        }
    }
    // each thread's records in the order it wrote them, whatever output they went to
    order.sort_by_key(|p| p.when);
    let mut got: Vec<Vec<Rec>> = vec![vec![]; threads + 1];
    for p in order {
        got[p.thread].push(p.rec);
    }
    if n > 0 {
        tags.push("records_checked");
    }
    if !known {
        return None;
    }
    if complete && n > 0 {
        tags.push("every_record_accounted_for");
    }
    for t in 0..=threads {
        let seq: Vec<&Rec> = got[t].iter().collect();
        if complete && t > 0 {
            let w: Vec<&Rec> = want[t].iter().collect();
            if seq != w {
                let k = seq.iter().zip(&w).position(|(a, b)| a != b).unwrap_or(seq.len().min(w.len()));
                return v("records", format!("thread {}: record {} should be {:?}, is {:?}; {} records instead of {}", t, k, w.get(k), seq.get(k), seq.len(), w.len()));
            }
        } else {
            let mut k = 0;
            for r in &seq {
                while k < want[t].len() && want[t][k] != **r {
                    k += 1;
                }
                if k == want[t].len() {
                    return v("records", format!("thread {}: unexpected record (or out of order): {:?}", t, r));
                }
                k += 1;
            }
        }
    }
    None
}
