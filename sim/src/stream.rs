//! Histories of records read from one reader with retries (C03).
use crate::exec::*;
use crate::oracle::*;
use crate::rng::mix;
use crate::rt::*;
use crate::spec::{Actor, Spec};
use binread::io::{Seek, SeekFrom};

fn drain() {
    PROBES.with(|p| p.borrow_mut().clear());
    SPY.with(|p| p.borrow_mut().clear());
    SPY_SOFT.with(|p| p.borrow_mut().clear());
}

fn v(class: &str, msg: String) -> Option<(String, String)> {
    Some((class.into(), msg))
}

pub fn judge_stream(ctx: &mut Ctx, spec: &Spec) -> Verdict {
    clear_tls();
    let first = &spec.actors[0];
    let len = first.media.bytes.len() as u64;
    // the undisturbed run
    let calm = Actor { acts: vec![], rand: None, ..first.clone() };
    let mut r = reader(&calm);
    r.budget = 400_000 + 100 * len;
    let mut want = vec![];
    for a in &spec.actors {
        let b = Actor { entry: a.entry, root: a.root, args: a.args.clone(), ..calm.clone() };
        let res = call(&b, &mut r);
        drain();
        let ok = res.is_ok();
        want.push((res, r.pos));
        if !ok {
            break;
        }
    }
    let base_ops = r.ops;
    if !want.last().map_or(false, |w| w.0.is_ok()) {
        // not a stream the undisturbed client can read: says nothing about retries
        let out = finish(want.pop().unwrap().0, r);
        return Verdict { bad: None, out, acts: spec.actors.iter().map(|a| a.acts.clone()).collect(), extra: vec![], also: 0, nontrivial: false, tags: vec!["unreadable_stream"] };
    }

    let mut r = reader(first);
    r.budget = 20 * (base_ops + 100) + 40 * len + 4000;
    if ctx.trace {
        r.trace = Some(vec![]);
    }
    let mut bad = None;
    let mut retries = 0u64;
    let mut last_res = Res::SimPanic;
    let mut ops_at_last = 0;
    let mut fired_at_last = 0;
    let mut tags = vec![];
    'records: for (k, a) in spec.actors.iter().enumerate() {
        let b = Actor { entry: a.entry, root: a.root, args: a.args.clone(), ..calm.clone() };
        let begin = r.pos;
        let mut attempt = 0;
        loop {
            attempt += 1;
            let h0 = r.hard;
            if let Some(t) = &mut r.trace {
                t.push(format!("-- record {} attempt {} at {:#x}", k, attempt, begin));
            }
            let res = call(&b, &mut r);
            drain();
            if r.hard > h0 {
                ops_at_last = r.ops;
                fired_at_last = r.fired.len();
            }
            last_res = res.clone();
            match &res {
                Res::V(Ok(_)) => {
                    if res != want[k].0 {
                        bad = v("record", format!("record {} (attempt {}): undisturbed {:?}, with faults and retries {:?}", k, attempt, want[k].0, res));
                        break 'records;
                    }
                    if r.pos != want[k].1 {
                        bad = v("record-position", format!("record {} (attempt {}) ends at {:#x}, undisturbed at {:#x}", k, attempt, r.pos, want[k].1));
                        break 'records;
                    }
                    break;
                }
                Res::V(Err(e)) => {
                    if r.hard == h0 {
                        bad = v("spurious", format!("record {} attempt {}: no operation failed, yet {:?}", k, attempt, e));
                        break 'records;
                    }
                }
                Res::Panic(m) => {
                    bad = v("panic", format!("record {} attempt {}: {}", k, attempt, m));
                    break 'records;
                }
                Res::Budget => {
                    bad = v("no-progress", format!("record {} attempt {}: {} reader calls, the undisturbed stream takes {}", k, attempt, r.ops, base_ops));
                    break 'records;
                }
                Res::SimPanic => break 'records,
            }
            retries += 1;
            // only if the repositioning seek was the thing that failed, the client seeks
            if r.pos != begin && r.last_failed_seek {
                tags.push("client_seek");
                let mut n = 0;
                while r.seek(SeekFrom::Start(begin)).is_err() && n < 100 {
                    n += 1;
                }
                if r.hard > h0 {
                    ops_at_last = r.ops;
                    fired_at_last = r.fired.len();
                }
            }
            if attempt > 200 {
                bad = v("no-progress", format!("record {}: 200 attempts", k));
                break 'records;
            }
        }
    }
    if bad.is_none() {
        let since = r.ops - ops_at_last;
        let benign = (r.fired.len() - fired_at_last) as u64;
        let bound = 2 * base_ops + 64;
        if since.saturating_sub(benign) > bound {
            bad = v("no-progress", format!("{} reader calls after the last fault ({} of them short or interrupted); the undisturbed stream takes {}", since, benign, base_ops));
        }
    }
    if retries > 2 {
        tags.push("several_retries");
    }
    if retries > spec.actors.len() as u64 {
        tags.push("more_retries_than_records");
    }
    tags.sort_unstable();
    tags.dedup();
    let pos = r.pos;
    let mut out = finish(last_res, r);
    out.digest = mix(out.digest ^ mix(pos ^ retries << 32));
    let mut acts: Vec<_> = spec.actors.iter().map(|_| vec![]).collect();
    acts[0] = out.acts();
    Verdict { bad, out, acts, extra: spec.extra.clone(), also: 0, nontrivial: retries > 0, tags }
}
