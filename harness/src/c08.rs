//! C08 (and the complete runs of C02): records and weights under all schedules of the conversion
use crate::ctx::*;
use crate::memio::*;
use crate::res::*;
use cres::resampler::DefaultResamplerBuilder;
use cres::unweight::NO_UNWEIGHTING;
use mcsched::{End, Explorer, Mode};
use serde_json::json;
use std::sync::atomic::Ordering::SeqCst;

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Marker(bool),
    Real,
}

fn exec(recs: &[Rec], how: How, fail_write: bool) -> RunResult {
    match how {
        How::Marker(reverse) => run_with(recs, Marker { reverse }, NO_UNWEIGHTING, fail_write),
        How::Real => run_with(recs, DefaultResamplerBuilder::default().build(), NO_UNWEIGHTING, fail_write),
    }
}

/// expected weights; `None`: not decided here
fn expected(recs: &[Rec], how: How) -> Vec<Vec<Vec<f64>>> {
    match how {
        How::Marker(_) => vec![recs
            .iter()
            .enumerate()
            .map(|(i, r)| match r {
                Rec::Ev(pos, w) => mark(*pos, &rec_weights(*w, i)),
                Rec::Empty(w) => rec_weights(*w, i),
                _ => unreachable!(),
            })
            .collect()],
        How::Real => {
            let ids: Vec<usize> = (0..recs.len()).filter(|i| matches!(recs[*i], Rec::Ev(..))).collect();
            let mut pos = vec![];
            let mut weights = vec![];
            for i in &ids {
                if let Rec::Ev(p, w) = recs[*i] {
                    pos.push(p);
                    weights.push(rec_weights(w, *i))
                }
            }
            let s = Sample { dist: line(&pos), weights, strat: Strat::Most, max: None, search: Search::Tree };
            reference(&s)
                .into_iter()
                .map(|(w, _)| {
                    let mut all: Vec<Vec<f64>> = recs
                        .iter()
                        .enumerate()
                        .map(|(i, r)| if let Rec::Empty(w) = r { rec_weights(*w, i) } else { vec![] })
                        .collect();
                    for (i, w) in ids.iter().zip(w) {
                        all[*i] = w
                    }
                    all
                })
                .collect()
        }
    }
}

fn judge(ctx: &Ctx, recs: &[Rec], how: How, fail_write: bool, r: &RunResult) -> Result<(), String> {
    if ctx.prop == "C02" {
        return Ok(());
    }
    let bad: Vec<&Rec> = recs.iter().filter(|r| r.fails()).collect();
    if !bad.is_empty() {
        if r.written.is_some() {
            return Err(format!("weights were written in spite of failing records ({:?})", r.result));
        }
        return match &r.result {
            Ok(()) => Err("success in spite of failing records".into()),
            Err(e) => {
                let ok = bad.iter().any(|b| match b {
                    Rec::ReadErr => e == "io MemErr(\"read\")",
                    Rec::ConvErr => e == "conversion MemErr(\"convert\")",
                    Rec::ClusterErr => e == "cluster MemErr(\"cluster\")",
                    _ => e == "id 7",
                });
                if ok {
                    Ok(())
                } else {
                    Err(format!("unexpected error {e}"))
                }
            }
        };
    }
    match (&r.result, fail_write) {
        (Ok(()), true) => return Err("success although the output could not be written".into()),
        (Err(e), false) => return Err(format!("error {e} for a correct sample")),
        _ => {}
    }
    let Some(got) = &r.written else {
        return Err("nothing was written".into());
    };
    if got.len() != recs.len() {
        return Err(format!("{} weights for {} records", got.len(), recs.len()));
    }
    let want = expected(recs, how);
    let ok = want.iter().any(|w| {
        got.iter().zip(w).zip(recs).all(|((g, w), r)| {
            // no weights means that the record stays as it is
            (matches!(r, Rec::Empty(_)) && g.is_empty())
                || (g.len() == w.len() && g.iter().zip(w).all(|(a, b)| close(*a, *b)))
        })
    });
    if ok {
        Ok(())
    } else {
        Err(format!("records got the weights {got:?}, expected {want:?}"))
    }
}

fn explore(ctx: &Ctx, recs: &[Rec], how: How, fail_write: bool) {
    let name = format!("run/{recs:?}/{how:?}/{fail_write}").replace(' ', "");
    if !ctx.want(&name) || ctx.stop() {
        return;
    }
    let ex = Explorer {
        max_executions: Some(ctx.by(50_000, 1_000_000)),
        deadline: Some(ctx.deadline),
        horizon: 6000,
        threads: 2,
        ..Default::default()
    };
    let r2 = recs.to_vec();
    let outcomes = std::cell::RefCell::new(std::collections::HashSet::new());
    let verdict = |end: End<RunResult>| match end {
        End::Ok(o) => {
            outcomes.borrow_mut().insert(hash_of(&format!("{o:?}")));
            judge(ctx, recs, how, fail_write, &o)
        }
        End::Panic(p) => Err(format!("panic: {p}")),
        End::Deadlock(w) => Err(format!("deadlock: {w}")),
        End::Horizon => Err("does not end within 6000 scheduling steps".into()),
    };
    let mut found = ex.explore(move || exec(&r2, how, fail_write), |e| {
        ctx.eval();
        verdict(e)
    });
    if matches!(found, Ok((_, None))) && recs.len() <= ctx.by(3, 4) {
        // without reduction: tasks that communicate by other means than locks
        let r2 = recs.to_vec();
        let ex = Explorer { mode: Mode::Deviations(ctx.by(2, 3)), ..ex };
        let more = ex.explore(move || exec(&r2, how, fail_write), |e| {
            ctx.eval();
            verdict(e)
        });
        if let (Ok((a, _)), Ok((b, f))) = (&mut found, &more) {
            ctx.count("complete_runs_schedules_with_few_deviations", b.executions);
            a.states += b.states;
            a.transitions += b.transitions;
            if f.is_some() {
                found = more
            }
        } else {
            found = more
        }
    }
    match found {
        Err(e) => ctx.error(format!("{name}: {}", e.0)),
        Ok((st, f)) => {
            ctx.states.fetch_add(st.states, SeqCst);
            ctx.transitions.fetch_add(st.transitions, SeqCst);
            ctx.count("complete_runs_schedules", st.executions);
            ctx.count("complete_runs_samples", 1);
            let h = hash_of(&name);
            ctx.nontrivial_many(outcomes.borrow().iter().map(|o| hash_of(&(h, o))));
            if st.capped && f.is_none() {
                ctx.cap("execution limit per sample");
            }
            if st.executions > 20 {
                ctx.sample(format!("{name}: {} schedules, {} states, depth {}", st.executions, st.states, st.max_depth))
            }
            if let Some(f) = f {
                let r2 = recs.to_vec();
                let again = match ex.replay(move || exec(&r2, how, fail_write), &f.schedule) {
                    Ok(e) => verdict(e).err().unwrap_or_default(),
                    Err(e) => e.0,
                };
                if again != f.what && !f.what.starts_with("deadlock: no progress") {
                    ctx.error(format!("{name}: `{}` is not reproducible: {again}", f.what));
                }
                ctx.fail(&name, f.what, json!({"schedule": f.schedule, "trace": f.trace}))
            } else if let Ok(r) = mcsched::quiet(|| exec(recs, how, fail_write)) {
                // free-running
                if let Err(e) = judge(ctx, recs, how, fail_write, &r) {
                    ctx.fail(&name, e, json!({"schedule": "sequential"}))
                }
                ctx.validated.fetch_add(1, SeqCst);
            }
        }
    }
}

pub fn explore_runs(ctx: &Ctx) {
    let mut jobs: Vec<(Vec<Rec>, How, bool)> = vec![];
    // the association
    let n = ctx.by(5, 6);
    for k in 0..=n {
        for kinds in Odometer::pow(2, k) {
            if k == n && kinds.iter().filter(|x| **x == 1).count() > ctx.by(2, 3) {
                continue;
            }
            let recs: Vec<Rec> = kinds
                .iter()
                .enumerate()
                .map(|(i, e)| {
                    if *e == 0 {
                        Rec::Ev([3., 1., 4., 1.5, 9., 2.][i], [1., 2., 3., 4., 5., 6.][i])
                    } else {
                        Rec::Empty([-1.5, 2.5, 3.5, 4.5, 5.5, 6.5][i])
                    }
                })
                .collect();
            jobs.push((recs.clone(), How::Marker(false), false));
            if k <= 3 {
                jobs.push((recs.clone(), How::Marker(true), false));
                jobs.push((recs, How::Marker(false), true));
            }
        }
    }
    // one failing record or more at every position
    for k in 1..=ctx.by(4, 5) {
        for kinds in Odometer::pow(5, k) {
            let bad = kinds.iter().filter(|x| **x != 0).count();
            if bad == 0 || bad > ctx.by(2, 3) {
                continue;
            }
            let recs: Vec<Rec> = kinds
                .iter()
                .enumerate()
                .map(|(i, e)| match e {
                    0 => Rec::Ev(i as f64, 1.),
                    1 => Rec::ReadErr,
                    2 => Rec::ConvErr,
                    3 => Rec::ClusterErr,
                    _ => Rec::BadId,
                })
                .collect();
            jobs.push((recs, How::Marker(false), false));
        }
    }
    // with the real resampler: one negative event, no equal distances
    for k in 1..=3 {
        for neg in 0..k {
            for hole in 0..=k {
                let mut recs: Vec<Rec> = (0..k)
                    .map(|i| Rec::Ev([0., 1., 3.][i], if i == neg { -2. } else { [1., 1.5, 4.][i] }))
                    .collect();
                recs.insert(hole, Rec::Empty(-5.));
                if k == 3 && !ctx.thorough {
                    recs.remove(hole);
                    if hole > 0 {
                        continue;
                    }
                }
                jobs.push((recs, How::Real, false));
            }
        }
    }
    par_for(&jobs, |(r, h, f)| explore(ctx, r, *h, *f));
    // many records, in the standard schedule
    for n in [300, 301, 302, 1025, 70_001] {
        for reverse in [false, true] {
            let name = format!("many{n}/{reverse}");
            if !ctx.want(&name) || ctx.stop() {
                continue;
            }
            ctx.eval();
            let recs: Vec<Rec> = (0..n)
                .map(|i| match i % 7 {
                    3 => Rec::Empty(i as f64 / 4. - 9.),
                    _ => Rec::Ev((i * 31 % 1009) as f64, (i % 257) as f64 - 100.),
                })
                .collect();
            let how = How::Marker(reverse);
            match mcsched::quiet(|| exec(&recs, how, false)) {
                Err(p) => ctx.fail(&name, format!("panic: {p}"), json!({})),
                Ok(r) => {
                    if let Err(mut e) = judge(ctx, &recs, how, false, &r) {
                        e.truncate(400);
                        ctx.fail(&name, e, json!({"schedule": "sequential"}))
                    }
                }
            }
            ctx.nontrivial(hash_of(&name));
        }
    }
}
