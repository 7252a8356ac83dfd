//! C01, C02, C03: resampling under all schedules
use crate::ctx::*;
use crate::res::*;
use mcsched::{End, Explorer, Mode};
use serde_json::json;
use std::sync::atomic::Ordering::SeqCst;

fn judge(prop: &str, s: &Sample, o: &Outcome) -> Result<(), String> {
    let n = s.weights.len();
    let nw = s.weights.first().map_or(0, |w| w.len());
    match prop {
        "C01" => {
            if o.ids != (0..n).collect::<Vec<_>>() {
                return Err(format!("events {:?} came back instead of 0..{n}", o.ids));
            }
            for (i, e) in o.outgoing.iter().enumerate() {
                if *e != i as f64 + 1. {
                    return Err(format!("the momenta of event {i} changed"));
                }
            }
            for w in &o.weights {
                if w.len() != nw {
                    return Err("the number of weights of an event changed".into());
                }
            }
            for c in 0..nw {
                let before: f64 = s.weights.iter().map(|w| w[c]).sum();
                let after: f64 = o.weights.iter().map(|w| w[c]).sum();
                if !close_to(before, after, largest(s.weights.iter().map(|w| w[c])) * n as f64) {
                    return Err(format!("sum of weight {c}: {before} before, {after} after ({:?})", o.weights));
                }
            }
            Ok(())
        }
        "C02" => Ok(()),
        _ => {
            let eps = 1e-11 * largest(s.weights.iter().map(|w| w[0]));
            let tot: f64 = s.weights.iter().map(|w| w[0]).sum();
            let after: Vec<f64> = o.weights.iter().map(|w| w[0]).collect();
            if tot >= 0. && s.max.is_none() {
                if let Some(w) = after.iter().find(|w| **w < -eps) {
                    return Err(format!("negative weight {w} left: {after:?}"));
                }
            }
            let abs0: f64 = s.weights.iter().map(|w| w[0].abs()).sum();
            let abs1: f64 = after.iter().map(|w| w.abs()).sum();
            if abs1 > abs0 + eps {
                return Err(format!("sum of absolute weights grows from {abs0} to {abs1}: {after:?}"));
            }
            let min = s.weights.iter().map(|w| w[0]).fold(f64::INFINITY, f64::min);
            let max = s.weights.iter().map(|w| w[0]).fold(f64::NEG_INFINITY, f64::max);
            for w in &after {
                if *w < min - eps || *w > max + eps {
                    return Err(format!("weight {w} outside of [{min}, {max}]: {after:?}"));
                }
            }
            if min >= 0. && o.weights != s.weights {
                return Err(format!("non-negative weights changed to {:?}", o.weights));
            }
            Ok(())
        }
    }
}

fn key(s: &Sample, o: &Outcome) -> u64 {
    let size: Vec<f64> = (0..s.weights.first().map_or(0, |w| w.len()))
        .map(|c| largest(s.weights.iter().map(|w| w[c])).max(f64::MIN_POSITIVE))
        .collect();
    let v: Vec<Vec<u64>> = o
        .weights
        .iter()
        .map(|w| w.iter().enumerate().map(|(c, x)| (x / size.get(c).unwrap_or(&1.) * 1e6).round() as i64 as u64).collect())
        .collect();
    hash_of(&v)
}

/// explore one sample
fn explore(ctx: &Ctx, s: &Sample, max_exec: Option<u64>) {
    let name = s.name();
    if !ctx.want(&name) || ctx.stop() {
        return;
    }
    let ex = Explorer {
        max_executions: max_exec,
        deadline: Some(ctx.deadline),
        horizon: 4000,
        threads: 4,
        ..Default::default()
    };
    let s1 = s.clone();
    let mut outcomes = std::collections::HashSet::new();
    let h = hash_of(&name);
    let mut verdict = |end| {
        ctx.eval();
        match end {
            End::Ok(o) => {
                outcomes.insert(key(s, &o));
                judge(&ctx.prop, s, &o)
            }
            End::Panic(p) => Err(format!("panic: {p}")),
            End::Deadlock(w) => Err(format!("deadlock: {w}")),
            End::Horizon => Err("does not end within 4000 scheduling steps".into()),
        }
    };
    let mut r = ex.explore(move || resample(&s1), &mut verdict);
    if matches!(r, Ok((_, None))) && (ctx.thorough || h % 8 == 0) {
        // without reduction: workers that communicate by other means than locks
        let s1 = s.clone();
        let n = if ctx.thorough && s.weights.len() <= 2 { 2 } else { 1 };
        let ex = Explorer { mode: mcsched::Mode::Deviations(n), ..ex };
        let more = ex.explore(move || resample(&s1), &mut verdict);
        if let (Ok((a, _)), Ok((b, f))) = (&mut r, &more) {
            ctx.count("schedules_with_few_deviations", b.executions);
            a.states += b.states;
            a.transitions += b.transitions;
            if f.is_some() {
                r = more
            }
        } else {
            r = more
        }
    }
    match r {
        Err(e) => ctx.error(format!("{name}: {}", e.0)),
        Ok((st, f)) => {
            ctx.states.fetch_add(st.states, SeqCst);
            ctx.transitions.fetch_add(st.transitions, SeqCst);
            ctx.count("schedules_complete", st.executions);
            ctx.count("schedules_cut_as_equivalent", st.redundant);
            ctx.count("samples", 1);
            if outcomes.len() > 1 {
                ctx.count("samples_whose_result_depends_on_the_schedule", 1);
            }
            ctx.nontrivial_many(outcomes.iter().map(|o| hash_of(&(h, o))));
            if st.capped && f.is_none() {
                ctx.count("samples_cut_at_the_execution_limit", 1);
                ctx.cap("execution limit per sample");
            }
            if st.executions > 50 {
                ctx.sample(format!(
                    "{name}: {} schedules, {} states, {} distinct results, depth {}, {} tasks",
                    st.executions,
                    st.states,
                    outcomes.len(),
                    st.max_depth,
                    st.max_tasks
                ));
            }
            if let Some(f) = f {
                // the same schedule must fail again
                let s2 = s.clone();
                let mut again = "does not fail when replayed".to_string();
                let mut same = false;
                match ex.replay(move || resample(&s2), &f.schedule) {
                    Ok(end) => {
                        let e = match end {
                            End::Ok(o) => judge(&ctx.prop, s, &o),
                            End::Panic(p) => Err(format!("panic: {p}")),
                            End::Deadlock(w) => Err(format!("deadlock: {w}")),
                            End::Horizon => Err("does not end within 4000 scheduling steps".into()),
                        };
                        if let Err(e) = e {
                            same = e == f.what;
                            again = e;
                        }
                    }
                    Err(e) => again = e.0,
                }
                if !same && !f.what.starts_with("deadlock: no progress") {
                    ctx.error(format!("{name}: `{}` is not reproducible: {again}", f.what));
                }
                ctx.fail(
                    &name,
                    f.what.clone(),
                    json!({"schedule": f.schedule, "trace": f.trace, "replayed": again}),
                );
            } else {
                ctx.validated.fetch_add(validate(ctx, s, &ex, &outcomes), SeqCst);
            }
        }
    }
}

/// The free-running code under sequential execution must give a result the exploration has seen
fn validate(ctx: &Ctx, s: &Sample, _ex: &Explorer, outcomes: &std::collections::HashSet<u64>) -> u64 {
    match mcsched::quiet(|| resample(s)) {
        Ok(o) => {
            if !outcomes.contains(&key(s, &o)) && !ctx.capped.load(SeqCst) {
                ctx.error(format!(
                    "{}: sequential result {:?} was not found by the exploration",
                    s.name(),
                    o.weights
                ));
            }
            1
        }
        Err(e) => {
            ctx.error(format!("{}: sequential run fails: {e}", s.name()));
            0
        }
    }
}

/// below any sensible absolute threshold
pub const TINY: f64 = 1. / (1u64 << 62) as f64 / (1u64 << 30) as f64;

pub fn samples(ctx: &Ctx) -> Vec<Sample> {
    let mut v = vec![];
    let second = |c: &[f64]| -> Vec<Vec<f64>> {
        c.iter()
            .enumerate()
            .map(|(i, w)| {
                if crate::MULTI {
                    // an independent named weight
                    vec![*w, (i as f64 + 1.) * if i % 2 == 0 { 0.5 } else { -0.25 }]
                } else {
                    vec![*w]
                }
            })
            .collect()
    };
    let mut add = |c: &[f64], pos: &[f64], strat, max, search| {
        v.push(Sample {
            dist: line(pos),
            weights: second(c),
            strat,
            max,
            search,
        })
    };
    let t = ctx.thorough;
    // no event, one event
    for w in [-1., 0., 2.] {
        add(&[w], &[0.], Strat::Most, None, Search::Tree);
    }
    // two events, all weights
    for w in Odometer::pow(5, 2) {
        let al = [-3., -1., 0., 1., 2.];
        for max in [None, Some(1.), Some(0.5)] {
            for strat in STRATS {
                let c: Vec<f64> = w.iter().map(|i| al[*i]).collect();
                for search in [Search::Tree, Search::Naive, Search::DefaultTree, Search::DefaultNaive] {
                    if search == Search::Tree || strat == Strat::Most {
                        add(&c, &[0., 1.], strat, max, search)
                    }
                }
            }
        }
    }
    // very small and very large weights, alone and together
    for w in Odometer::pow(3, 3) {
        for al in [[-2. * TINY, -TINY, 3. * TINY], [-2. / TINY, 1. / TINY, 2.], [-TINY, 1., -1.5]] {
            let c: Vec<f64> = w.iter().map(|i| al[*i]).collect();
            for search in [Search::Tree, Search::Naive] {
                add(&c, &[0., 1., 3.], Strat::Most, None, search);
            }
            add(&c, &[0., 1., 3.], Strat::Least, Some(2.), Search::Tree);
        }
    }
    // three events
    for w in Odometer::pow(5, 3) {
        let al = [-2., -1., 0., 1., 3.];
        let c: Vec<f64> = w.iter().map(|i| al[*i]).collect();
        for (di, pos) in [[0., 1., 3.], [0., 2., 3.], [1., 0., 2.5]].iter().enumerate() {
            for max in [None, Some(2.)] {
                for (si, strat) in STRATS.iter().enumerate() {
                    for (ni, search) in [Search::Tree, Search::Naive, Search::DefaultTree].iter().enumerate() {
                        // not the full product in the quick tier: every pair of (positions,
                        // strategy) and of (positions, search) occurs
                        if !t && (di + si + ni) % 3 != 0 {
                            continue;
                        }
                        // the default distance needs the first event at 0
                        if *search == Search::DefaultTree && pos[0] != 0. {
                            continue;
                        }
                        add(&c, pos, *strat, max, *search);
                    }
                }
            }
        }
    }
    // four events
    for w in Odometer::pow(4, 4) {
        let al = [-2., -1., 1., 2.];
        let c: Vec<f64> = w.iter().map(|i| al[*i]).collect();
        let neg = c.iter().filter(|x| **x < 0.).count();
        if neg > ctx.by(3, 4) {
            continue;
        }
        for pos in [[0., 1., 3., 4.5], [0., 3., 1., 4.], [0., 1., 2.5, 1.25]] {
            for max in [None, Some(2.5)] {
                add(&c, &pos, Strat::Most, max, Search::Tree);
                if t {
                    add(&c, &pos, Strat::Next, max, Search::Naive);
                }
            }
        }
    }
    // five events: three cells which overlap in different ways
    for w in Odometer::pow(3, 5) {
        let al = [-1., 1., 2.];
        let c: Vec<f64> = w.iter().map(|i| al[*i]).collect();
        let neg = c.iter().filter(|x| **x < 0.).count();
        if neg < 2 || neg > 3 {
            continue;
        }
        for pos in [[0., 1., 3., 4.5, 5.25], [0., 4., 1., 3.5, 2.25]] {
            add(&c, &pos, Strat::Most, None, Search::Tree);
            if t {
                add(&c, &pos, Strat::Least, Some(2.5), Search::Tree);
            }
        }
    }
    // no or many additional weights
    for n in [1, 3, 4, 5, 8, 9, 17, 33, 65, 120] {
        let n = if crate::MULTI { n } else { 1 };
        for c in [[-1., 2., -3., 4.], [-3., 1., -1., 5.], [1., -5., 2., 1.]] {
            let weights = c.iter().enumerate().map(|(i, w)| (0..n).map(|k| if k == 0 { *w } else { ((i * 7 + k * 13) % 11) as f64 - 4. }).collect()).collect();
            v.push(Sample { dist: line(&[0., 1., 3., 4.5]), weights, strat: Strat::Most, max: None, search: Search::Tree });
        }
    }
    v
}

pub fn run(ctx: &Ctx) {
    ctx.assume("locks are the only communication between workers (unsafe accesses outside locks are not scheduling points)");
    ctx.assume("every parallel branch may run in parallel with every other (a superset of rayon's schedules)");
    let v = samples(ctx);
    par_for(&v, |s| explore(ctx, s, Some(ctx.by(20_000, 400_000))));
}
