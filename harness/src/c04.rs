//! C04: one worker, against the reference implementation
use crate::ctx::*;
use crate::res::*;
use serde_json::json;
use std::sync::atomic::Ordering::SeqCst;

fn wts(c: &[f64]) -> Vec<Vec<f64>> {
    c.iter()
        .enumerate()
        .map(|(i, w)| {
            if crate::MULTI {
                vec![*w, [0.5, -1., 4., 0.25, -3.][i % 5] + (i / 5) as f64, *w * *w]
            } else {
                vec![*w]
            }
        })
        .collect()
}

/// compare the real resampler with the reference
pub fn compare(s: &Sample, o: &Outcome) -> Result<(), String> {
    let n = s.weights.len();
    if o.ids != (0..n).collect::<Vec<_>>() {
        return Err(format!("events {:?} came back instead of 0..{n}", o.ids));
    }
    let refs = reference(s);
    // rounding is relative to the largest numbers that were added up
    let nw = s.weights.first().map_or(0, |w| w.len());
    let size: Vec<f64> = (0..nw).map(|c| largest(s.weights.iter().map(|w| w[c]))).collect();
    let dsize = largest(s.dist.iter().flatten().copied());
    let observed = matches!(s.search, Search::Tree | Search::Naive);
    let mut why = String::new();
    for (w, cells) in &refs {
        let used: std::collections::HashSet<usize> = cells.iter().flat_map(|c| c.members.iter().copied()).collect();
        let same_w = w.len() == o.weights.len()
            && w.iter().zip(&o.weights).enumerate().all(|(i, (a, b))| {
                a.len() == b.len()
                    && a.iter().zip(b).zip(&size).all(|((a, b), size)| {
                        if used.contains(&i) {
                            close_to(*a, *b, *size)
                        } else {
                            a.to_bits() == b.to_bits()
                        }
                    })
            });
        if !same_w {
            why = format!("weights {:?}, expected {w:?}", o.weights);
            continue;
        }
        if observed {
            let same_c = cells.len() == o.cells.len()
                && cells.iter().zip(&o.cells).all(|(a, b)| {
                    a.members == b.members && close_to(a.radius, b.radius, dsize) && close_to(a.weight, b.weight, size[0])
                });
            if !same_c {
                why = format!("observed cells {:?}, expected {cells:?}", o.cells);
                continue;
            }
            if o.finished != 1 {
                why = format!("finish() of the observer was called {} times", o.finished);
                continue;
            }
        }
        return Ok(());
    }
    Err(format!("{why} ({} possible results because of ties)", refs.len()))
}

pub fn one(ctx: &Ctx, s: &Sample) {
    let name = s.name();
    if !ctx.want(&name) {
        return;
    }
    ctx.eval();
    match mcsched::quiet(|| resample(s)) {
        Err(e) => ctx.fail(&name, format!("panic: {e}"), json!({})),
        Ok(o) => {
            if o.weights != s.weights {
                ctx.nontrivial(hash_of(&name));
            }
            if o.cells.len() > 1 {
                ctx.sample(format!("{name} -> {:?}", o.cells));
            }
            if let Err(e) = compare(s, &o) {
                ctx.fail(&name, e, json!({"result": format!("{:?}", o.weights), "cells": format!("{:?}", o.cells)}))
            }
            ctx.validated.fetch_add(1, SeqCst);
        }
    }
}

pub fn metrics(ctx: &Ctx, n: usize) -> Vec<Vec<Vec<f64>>> {
    let mut v = vec![];
    match n {
        0..=2 => v.push(line(&[0., 1.][..n])),
        3 => {
            for u in Odometer::pow(4, 3) {
                let al = [0., 1., 2., 3.];
                let m = matrix(3, &u.iter().map(|i| al[*i]).collect::<Vec<_>>());
                if is_pseudometric(&m) {
                    v.push(m)
                }
            }
        }
        4 => {
            let al: &[f64] = ctx.by(&[1., 2.], &[1., 1.5, 2.]);
            for u in Odometer::pow(al.len(), 6) {
                v.push(matrix(4, &u.iter().map(|i| al[*i]).collect::<Vec<_>>()));
            }
            for p in perms(4) {
                let pos = [0., 1., 3., 4.5];
                v.push(line(&p.iter().map(|i| pos[*i]).collect::<Vec<_>>()));
                let pos = [0., 1., 1., 2.5];
                v.push(line(&p.iter().map(|i| pos[*i]).collect::<Vec<_>>()));
            }
        }
        _ => {
            for (k, p) in perms(5).into_iter().enumerate() {
                if !ctx.thorough && k % 6 != 0 {
                    continue;
                }
                let pos = [0., 1., 3., 4.5, 8.];
                v.push(line(&p.iter().map(|i| pos[*i]).collect::<Vec<_>>()));
                let pos = [0., 2.25, 3., 3.5, 5.];
                v.push(line(&p.iter().map(|i| pos[*i]).collect::<Vec<_>>()));
            }
        }
    }
    v
}

pub fn perms(n: usize) -> Vec<Vec<usize>> {
    fn rec(n: usize, acc: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if acc.len() == n {
            out.push(acc.clone());
            return;
        }
        for i in 0..n {
            if !acc.contains(&i) {
                acc.push(i);
                rec(n, acc, out);
                acc.pop();
            }
        }
    }
    let mut out = vec![];
    rec(n, &mut vec![], &mut out);
    out
}

/// larger samples with different distances and weights
pub fn large(n: usize, variant: usize) -> Sample {
    // a fixed quadratic sequence: no two distances or weights are equal
    let pos: Vec<f64> = (0..n).map(|i| ((i * 37 + variant * 11) % 509) as f64 * (1. + 1e-3 * i as f64) + 1e-6 * (i * i) as f64).collect();
    let c: Vec<f64> = (0..n)
        .map(|i| {
            let m = ((i * 53 + 7 * variant) % 211) as f64 + 1. + 1e-3 * i as f64;
            if (i * 29 + variant) % 3 != 0 {
                -m
            } else {
                [1.5, 3.] [variant % 2] * m
            }
        })
        .collect();
    Sample {
        dist: line(&pos),
        weights: wts(&c),
        strat: STRATS[variant % 3],
        max: [None, Some(20.), Some(100.)][(variant / 3) % 3],
        search: [Search::Tree, Search::Naive][(variant / 9) % 2],
    }
}

pub fn run(ctx: &Ctx) {
    let mut jobs = vec![];
    for n in 0..=5 {
        for m in metrics(ctx, n) {
            jobs.push((n, m))
        }
    }
    par_for(&jobs, |(n, m)| {
        let al: &[f64] = match n {
            0..=3 => &[-2.5, -2., -1., 0., 1., 3., 1e-3],
            4 => &[-2., -1., 0., 1., 3.],
            _ => {
                if ctx.thorough {
                    &[-2., -1., 1., 3.]
                } else {
                    &[-2., -1.5, 2.5]
                }
            }
        };
        for w in Odometer::pow(al.len(), *n) {
            let c: Vec<f64> = w.iter().map(|i| al[*i]).collect();
            if !ctx.thorough && *n == 4 && c.iter().filter(|w| **w < 0.).count() > 3 {
                continue;
            }
            for strat in STRATS {
                for max in [None, Some(1.), Some(2.)] {
                    for search in [Search::Tree, Search::Naive] {
                        if ctx.stop() {
                            return;
                        }
                        one(ctx, &Sample { dist: m.clone(), weights: wts(&c), strat, max, search });
                    }
                }
            }
        }
    });
    // tiny and huge weights and distances, alone and together with others
    use crate::c010203::TINY;
    let als: [[f64; 4]; 4] = [[-2. * TINY, -TINY, 3. * TINY, 0.], [-2. / TINY, -1. / TINY, 2.5 / TINY, 1.], [-1., -TINY, 1.5, TINY], [-3., -TINY, 1., -1. / (1u64 << 45) as f64]];
    let jobs: Vec<Vec<usize>> = Odometer::pow(4, 4).collect();
    par_for(&jobs, |w| {
        for al in als {
            let c: Vec<f64> = w.iter().map(|i| al[*i]).collect();
            let e = 1. / (1u64 << 40) as f64;
            for (pi, pos) in [[0., 1., 3., 4.5], [0., 1., 1. + e, 1. - e], [0., e, 3. * e, -e * 2.5], [0., 1. / e, -1.5 / e, 1.]].iter().enumerate() {
                for max in [None, Some([2., 1., e * 2., 1. / e][pi])] {
                    for (search, strat) in [(Search::Tree, Strat::Most), (Search::Naive, Strat::Least), (Search::Tree, Strat::Next)] {
                        if ctx.stop() {
                            return;
                        }
                        one(ctx, &Sample { dist: line(pos), weights: wts(&c), strat, max, search });
                    }
                }
            }
        }
    });
    // no or many additional weights
    for n in if crate::MULTI { vec![1, 2, 4, 7, 8, 9, 16, 17, 32, 33, 64, 65, 100, 130, 257] } else { vec![] } {
        for c in [[-1., 2., -3., 4.], [-3., 1., -1., 5.], [1., -5., 2., 1.]] {
            let weights: Vec<Vec<f64>> = c.iter().enumerate().map(|(i, w)| (0..n).map(|k| if k == 0 { *w } else { ((i * 7 + k * 13) % 11) as f64 - 4. }).collect()).collect();
            for search in [Search::Tree, Search::Naive] {
                for max in [None, Some(2.)] {
                    one(ctx, &Sample { dist: line(&[0., 1., 3., 4.5]), weights: weights.clone(), strat: Strat::Most, max, search });
                }
            }
        }
    }
    // the default resampler (events on a line, distances from the first event)
    let al = [-2., -1., 0., 1., 3.];
    let jobs: Vec<Vec<usize>> = Odometer::pow(5, 4).collect();
    par_for(&jobs, |w| {
        let c: Vec<f64> = w.iter().map(|i| al[*i]).collect();
        for pos in [[0., 1., 3., 4.5], [0., 3., 1., 4.], [0., 1., 2.5, 1.25], [0., 4., 3., 1.5]] {
            for strat in STRATS {
                for max in [None, Some(2.)] {
                    for search in [Search::DefaultTree, Search::DefaultNaive] {
                        if ctx.stop() {
                            return;
                        }
                        one(ctx, &Sample { dist: line(&pos), weights: wts(&c), strat, max, search });
                    }
                }
            }
        }
    });
    // the default resampler with a contribution of the transverse momentum
    let pts: [[(f64, f64, f64); 4]; 3] = [
        [(1., 0., 0.), (0., 1., 0.), (3., 0., 0.5), (0., -2.5, 1.)],
        [(1., 0., 2.), (0., 1., -2.), (2., 0., 2.), (-1., 0., 2.)],
        [(0., 3., 0.), (4., 0., 0.), (3., 4., 1.), (-3.5, 0., 0.)],
    ];
    let jobs: Vec<Vec<usize>> = Odometer::pow(3, 4).collect();
    par_for(&jobs, |w| {
        let c: Vec<f64> = w.iter().map(|i| [-2., -1., 3.][*i]).collect();
        for (pi, pt) in pts.iter().enumerate() {
            for tau in [0., 0.5, 1., 3.] {
                for max in [None, Some(2.5), Some(4.)] {
                    for strat in STRATS {
                        if ctx.stop() {
                            return;
                        }
                        default_pt(ctx, pi, pt, &c, tau, max, strat)
                    }
                }
            }
        }
    });
    // many events
    let mut jobs = vec![];
    for n in [1009, 4099, 70_001] {
        for max in [None, Some(6.5)] {
            for strat in if n > 10_000 { &STRATS[..1] } else { &STRATS[..] } {
                jobs.push((n, max, *strat))
            }
        }
    }
    par_for(&jobs, |(n, max, strat)| huge(ctx, *n, *max, *strat));
    // more seeds than fit in one task
    let jobs: Vec<Sample> = [20, 70, 150, 260]
        .into_iter()
        .flat_map(|n| (0..18).map(move |v| large(n, v)))
        .collect();
    par_for(&jobs, |s| {
        let mut s2 = s.clone();
        s2.dist.clear();
        let name = format!("large-{}-{:x}", s.weights.len(), hash_of(&s.name()));
        if !ctx.want(&name) || ctx.stop() {
            return;
        }
        ctx.eval();
        match mcsched::quiet(|| resample(s)) {
            Err(e) => ctx.fail(&name, format!("panic: {e}"), json!({})),
            Ok(o) => {
                ctx.nontrivial(hash_of(&name));
                if let Err(e) = compare(s, &o) {
                    let mut e = e;
                    e.truncate(4000);
                    ctx.fail(&name, e, json!({"sample": s.name()}))
                }
            }
        }
    });
}

/// A sample with very many events on a line, a few of them with negative weights
fn huge(ctx: &Ctx, n: usize, max: Option<f64>, strat: Strat) {
    use cres::resampler::DefaultResamplerBuilder;
    use cres::traits::Resample;
    let name = format!("huge{n}/{max:?}/{strat:?}");
    if !ctx.want(&name) || ctx.stop() {
        return;
    }
    ctx.eval();
    // no two distances from an event are the same
    let pos = |i: usize| (i * 7919 % n) as f64 + 0.2 * (i as f64 / n as f64).powi(2);
    let neg = |i: usize| i % (n / 8) == n / 8 - 1 || i == 255 || i == 256 || i == n - 1;
    let old: Vec<Vec<f64>> = wts(&(0..n).map(|i| if neg(i) { -(20. + (i % 13) as f64 + i as f64 / n as f64) } else { 1. + (i % 5) as f64 }).collect::<Vec<_>>());
    let mut seeds: Vec<usize> = (0..n).filter(|i| neg(*i)).collect();
    match strat {
        Strat::Most => seeds.sort_by(|a, b| old[*a][0].partial_cmp(&old[*b][0]).unwrap()),
        Strat::Least => seeds.sort_by(|a, b| old[*b][0].partial_cmp(&old[*a][0]).unwrap()),
        Strat::Next => {}
    }
    let mut want = old.clone();
    let mut touched = std::collections::HashSet::new();
    for s in seeds {
        if want[s][0] >= 0. {
            continue;
        }
        let mut near: Vec<(f64, usize)> = (0..n).filter(|i| *i != s).map(|i| ((pos(i) - pos(s)).abs(), i)).collect();
        near.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let mut cell = vec![s];
        let mut sum = want[s][0];
        for (d, i) in near {
            if sum >= 0. || max.is_some_and(|m| d > m) {
                break;
            }
            sum += want[i][0];
            cell.push(i);
        }
        for k in 0..want[s].len() {
            let mean = cell.iter().map(|i| want[*i][k]).sum::<f64>() / cell.len() as f64;
            for i in &cell {
                want[*i][k] = mean
            }
        }
        touched.extend(cell);
    }
    let events: Vec<_> = (0..n).map(|i| mkevent(i, &old[i], pos(i))).collect();
    let res = mcsched::quiet(|| DefaultResamplerBuilder::default().strategy(strat.real()).max_cell_size(max).build().resample(events).unwrap());
    let got = match res {
        Err(p) => return ctx.fail(&name, format!("panic: {p}"), json!({})),
        Ok(g) => g,
    };
    ctx.nontrivial(hash_of(&name));
    if got.len() != n {
        return ctx.fail(&name, format!("{} events", got.len()), json!({}));
    }
    for (i, e) in got.iter().enumerate() {
        let w = weights_of(e);
        let ok = e.id == i
            && w.len() == want[i].len()
            && w.iter().zip(&want[i]).all(|(a, b)| if touched.contains(&i) { close_to(*a, *b, 1e10) } else { a == b });
        if !ok {
            return ctx.fail(&name, format!("event {i} (id {}) has weights {w:?} instead of {:?}", e.id, want[i]), json!({}));
        }
    }
}

/// `DefaultResampler` with a factor for the transverse momentum, and with an own initial collector
fn default_pt(ctx: &Ctx, pi: usize, pts: &[(f64, f64, f64)], c: &[f64], tau: f64, max: Option<f64>, strat: Strat) {
    use cres::event::EventBuilder;
    use cres::four_vector::FourVector;
    use cres::resampler::DefaultResamplerBuilder;
    use cres::traits::Resample;
    use noisy_float::prelude::*;
    let pt = |p: &(f64, f64, f64)| (p.0 * p.0 + p.1 * p.1).sqrt();
    let dist: Vec<Vec<f64>> = pts
        .iter()
        .map(|a| {
            pts.iter()
                .map(|b| {
                    let d2 = (a.0 - b.0).powi(2) + (a.1 - b.1).powi(2) + (a.2 - b.2).powi(2);
                    (d2 + (tau * (pt(a) - pt(b))).powi(2)).sqrt()
                })
                .collect()
        })
        .collect();
    let s = Sample { dist, weights: wts(c), strat, max, search: Search::DefaultTree };
    let name = format!("pt{pi}/tau={tau}/w={c:?}/{strat:?}/max={max:?}").replace(' ', "");
    if !ctx.want(&name) {
        return;
    }
    ctx.eval();
    let events: Vec<_> = pts
        .iter()
        .zip(&s.weights)
        .enumerate()
        .map(|(i, (p, w))| {
            let mut b = EventBuilder::new();
            b.add_outgoing(
                particle_id::ParticleID::new(21),
                FourVector::from([n64((p.0 * p.0 + p.1 * p.1 + p.2 * p.2).sqrt()), n64(p.0), n64(p.1), n64(p.2)]),
            );
            for w in w {
                b.add_weight(n64(*w));
            }
            let mut e = b.build();
            e.id = i;
            e
        })
        .collect();
    let r = mcsched::quiet(|| {
        let ev = DefaultResamplerBuilder::default()
            .ptweight(tau)
            .strategy(strat.real())
            .max_cell_size(max)
            .build()
            .resample(events)
            .unwrap();
        Outcome {
            ids: ev.iter().map(|e| e.id).collect(),
            outgoing: vec![],
            weights: ev.iter().map(weights_of).collect(),
            cells: vec![],
            finished: 1,
        }
    });
    match r {
        Err(e) => ctx.fail(&name, format!("panic: {e}"), json!({})),
        Ok(o) => {
            if o.weights != s.weights {
                ctx.nontrivial(hash_of(&name));
            }
            if let Err(e) = compare(&s, &o) {
                ctx.fail(&name, e, json!({}))
            }
        }
    }
}
