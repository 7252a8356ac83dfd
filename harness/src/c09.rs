//! C09: unweighting, with every sequence of random draws from a grid
use crate::ctx::*;
use crate::memio::*;
use crate::res::*;
use cres::event::Event;
use cres::traits::Unweight;
use cres::unweight::{NoUnweighter, Unweighter, NO_UNWEIGHTING};
use rand::RngCore;
use serde_json::json;
use std::cell::Cell;
use std::rc::Rc;

/// a random number generator which returns given fractions of its range
struct Draws {
    vals: Vec<f64>,
    used: Rc<Cell<usize>>,
}
impl Draws {
    fn frac(&mut self) -> f64 {
        let n = self.used.get();
        self.used.set(n + 1);
        // more draws than events would be wrong, and is reported as such
        self.vals.get(n).copied().unwrap_or(0.5)
    }
}
impl RngCore for Draws {
    fn next_u32(&mut self) -> u32 {
        (self.frac() * 4294967296.) as u32
    }
    fn next_u64(&mut self) -> u64 {
        (self.frac() * 18446744073709551616.) as u64
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let b = self.next_u64().to_le_bytes();
            c.copy_from_slice(&b[..c.len()])
        }
    }
}

/// (kept events with their weights after raising), for the two treatments of |w| = threshold
fn reference(w: &[f64], min: f64, draws: &[f64], draw_at_threshold: bool) -> (Vec<(usize, f64)>, usize) {
    let mut kept = vec![];
    let mut used = 0;
    for (i, w) in w.iter().enumerate() {
        let a = w.abs();
        if a > min {
            kept.push((i, 1.));
        } else if a == min {
            if draw_at_threshold {
                used += 1
            }
            kept.push((i, 1.))
        } else {
            if draws[used] * min < a {
                kept.push((i, min / a))
            }
            used += 1;
        }
    }
    (kept, used)
}

fn full_weights(w: &[f64]) -> Vec<Vec<f64>> {
    many_weights(w, 3)
}

fn many_weights(w: &[f64], n: usize) -> Vec<Vec<f64>> {
    w.iter()
        .enumerate()
        .map(|(i, w)| (0..if crate::MULTI { n } else { 1 }).map(|k| match k { 0 => *w, 2 => -0.5, _ => k as f64 + 2. + i as f64 }).collect())
        .collect()
}

fn judge(w: &[Vec<f64>], min: f64, draws: &[f64], got: &[(usize, Vec<f64>)], used: usize) -> Result<(), String> {
    if min == 0. || w.is_empty() {
        let same = got.len() == w.len() && got.iter().zip(w.iter().enumerate()).all(|(g, (i, w))| g.0 == i && g.1 == *w);
        return if same { Ok(()) } else { Err(format!("zero threshold, but {got:?}")) };
    }
    let c: Vec<f64> = w.iter().map(|w| w[0]).collect();
    let mut why = String::new();
    for at in [false, true] {
        let (kept, n) = reference(&c, min, draws, at);
        let ids: Vec<usize> = kept.iter().map(|k| k.0).collect();
        let mut got_ids: Vec<usize> = got.iter().map(|g| g.0).collect();
        got_ids.sort_unstable();
        if ids != got_ids {
            why = format!("kept {got_ids:?}, expected {ids:?}");
            continue;
        }
        if n != used {
            why = format!("{used} random numbers for {n} decisions");
            continue;
        }
        if let Some(g) = got.iter().find(|g| g.1.iter().any(|x| !x.is_finite())) {
            return Err(format!("event {} has weights {:?}", g.0, g.1));
        }
        let orig: f64 = c.iter().sum();
        let raised: Vec<f64> = kept.iter().map(|(i, f)| c[*i] * f).collect();
        let size = largest(c.iter().copied()).max(min);
        // all sums of such numbers are exact
        let exact = raised.iter().all(|r| (r / min * 1024.).fract() == 0.);
        let raised: f64 = raised.iter().sum();
        if raised.abs() < 1e-9 * size {
            // the sum cannot be preserved; the weights stay as they are if it is really zero
            if exact && raised == 0. {
                for (i, f) in &kept {
                    let g = &got.iter().find(|g| g.0 == *i).unwrap().1;
                    if g.len() != w[*i].len() || g.iter().zip(&w[*i]).any(|(a, b)| !close_to(*a, b * f, (b * f).abs())) {
                        return Err(format!("no common factor, but event {i} has weights {g:?}, expected {:?} * {f}", w[*i]));
                    }
                }
            }
            return Ok(());
        }
        let sum: f64 = got.iter().map(|g| g.1[0]).sum();
        if !close_to(sum, orig, 10. * size * (1. + (orig / raised).abs())) {
            return Err(format!("sum {sum}, was {orig}"));
        }
        for (i, f) in kept {
            let g = &got.iter().find(|g| g.0 == i).unwrap().1;
            if g.len() != w[i].len() {
                return Err(format!("event {i} has weights {g:?}"));
            }
            for (a, b) in g.iter().zip(&w[i]) {
                let want = b * f * orig / raised;
                if !close_to(*a, want, 100. * (b * f).abs() * (size + orig.abs()) / raised.abs()) {
                    return Err(format!("event {i} has weights {g:?}, expected {:?} * {}", w[i], f * orig / raised));
                }
            }
        }
        return Ok(());
    }
    Err(why)
}

fn sample(w: &[Vec<f64>]) -> Vec<Event> {
    w.iter().enumerate().map(|(i, w)| mkevent(i, w, 1. + i as f64)).collect()
}

fn one(ctx: &Ctx, c: &[f64], min: f64, draws: &[f64], nw: usize) {
    let name = || format!("w={c:?}/min={min}/draws={draws:?}/{nw}").replace(' ', "");
    if ctx.only.is_some() && !ctx.want(&name()) {
        return;
    }
    ctx.eval();
    let w = many_weights(c, nw);
    let used = Rc::new(Cell::new(0));
    let r = mcsched::quiet(|| {
        let mut u = Unweighter::new(min, Draws { vals: draws.to_vec(), used: used.clone() });
        u.unweight(sample(&w)).unwrap().iter().map(|e| (e.id, weights_of(e))).collect::<Vec<_>>()
    });
    match r {
        Err(e) => ctx.fail(&name(), format!("panic: {e}"), json!({})),
        Ok(got) => {
            if min != 0. && c.iter().any(|x| x.abs() < min) {
                ctx.nontrivial(hash_of(&name()));
            }
            if let Err(e) = judge(&w, min, draws, &got, used.get()) {
                ctx.fail(&name(), e, json!({"result": format!("{got:?}")}))
            }
        }
    }
}

/// the weights that reach the output
fn written(ctx: &Ctx, recs: &[Rec], min: f64, draws: &[f64]) {
    let name = format!("run/{recs:?}/min={min}/draws={draws:?}").replace(' ', "");
    if !ctx.want(&name) {
        return;
    }
    ctx.eval();
    struct Keep;
    impl cres::traits::Resample for Keep {
        type Error = MemErr;
        fn resample(&mut self, e: Vec<Event>) -> Result<Vec<Event>, MemErr> {
            Ok(e)
        }
    }
    let used = Rc::new(Cell::new(0));
    let r = mcsched::quiet(|| {
        run_with(recs, Keep, Unweighter::new(min, Draws { vals: draws.to_vec(), used: used.clone() }), false)
    });
    let got = match r {
        Err(e) => return ctx.fail(&name, format!("panic: {e}"), json!({})),
        Ok(r) => match (r.result, r.written) {
            (Ok(()), Some(w)) => w,
            (r, w) => return ctx.fail(&name, format!("run gave {r:?}, {w:?}"), json!({})),
        },
    };
    ctx.nontrivial(hash_of(&name));
    let verdict = || -> Result<(), String> {
        if got.len() != recs.len() {
            return Err(format!("{} weights", got.len()));
        }
        let mut orig = vec![];
        let mut fin = vec![];
        let mut ids = vec![];
        for (i, (r, g)) in recs.iter().zip(&got).enumerate() {
            match r {
                Rec::Ev(_, w) => {
                    let full = rec_weights(*w, i);
                    if g.len() != full.len() {
                        return Err(format!("record {i} gets the weights {g:?}, so it keeps its old ones"));
                    }
                    if g.iter().any(|x| *x != 0.) {
                        fin.push((ids.len(), g.clone()));
                    }
                    ids.push(i);
                    orig.push(full);
                }
                Rec::Empty(w) => {
                    if !g.is_empty() && *g != rec_weights(*w, i) {
                        return Err(format!("the weight of record {i} without particles changed to {g:?}"));
                    }
                }
                _ => {}
            }
        }
        if min != 0. && orig.iter().map(|w| w[0]).sum::<f64>() == 0. {
            // the common rescaling sets everything to zero (or nothing survives)
            return Ok(());
        }
        // events of weight zero cannot be told from those that were kept
        judge(&orig, min, draws, &fin, used.get())
    };
    if let Err(e) = verdict() {
        ctx.fail(&name, e, json!({"written": format!("{got:?}")}))
    }
}

pub fn run(ctx: &Ctx) {
    ctx.assume("one random number per decision; each is one of the midpoints of a grid of the unit interval");
    for n in 0..=ctx.by(4, 5) {
        let al: &[f64] = if n == 5 { &[-3., 1., 3., 5.] } else if n < 4 { &[-8., -4., -3., -1., 0., 1., 2., 3., 4., 5.] } else { &[-4., -1., 0., 1., 3., 5.] };
        let grid = if n < 3 { 8 } else { 4 };
        let jobs: Vec<Vec<usize>> = Odometer::pow(al.len(), n).collect();
        par_for(&jobs, |o| {
            let c: Vec<f64> = o.iter().map(|i| al[*i]).collect();
            for min in [0., 1., 4., 2.] {
                for d in Odometer::pow(grid, n) {
                    if ctx.stop() {
                        return;
                    }
                    let d: Vec<f64> = d.iter().map(|i| (*i as f64 + 0.5) / grid as f64).collect();
                    // a draw within rounding of a share decides nothing
                    if c.iter().any(|w| min > 0. && d.iter().any(|d| (d - w.abs() / min).abs() < 1e-6)) {
                        continue;
                    }
                    one(ctx, &c, min, &d, 3);
                    if n == 2 {
                        // another number or another size of the weights
                        for nw in [1, 2, 5, 9, 17, 40, 101] {
                            one(ctx, &c, min, &d, nw);
                        }
                        // next to much larger ones
                        for (at, big) in [(0, 2e4), (2, -3e5), (1, 1e9)] {
                            let mut c = c.clone();
                            c.insert(at, big);
                            one(ctx, &c, min, &d, 3);
                        }
                        for scale in [1. / (1u64 << 60) as f64, (1u64 << 60) as f64, 1e-9] {
                            let c: Vec<f64> = c.iter().map(|x| x * scale).collect();
                            one(ctx, &c, min * scale, &d, 3);
                        }
                    }
                    if min == 0. {
                        break;
                    }
                }
            }
        });
    }
    // no unweighting at all
    for c in Odometer::pow(3, 3) {
        let w = full_weights(&c.iter().map(|i| [-1., 0., 2.][*i]).collect::<Vec<_>>());
        for k in 0..2 {
            ctx.eval();
            let r = mcsched::quiet(|| {
                let e = if k == 0 { NoUnweighter {}.unweight(sample(&w)).unwrap() } else { let mut n = NO_UNWEIGHTING; n.unweight(sample(&w)).unwrap() };
                e.iter().map(weights_of).collect::<Vec<_>>()
            });
            if r.as_ref() != Ok(&w) {
                ctx.fail(&format!("none/{c:?}"), format!("{r:?}, was {w:?}"), json!({}))
            }
        }
    }
    // complete runs
    let kinds = [Rec::Ev(1., 1.), Rec::Ev(2., 3.), Rec::Ev(3., -1.), Rec::Ev(4., 6.), Rec::Empty(2.), Rec::Empty(-7.)];
    let jobs: Vec<Vec<usize>> = (0..=ctx.by(4, 5)).flat_map(|n| Odometer::pow(kinds.len(), n)).collect();
    par_for(&jobs, |o| {
        let recs: Vec<Rec> = o.iter().map(|i| kinds[*i]).collect();
        let nev = recs.iter().filter(|r| matches!(r, Rec::Ev(..))).count();
        for min in [0., 4., 1.] {
            for d in Odometer::pow(4, nev) {
                if ctx.stop() {
                    return;
                }
                let d: Vec<f64> = d.iter().map(|i| (*i as f64 + 0.5) / 4.).collect();
                written(ctx, &recs, min, &d);
                if min == 0. {
                    break;
                }
            }
        }
    });
}
