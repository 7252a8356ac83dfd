//! C06: the distance between events
use crate::ctx::*;
use cres::distance::{Distance, EuclWithScaledPt};
use cres::event::{Event, EventBuilder};
use cres::four_vector::FourVector;
use noisy_float::prelude::*;
use particle_id::ParticleID;
use serde_json::json;

pub type P = [f64; 4];
type Ev = Vec<(i32, P)>;

pub fn build(e: &Ev) -> Event {
    let mut b = EventBuilder::new();
    for (id, p) in e {
        b.add_outgoing(ParticleID::new(*id), FourVector::from([n64(p[0]), n64(p[1]), n64(p[2]), n64(p[3])]));
    }
    b.build()
}

fn norm(p: &P, q: &P, tau: f64) -> f64 {
    let d2 = (1..4).map(|i| (p[i] - q[i]).powi(2)).sum::<f64>();
    let pt = |p: &P| (p[1] * p[1] + p[2] * p[2]).sqrt();
    (d2 + (tau * (pt(p) - pt(q))).powi(2)).sqrt()
}

/// optimal matching by dynamic programming over subsets; every particle may also be matched with
/// nothing, i.e. zero momentum
fn matching(a: &[P], b: &[P], tau: f64) -> f64 {
    let zero = [0.; 4];
    let n = b.len();
    let mut best = vec![f64::INFINITY; 1 << n];
    best[0] = 0.;
    for p in a {
        let mut next = vec![f64::INFINITY; 1 << n];
        for m in 0..1usize << n {
            if best[m].is_infinite() {
                continue;
            }
            let alone = best[m] + norm(p, &zero, tau);
            if alone < next[m] {
                next[m] = alone
            }
            for (j, q) in b.iter().enumerate() {
                if m & (1 << j) == 0 {
                    let c = best[m] + norm(p, q, tau);
                    if c < next[m | (1 << j)] {
                        next[m | (1 << j)] = c
                    }
                }
            }
        }
        best = next;
    }
    (0..1usize << n)
        .map(|m| {
            best[m]
                + (0..n)
                    .filter(|j| m & (1 << j) == 0)
                    .map(|j| norm(&b[j], &zero, tau))
                    .sum::<f64>()
        })
        .fold(f64::INFINITY, f64::min)
}

pub fn reference(a: &Ev, b: &Ev, tau: f64) -> f64 {
    let mut types: Vec<i32> = a.iter().chain(b).map(|x| x.0).collect();
    types.sort_unstable();
    types.dedup();
    types
        .into_iter()
        .map(|t| {
            let f = |e: &Ev| -> Vec<P> { e.iter().filter(|x| x.0 == t).map(|x| x.1).collect() };
            matching(&f(a), &f(b), tau)
        })
        .sum()
}

fn name(what: &str, a: &Ev, b: &Ev, tau: f64) -> String {
    format!("{what}/tau={tau}/{a:?}/{b:?}").replace(' ', "")
}

fn pair(ctx: &Ctx, a: &Ev, b: &Ev, ea: &Event, eb: &Event, tau: f64) {
    if ctx.only.is_some() && !ctx.want(&name("pair", a, b, tau)) {
        return;
    }
    ctx.eval();
    let d = EuclWithScaledPt::new(n64(tau));
    let r = mcsched::quiet(|| (f64::from(d.distance(ea, eb)), f64::from(d.distance(eb, ea))));
    let scale: f64 = a.iter().chain(b).map(|p| norm(&p.1, &[0.; 4], tau)).sum();
    let eps = 1e-10 * scale;
    let bad = match r {
        Err(e) => Some(format!("panic: {e}")),
        Ok((x, y)) => {
            let want = reference(a, b, tau);
            if (x - want).abs() > eps {
                Some(format!("distance {x}, expected {want}"))
            } else if (y - x).abs() > eps {
                Some(format!("not symmetric: {x} and {y}"))
            } else if x < 0. {
                Some(format!("negative distance {x}"))
            } else {
                None
            }
        }
    };
    if let Some(e) = bad {
        ctx.fail(&name("pair", a, b, tau), e, json!({}))
    }
}

/// multisets of size up to `max` of indices 0..n
pub fn multisets(n: usize, max: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for m in &last {
            for i in m.last().copied().unwrap_or(0)..n {
                let mut m = m.clone();
                m.push(i);
                next.push(m)
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

fn pairs(ctx: &Ctx, evs: &[Ev], taus: &[f64]) {
    let built: Vec<Event> = evs.iter().map(build).collect();
    let idx: Vec<usize> = (0..evs.len()).collect();
    par_for(&idx, |i| {
        for j in *i..evs.len() {
            for tau in taus {
                pair(ctx, &evs[*i], &evs[j], &built[*i], &built[j], *tau)
            }
            if i != &j {
                ctx.nontrivial(hash_of(&(evs.len(), i, j)));
            }
        }
        if ctx.stop() {}
    });
}

pub fn run(ctx: &Ctx) {
    ctx.assume("momenta are finite and of moderate size (no overflow of their squares)");
    // the third momentum differs from the first only in energy; one has pt=0, one is zero
    let mom: [P; 6] = [
        [5., 1., 0., 0.],
        [3., 0., -2., 1.],
        [7., 1., 0., 0.],
        [4., 0., 0., -3.5],
        [9., -3., 4., 5.],
        [2., 0., 0., 0.],
    ];
    let generic: Vec<P> = (0..10)
        .map(|i| {
            let x = i as f64 + 1.;
            [100., (7.3 * x).sin() * 50. / x, (3.1 * x * x).cos() * 3. * x, (x * 1.7).sin() * 20.]
        })
        .collect();
    // one type
    let k = 6;
    let evs: Vec<Ev> = multisets(k, 5)
        .into_iter()
        .map(|m| m.into_iter().map(|i| (21, mom[i])).collect())
        .collect();
    ctx.sample(format!("one type, {} events, all pairs, e.g. {:?}", evs.len(), evs[evs.len() / 2]));
    pairs(ctx, &evs, &[0., 0.5, 1., 10.]);
    // very small and very large momenta
    for scale in [1e-30, 1e-9, 1e15] {
        let evs: Vec<Ev> = multisets(k, 3)
            .into_iter()
            .map(|m| m.into_iter().map(|i| (21, mom[i].map(|x| x * scale))).collect())
            .collect();
        pairs(ctx, &evs, &[0., 1.]);
    }
    // many particles, and many of one type: the optimal pairing is known
    many(ctx);
    // one type, generic momenta: all pairs of subsets of 8
    let n = ctx.by(8, 10);
    let evs: Vec<Ev> = (0..1usize << n)
        .map(|m| (0..n).filter(|i| m & (1 << i) != 0).map(|i| (2, generic[i])).collect())
        .filter(|e: &Ev| e.len() <= ctx.by(6, 7))
        .collect();
    ctx.sample(format!("one type, generic momenta, {} events, all pairs", evs.len()));
    pairs(ctx, &evs, &[0., 0.3, 2.]);
    // same with disjoint sets of very different size
    let evs: Vec<Ev> = (0..1usize << 6)
        .map(|m| {
            (0..6)
                .filter(|i| m & (1 << i) != 0)
                .map(|i| {
                    let s = [1e-6, 1e4, 1., 1e-3, 1e6, 1e2][i];
                    (2, generic[i].map(|x| x * s))
                })
                .collect()
        })
        .collect();
    pairs(ctx, &evs, &[0., 1.]);
    // several types
    for types in [[1, 2, 21], [-11, 11, 90], [-1, 22, 13]] {
        let ms = multisets(3, 2);
        let mut evs: Vec<Ev> = vec![];
        for o in Odometer::pow(ms.len(), 3) {
            let mut e: Ev = vec![];
            for (t, m) in types.iter().zip(&o) {
                for i in &ms[*m] {
                    e.push((*t, mom[[0, 1, 4][*i]]))
                }
            }
            if e.len() <= ctx.by(4, 6) {
                evs.push(e)
            }
        }
        ctx.sample(format!("types {types:?}, {} events, all pairs", evs.len()));
        pairs(ctx, &evs, &[0., 1.]);
    }
    triangle(ctx, &mom);
    insertion(ctx, &mom);
}

/// Events with many particles.
///
/// On a line, pairing in order of position is optimal, and missing particles are at zero.
fn many(ctx: &Ctx) {
    for n in [7, 8, 9, 12, 16, 17, 20, 33] {
        for m in [0, 1, n / 2, n - 1, n] {
            for variant in 0..3usize {
                let f = |k: usize, i: usize| -> f64 { (((i * 37 + k * 11 + variant * 5) % 101) as f64 - if variant == 0 { 0. } else { 50. }) * (1. + 1e-3 * k as f64) };
                let a: Vec<f64> = (0..n).map(|i| f(1, i)).collect();
                let b: Vec<f64> = (0..m).map(|i| f(2, i)).collect();
                let ev = |v: &[f64]| -> Ev { v.iter().map(|z| (21, [z.abs(), 0., 0., *z])).collect() };
                let mut x = a.clone();
                let mut y = b.clone();
                y.resize(n, 0.);
                x.sort_by(|a, b| a.partial_cmp(b).unwrap());
                y.sort_by(|a, b| a.partial_cmp(b).unwrap());
                let want: f64 = x.iter().zip(&y).map(|(a, b)| (a - b).abs()).sum();
                let (ea, eb) = (build(&ev(&a)), build(&ev(&b)));
                for tau in [0., 2.] {
                    let name = format!("many/{n}/{m}/{variant}/tau={tau}");
                    if !ctx.want(&name) {
                        continue;
                    }
                    ctx.eval();
                    let d = EuclWithScaledPt::new(n64(tau));
                    match mcsched::quiet(|| (f64::from(d.distance(&ea, &eb)), f64::from(d.distance(&eb, &ea)))) {
                        Ok((p, q)) if (p - want).abs() < 1e-9 * (1. + want) && (q - want).abs() < 1e-9 * (1. + want) => ctx.nontrivial(hash_of(&name)),
                        r => ctx.fail(&name, format!("{r:?}, expected {want}"), json!({})),
                    }
                }
            }
        }
    }
    // many types
    for n in [3, 10, 17, 40] {
        let ev = |k: usize| -> Ev { (0..n).filter(|i| (i * k) % 3 != 1).map(|i| ((i as i32 - n as i32 / 2) * 3, [9., i as f64 + k as f64, k as f64, 1.])).collect() };
        let mut evs: Vec<Ev> = (1..6).map(ev).collect();
        // only some of the types
        let all = ev(3);
        evs.push(vec![]);
        evs.push(all[..1].to_vec());
        evs.push(all[all.len() - 1..].to_vec());
        evs.push(all[all.len() / 2..].to_vec());
        evs.push(all[..all.len() / 2].to_vec());
        pairs(ctx, &evs, &[0., 1.]);
    }
}

fn triangle(ctx: &Ctx, mom: &[P]) {
    let mut evs: Vec<Ev> = multisets(5, 3)
        .into_iter()
        .map(|m| m.into_iter().map(|i| (21, mom[i])).collect())
        .collect();
    for m in multisets(3, 2) {
        for t in [(1, 1), (21, 1), (-11, 21)] {
            evs.push(m.iter().enumerate().map(|(k, i)| (if k == 0 { t.0 } else { t.1 }, mom[*i])).collect())
        }
    }
    for k in 3..=5 {
        evs.push((0..k).map(|i| (21, mom[i])).collect());
        evs.push((0..k).map(|i| (21, mom[5 - i])).collect());
    }
    let built: Vec<Event> = evs.iter().map(build).collect();
    for tau in [0., 1., 5.] {
        let d = EuclWithScaledPt::new(n64(tau));
        let m: Vec<Vec<f64>> = built
            .iter()
            .map(|a| {
                built
                    .iter()
                    .map(|b| mcsched::quiet(|| f64::from(d.distance(a, b))).unwrap_or(f64::NAN))
                    .collect()
            })
            .collect();
        let n = evs.len();
        for i in 0..n {
            if m[i][i] > 1e-12 {
                ctx.fail(&name("self", &evs[i], &evs[i], tau), format!("distance {} to itself", m[i][i]), json!({}))
            }
            for j in 0..n {
                for k in 0..n {
                    ctx.eval();
                    if m[i][j] > m[i][k] + m[k][j] + 1e-9 {
                        ctx.fail(
                            &name("triangle", &evs[i], &evs[j], tau),
                            format!("{} > {} + {} via {:?}", m[i][j], m[i][k], m[k][j], evs[k]),
                            json!({}),
                        )
                    }
                }
            }
        }
    }
}

/// the order of insertion does not matter
fn insertion(ctx: &Ctx, mom: &[P]) {
    let sets: Vec<Ev> = vec![
        vec![(1, mom[0]), (1, mom[1]), (2, mom[4])],
        vec![(21, mom[0]), (1, mom[1]), (21, mom[2]), (1, mom[3])],
        vec![(-11, mom[0]), (11, mom[1]), (-11, mom[4]), (22, mom[1])],
        vec![(21, mom[0]), (21, mom[1]), (21, mom[3]), (21, mom[4])],
        vec![(21, mom[0]), (21, mom[1]), (21, mom[3]), (21, mom[4]), (2, mom[0])],
    ];
    let other: Vec<Ev> = vec![vec![(21, mom[1]), (1, mom[4])], vec![], vec![(21, mom[1]), (21, mom[2]), (21, mom[3]), (21, mom[5])], vec![(11, mom[0]), (2, mom[1])]];
    for s in &sets {
        for o in &other {
            let eo = build(o);
            for tau in [0., 1.] {
                let want = reference(s, o, tau);
                for p in crate::c04::perms(s.len()) {
                    ctx.eval();
                    let e: Ev = p.iter().map(|i| s[*i]).collect();
                    let d = EuclWithScaledPt::new(n64(tau));
                    let built = build(&e);
                    match mcsched::quiet(|| f64::from(d.distance(&built, &eo))) {
                        Ok(x) if (x - want).abs() < 1e-9 => {}
                        r => ctx.fail(&name("insertion", &e, o, tau), format!("{r:?}, expected {want}"), json!({})),
                    }
                }
            }
        }
    }
}
