//! C05: nearest-neighbour search
use crate::c04::perms;
use crate::ctx::*;
use crate::res::*;
use cres::neighbour_search::{NaiveNeighbourSearch, NeighbourSearch, NeighbourSearchAlgo, TreeSearch};
use cres::vptree::VPTree;
use mcsched::{End, Explorer};
use noisy_float::prelude::*;
use rayon::prelude::*;
use serde_json::json;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;

type M = Arc<Vec<Vec<f64>>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Alg {
    Naive,
    Tree,
    /// `VPTree` built over all points except the query
    SeqNew,
    ParNew,
    New,
    FromIter,
    FromParIter,
}
const ALGS: [Alg; 7] = [Alg::Tree, Alg::Naive, Alg::SeqNew, Alg::ParNew, Alg::New, Alg::FromIter, Alg::FromParIter];

/// all neighbours of every query; two more calls after the end
fn search(alg: Alg, m: &M, pts: &[usize], queries: &[usize], max: Option<f64>) -> Vec<Vec<(usize, f64)>> {
    let d = MatrixDist(m.clone());
    let max = max.map_or(n64(f64::MAX), n64);
    fn drain(mut it: impl Iterator<Item = (usize, N64)>, n: usize) -> Vec<(usize, f64)> {
        let mut v = vec![];
        while let Some((i, d)) = it.next() {
            v.push((i, f64::from(d)));
            if v.len() > n + 1 {
                return v;
            }
        }
        for _ in 0..2 {
            if let Some((i, d)) = it.next() {
                v.push((i, f64::from(d)))
            }
        }
        v
    }
    let n = pts.len();
    macro_rules! tree {
        ($e:expr) => {{
            let t = $e.with_max_dist(max);
            queries.iter().map(|q| drain(t.nearest_in(q), n)).collect()
        }};
    }
    match alg {
        Alg::Naive => {
            assert!(pts.iter().copied().eq(0..n));
            let s = NaiveNeighbourSearch::new_with_dist(n, d, max);
            queries.iter().map(|q| drain((&s).nearest(q), n)).collect()
        }
        Alg::Tree => {
            assert!(pts.iter().copied().eq(0..n));
            let s = TreeSearch::new_with_dist(n, d, max);
            queries.iter().map(|q| drain((&s).nearest(q), n)).collect()
        }
        Alg::SeqNew => tree!(VPTree::seq_new(pts.to_vec(), d)),
        Alg::ParNew => tree!(VPTree::par_new(pts.to_vec(), d)),
        Alg::New => tree!(VPTree::new(pts.to_vec(), d)),
        Alg::FromIter => tree!(VPTree::from_iter_with_dist(pts.iter().copied(), d)),
        Alg::FromParIter => tree!(VPTree::from_par_iter_with_dist(pts.to_vec().into_par_iter(), d)),
    }
}

fn judge(m: &M, pts: &[usize], q: usize, max: Option<f64>, got: &[(usize, f64)]) -> Result<(), String> {
    let mut want: Vec<(f64, usize)> = pts
        .iter()
        .filter(|p| **p != q)
        .map(|p| (m[q][*p], *p))
        .filter(|(d, _)| max.is_none_or(|x| *d <= x))
        .collect();
    want.sort_by(|a, b| a.partial_cmp(b).unwrap());
    for w in got.windows(2) {
        if w[0].1 > w[1].1 {
            return Err(format!("query {q}: {got:?} is not in order of distance"));
        }
    }
    let mut g: Vec<(f64, usize)> = got.iter().map(|(i, d)| (*d, *i)).collect();
    g.sort_by(|a, b| a.partial_cmp(b).unwrap());
    if g != want {
        return Err(format!("query {q}: found {g:?}, expected {want:?} (as (distance, point))"));
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn one(ctx: &Ctx, what: &str, alg: Alg, m: &M, pts: &[usize], queries: &[usize], max: Option<f64>) {
    let name = || format!("{what}/{alg:?}/pts={pts:?}/max={max:?}").replace(' ', "");
    if ctx.only.is_some() && !ctx.want(&name()) {
        return;
    }
    ctx.eval();
    let short = |s: String| s.chars().take(1500).collect::<String>();
    match mcsched::quiet(|| search(alg, m, pts, queries, max)) {
        Err(e) => ctx.fail(&name(), format!("panic: {e}"), json!({})),
        Ok(r) => {
            for (q, got) in queries.iter().zip(&r) {
                if got.len() > 1 && m.len() < 100 {
                    ctx.nontrivial(hash_of(&(what, alg, pts, q, max.map(f64::to_bits))));
                }
                if let Err(e) = judge(m, pts, *q, max, got) {
                    ctx.fail(&name(), short(e), json!({"distances": if m.len() < 10 {format!("{m:?}")} else {what.to_string()}}));
                    return;
                }
            }
        }
    }
}

fn all_metrics(n: usize, al: &[f64]) -> Vec<M> {
    Odometer::pow(al.len(), n * (n - 1) / 2)
        .map(|u| matrix(n, &u.iter().map(|i| al[*i]).collect::<Vec<_>>()))
        .filter(|m| is_pseudometric(m))
        .map(Arc::new)
        .collect()
}

fn label(m: &M) -> String {
    m.iter()
        .enumerate()
        .map(|(i, r)| r[i + 1..].iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
        .collect::<Vec<_>>()
        .join("|")
}

/// named large point sets in the plane
pub fn large(n: usize, kind: usize) -> M {
    let p: Vec<(f64, f64)> = (0..n)
        .map(|i| {
            let x = i as f64;
            match kind {
                0 => (x, 0.),
                1 => ((i % 32) as f64, (i / 32) as f64),
                2 => (1., 1.),
                3 => (((i * 7919) % n) as f64, ((i * 104729) % 1009) as f64),
                4 => (if i % 2 == 0 { 0. } else { 1000. }, (i % 5) as f64),
                _ => (-(x * x), x),
            }
        })
        .collect();
    Arc::new(
        p.iter()
            .map(|a| p.iter().map(|b| ((a.0 - b.0).powi(2) + (a.1 - b.1).powi(2)).sqrt()).collect())
            .collect(),
    )
}

pub fn run(ctx: &Ctx) {
    ctx.assume("distances are finite and symmetric and satisfy the triangle inequality exactly or up to rounding");
    let mut ms: Vec<M> = vec![];
    ms.push(Arc::new(vec![]));
    ms.push(Arc::new(vec![vec![0.]]));
    ms.extend(all_metrics(2, &[0., 1., 2.]));
    ms.extend(all_metrics(3, &[0., 1., 2., 3.]));
    ms.extend(all_metrics(4, ctx.by(&[0., 1., 2.], &[0., 1., 2., 3.])));
    ms.extend(all_metrics(5, ctx.by(&[1., 2.], &[1., 2., 3.])));
    if ctx.thorough {
        ms.extend(all_metrics(5, &[0., 1., 2.]));
        ms.extend(all_metrics(6, &[1., 2.]));
    }
    // lines, with all permutations
    let e = 1. / (1u64 << 40) as f64;
    let lines: Vec<Vec<f64>> = vec![
        vec![0., 1., 3., 4.5, 8.],
        vec![0., 1., 2., 3., 4.],
        vec![0., 0., 1., 1., 5.],
        vec![0., 10., 11., 12., 30., 31.],
        vec![0., 1., 2., 4., 8., 16.],
        // nearly equal, tiny and huge distances (all differences are exact)
        vec![0., 1., 1. + e, 2., 2. + 3. * e],
        vec![0., e, 3. * e, 4.5 * e, 8. * e],
        vec![0., 1., 1. - e, 1. + e, -1. + 2. * e],
        vec![0., 1. / e, 3. / e, 4.5 / e, 8. / e],
    ];
    for l in &lines {
        for (k, p) in perms(l.len()).into_iter().enumerate() {
            if ctx.thorough || l.len() == 5 || k % 7 == 0 {
                ms.push(Arc::new(line(&p.iter().map(|i| l[*i]).collect::<Vec<_>>())));
            }
        }
    }
    ctx.note("small_metrics", ms.len());
    par_for(&ms, |m| {
        let n = m.len();
        let what = label(m);
        let all: Vec<usize> = (0..n).collect();
        let small = m.iter().flatten().any(|d| *d > 0. && *d < 1e-9);
        let max: &[Option<f64>] = if small {
            &[None, Some(0.), Some(1.), Some(1. + e), Some(e), Some(3. * e), Some(2. * e), Some(2.)]
        } else {
            &[None, Some(0.), Some(1.), Some(1.5), Some(2.), Some(3.), Some(10.)]
        };
        for max in max.iter().copied() {
            if ctx.stop() {
                return;
            }
            for alg in ALGS {
                one(ctx, &what, alg, m, &all, &all, max);
            }
            // trees which do not contain the query point, and in another order
            for q in 0..n {
                let pts: Vec<usize> = (0..n).rev().filter(|p| *p != q).collect();
                for alg in [Alg::SeqNew, Alg::ParNew] {
                    one(ctx, &what, alg, m, &pts, &[q], max);
                }
            }
        }
    });
    // a single prefix of the neighbours, as taken by a cell, is what the full list starts with: this
    // follows since the iterators are lazy and have no other state.
    let sizes: &[usize] = ctx.by(&[7, 8, 9, 40, 64, 65, 999, 1000, 1001, 1003, 2001], &[7, 8, 9, 16, 17, 40, 64, 65, 129, 998, 999, 1000, 1001, 1002, 1003, 1999, 2000, 2001, 2003, 3005, 4010]);
    let mut jobs = vec![];
    for n in sizes {
        for kind in 0..6 {
            jobs.push((*n, kind))
        }
    }
    jobs.sort_by_key(|(n, _)| std::cmp::Reverse(*n));
    par_for_n(6, &jobs, |(n, kind)| {
        if ctx.stop() {
            return;
        }
        let m = large(*n, *kind);
        let all: Vec<usize> = (0..*n).collect();
        let q: Vec<usize> = if *n < 100 {
            all.clone()
        } else {
            vec![0, 1, n / 2, n - 1]
        };
        let far = *m[0].iter().max_by(|a, b| a.partial_cmp(b).unwrap()).unwrap();
        let what = format!("large-{n}-{kind}");
        for max in [None, Some((far / 7.).floor()), Some(far / 2.)] {
            for alg in [Alg::Tree, Alg::Naive, Alg::SeqNew] {
                if alg == Alg::Naive && *n > 100 && max != Some((far / 7.).floor()) {
                    continue;
                }
                // the list of points of the name would be long
                let name = format!("{what}/{alg:?}/max={max:?}");
                if !ctx.want(&name) || ctx.stop() {
                    continue;
                }
                ctx.eval();
                match mcsched::quiet(|| search(alg, &m, &all, &q, max)) {
                    Err(e) => ctx.fail(&name, format!("panic: {e}"), json!({})),
                    Ok(r) => {
                        ctx.nontrivial(hash_of(&name));
                        for (q, got) in q.iter().zip(&r) {
                            if let Err(e) = judge(&m, &all, *q, max, got) {
                                ctx.fail(&name, e.chars().take(600).collect::<String>(), json!({}));
                                break;
                            }
                        }
                    }
                }
            }
        }
    });
    schedules(ctx);
}

/// build and query under all schedules
fn schedules(ctx: &Ctx) {
    let mut jobs = vec![];
    for pos in [vec![0.], vec![0., 1.], vec![0., 2., 1.], vec![1., 0., 2.5, 1.], vec![0., 4., 1., 3., 1.]] {
        for alg in [Alg::Tree, Alg::Naive, Alg::ParNew] {
            jobs.push((pos.clone(), alg))
        }
    }
    par_for(&jobs, |(pos, alg)| {
        let name = format!("schedules/{pos:?}/{alg:?}").replace(' ', "");
        if !ctx.want(&name) || ctx.stop() {
            return;
        }
        let m: M = Arc::new(line(pos));
        let all: Vec<usize> = (0..pos.len()).collect();
        let ex = Explorer {
            deadline: Some(ctx.deadline),
            max_executions: Some(200_000),
            horizon: 4000,
            threads: 1,
            ..Default::default()
        };
        let (m2, all2, alg2) = (m.clone(), all.clone(), *alg);
        let r = ex.explore(
            move || search(alg2, &m2, &all2, &all2, Some(2.)),
            |end| {
                ctx.eval();
                match end {
                    End::Ok(r) => {
                        for (q, got) in all.iter().zip(&r) {
                            judge(&m, &all, *q, Some(2.), got)?
                        }
                        Ok(())
                    }
                    End::Panic(p) => Err(format!("panic: {p}")),
                    End::Deadlock(w) => Err(format!("deadlock: {w}")),
                    End::Horizon => Err("does not end".into()),
                }
            },
        );
        match r {
            Err(e) => ctx.error(format!("{name}: {}", e.0)),
            Ok((st, f)) => {
                ctx.states.fetch_add(st.states, SeqCst);
                ctx.transitions.fetch_add(st.transitions, SeqCst);
                ctx.count("schedules", st.executions);
                if st.capped && f.is_none() {
                    ctx.cap("schedules of one build")
                }
                if let Some(f) = f {
                    ctx.fail(&name, f.what, json!({"schedule": f.schedule, "trace": f.trace}))
                }
            }
        }
    });
}
