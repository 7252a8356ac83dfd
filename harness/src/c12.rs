//! C12: partitions into regions
use crate::c04::perms;
use crate::ctx::*;
use crate::fmt::{guarded, make, Algo, Ev, Fmt, St, FMTS};
use crate::res::*;
use crate::tools;
use cres::cluster::{DefaultClustering, JetAlgorithm, JetDefinition, PhotonDefinition};
use cres::distance::EuclWithScaledPt;
use cres::event::{Event, EventBuilder};
use cres::four_vector::FourVector;
use cres::partition::{VPBisection, VPTreePartition};
use cres::traits::*;
use cres::vptree::VPTree;
use mcsched::{End, Explorer};
use noisy_float::prelude::*;
use particle_id::ParticleID;
use rayon::prelude::*;
use serde_json::json;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;

type M = Arc<Vec<Vec<f64>>>;

/// least number of points from which n regions can be made
pub fn need(regions: usize) -> usize {
    match regions {
        1 => 1,
        n => 3 * n / 2 - 1,
    }
}

/// the region a point belongs to, by the definition of the tree
pub fn descend<T>(tree: &[T], inside: impl Fn(&T) -> bool) -> usize {
    let mut i = 0;
    while i < tree.len() {
        i = 2 * i + if inside(&tree[i]) { 1 } else { 2 }
    }
    i - tree.len()
}

/// Is the subtree at node `i` one of the sample points `s`? Points at exactly the radius may have
/// been counted on either side.
fn judge_node(m: &[Vec<f64>], tree: &[(usize, f64)], i: usize, s: &[usize], budget: &mut usize) -> Result<(), String> {
    let Some(&(pt, r)) = tree.get(i) else { return Ok(()) };
    if *budget == 0 {
        return Ok(());
    }
    *budget -= 1;
    let Some(pos) = s.iter().position(|x| *x == pt) else {
        return Err(format!("node {i}: point {pt} is not one of the points {s:?} to be divided"));
    };
    let mut rest = s.to_vec();
    rest.remove(pos);
    let of = |f: &dyn Fn(f64) -> bool| rest.iter().copied().filter(|x| f(m[pt][*x])).collect::<Vec<_>>();
    let (closer, at, farther) = (of(&|d| d < r), of(&|d| d == r), of(&|d| d > r));
    let half = rest.len() / 2;
    if closer.len() > half || farther.len() > half {
        return Err(format!(
            "node {i}: of {} points, {} are closer to point {pt} than {r}, and {} are farther away",
            rest.len(),
            closer.len(),
            farther.len()
        ));
    }
    if at.len() > 8 {
        return Ok(());
    }
    let mut last = Ok(());
    for mask in 0..1usize << at.len() {
        let (mut a, mut b) = (closer.clone(), farther.clone());
        for (k, x) in at.iter().enumerate() {
            if mask >> k & 1 == 1 {
                a.push(*x)
            } else {
                b.push(*x)
            }
        }
        last = judge_node(m, tree, 2 * i + 1, &a, budget).and_then(|_| judge_node(m, tree, 2 * i + 2, &b, budget));
        if last.is_ok() {
            break;
        }
    }
    last
}

fn judge_tree(m: &[Vec<f64>], tree: &[(usize, f64)], pts: &[usize], regions: usize) -> Result<(), String> {
    if tree.len() + 1 != regions {
        return Err(format!("{} bisections for {regions} regions", tree.len()));
    }
    let mut seen: Vec<usize> = tree.iter().map(|t| t.0).collect();
    seen.sort();
    seen.dedup();
    if seen.len() != tree.len() {
        return Err(format!("a point is used twice: {tree:?}"));
    }
    judge_node(m, tree, 0, pts, &mut 20_000)
}

fn build(m: &M, pts: &[usize], regions: usize, par: bool) -> (Vec<usize>, usize, Vec<(usize, f64)>) {
    let d = MatrixDist(m.clone());
    let depth = regions.ilog2() as usize;
    let t = if par {
        VPTree::from_par_iter_with_dist_and_depth(pts.to_vec().into_par_iter(), d, depth)
    } else {
        VPTree::from_iter_with_dist_and_depth(pts.iter().copied(), d, depth)
    };
    let p = VPTreePartition::from(t);
    let r = (0..m.len()).map(|q| p.region(&q)).collect();
    let n = p.len();
    (r, n, p.into_tree().into_iter().map(|b| (b.pt, f64::from(b.r))).collect())
}

fn judge_built(m: &M, pts: &[usize], regions: usize, b: &(Vec<usize>, usize, Vec<(usize, f64)>)) -> Result<(), String> {
    let (got, len, tree) = b;
    judge_tree(m, tree, pts, regions)?;
    if *len != regions {
        return Err(format!("{len} instead of {regions} regions"));
    }
    for (q, got) in got.iter().enumerate() {
        if *got >= regions {
            return Err(format!("point {q}: region {got} of {regions}"));
        }
        let want = descend(tree, |(p, r)| m[*p][q] <= *r);
        if *got != want {
            return Err(format!("point {q}: region {got} instead of {want}"));
        }
    }
    Ok(())
}

fn one(ctx: &Ctx, what: &dyn Fn() -> String, m: &M, pts: &[usize], regions: usize, par: bool) {
    let name = || format!("{}/{regions}/{}", what(), if par { "par" } else { "seq" }).replace(' ', "");
    if ctx.only.is_some() && !ctx.want(&name()) {
        return;
    }
    ctx.eval();
    match guarded(|| build(m, pts, regions, par)) {
        Err(e) => ctx.fail(&name(), e, json!({})),
        Ok(b) => {
            if regions > 1 && b.2.len() + 1 == regions {
                let mut used: Vec<bool> = vec![false; regions];
                for p in pts {
                    if let Some(u) = used.get_mut(b.0[*p]) {
                        *u = true
                    }
                }
                if used.iter().filter(|u| **u).count() > 1 && m.len() < 60 {
                    ctx.nontrivial(hash_of(&(name(), &b.0)))
                }
            }
            if let Err(e) = judge_built(m, pts, regions, &b) {
                ctx.fail(&name(), e.chars().take(800).collect::<String>(), json!({"tree": format!("{:?}", b.2.iter().take(40).collect::<Vec<_>>())}))
            }
        }
    }
}

/// points of a sample on a line, and others between and around them
fn with_others(pos: &[f64]) -> (M, Vec<usize>) {
    let mut all = pos.to_vec();
    let mut x = -1.;
    while x < 20. {
        all.push(x);
        x += 0.5
    }
    (Arc::new(line(&all)), (0..pos.len()).collect())
}

fn library(ctx: &Ctx) {
    // every pseudometric; the query points are the sample and one further point
    let mut ms = vec![];
    let grids: &[(usize, &[f64])] = ctx.by(
        &[(3, &[0., 1., 2., 3., 4.]), (4, &[0., 1., 2., 3.]), (5, &[0., 1., 2.]), (6, &[1., 2.])],
        &[(3, &[0., 1., 2., 3., 4., 5., 6.]), (4, &[0., 1., 2., 3., 4., 5.]), (5, &[0., 1., 2., 3.]), (6, &[1., 2.]), (7, &[1., 2.])],
    );
    for (n, al) in grids {
        for u in Odometer::pow(al.len(), n * (n - 1) / 2) {
            let m = matrix(*n, &u.iter().map(|i| al[*i]).collect::<Vec<_>>());
            if is_pseudometric(&m) {
                ms.push(Arc::new(m))
            }
        }
    }
    ctx.note("small_metrics", ms.len());
    par_for(&ms, |m| {
        if ctx.stop() {
            return;
        }
        let what = || m.iter().enumerate().map(|(i, r)| r[i + 1..].iter().map(|x| x.to_string()).collect::<String>()).collect::<Vec<_>>().join("|");
        let n = m.len();
        for pts in [(0..n).collect::<Vec<_>>(), (1..n).collect()] {
            for regions in [1, 2, 4, 8] {
                if pts.len() >= need(regions) {
                    for par in [false, true] {
                        one(ctx, &|| format!("metric{}:{}", what(), pts.len()), m, &pts, regions, par)
                    }
                }
            }
        }
    });
    // samples on a line
    let mut jobs: Vec<Vec<f64>> = vec![];
    for n in 0..=ctx.by(7, 9) {
        for v in Odometer::pow(4, n) {
            jobs.push(v.iter().map(|i| [0., 1., 3., 7.][*i]).collect())
        }
    }
    for n in [11, 12] {
        for v in Odometer::pow(2, n) {
            jobs.push(v.iter().enumerate().map(|(k, i)| [0., 1. + k as f64][*i]).collect())
        }
    }
    for n in ctx.by(vec![11], vec![11, 12]) {
        for v in Odometer::pow(3, n) {
            jobs.push(v.iter().map(|i| [0., 1., 3.][*i]).collect())
        }
    }
    for l in [vec![0., 1., 2., 4., 8., 16.], vec![0., 1., 3., 4.5, 8., 9., 15.], vec![0., 1., 2., 3., 4., 5., 6.]] {
        for p in perms(l.len()) {
            jobs.push(p.iter().map(|i| l[*i]).collect())
        }
    }
    // 11 and more points: all rotations and steps of the same points
    for n in 11usize..=14 {
        for step in (1..n).filter(|s| (1..=n).all(|k| k == n || (k * s) % n != 0)) {
            for shift in 0..n {
                for square in [false, true] {
                    jobs.push(
                        (0..n)
                            .map(|i| ((i * step + shift) % n) as f64)
                            .map(|x| if square { x * x / 10. } else { x })
                            .collect(),
                    )
                }
            }
        }
    }
    ctx.note("samples_on_a_line", jobs.len());
    par_for(&jobs, |pos| {
        if ctx.stop() {
            return;
        }
        let (m, pts) = with_others(pos);
        for regions in [1, 2, 4, 8] {
            if pts.len() >= need(regions) || regions == 1 {
                for par in [false, true] {
                    one(ctx, &|| format!("line{pos:?}"), &m, &pts, regions, par)
                }
            }
        }
    });
    // many points; from 1000 on, the tree is built in parallel
    let mut jobs = vec![];
    for n in ctx.by(vec![17, 23, 47, 95, 999, 1000, 1001, 1500, 2003], vec![17, 23, 47, 95, 191, 998, 999, 1000, 1001, 1002, 1500, 1999, 2000, 2001, 2003, 3001, 4005]) {
        for kind in 0..6 {
            jobs.push((n, kind))
        }
    }
    jobs.sort_by_key(|(n, _)| std::cmp::Reverse(*n));
    par_for_n(6, &jobs, |(n, kind)| {
        if ctx.stop() {
            return;
        }
        let m = crate::c05::large(*n, *kind);
        let pts: Vec<usize> = (0..*n).collect();
        for regions in [1usize, 2, 4, 8, 16, 32, 64] {
            if *n >= need(regions) {
                one(ctx, &|| format!("large-{n}-{kind}"), &m, &pts, regions, true);
                one(ctx, &|| format!("large-{n}-{kind}"), &m, &pts, regions, false);
            }
        }
    });
}

/// built in parallel under all schedules
fn schedules(ctx: &Ctx) {
    let mut jobs = vec![];
    let big: Vec<f64> = (0..1003).map(|i| ((i * 7919) % 1003) as f64).collect();
    for pos in [big, vec![0., 1.], vec![0., 2., 1.], vec![1., 0., 2.5, 1., 7.], vec![0., 4., 1., 3., 1., 9.]] {
        for regions in [2, 4, 8] {
            if pos.len() >= need(regions) {
                jobs.push((pos.clone(), regions))
            }
        }
    }
    par_for(&jobs, |(pos, regions)| {
        let name = if pos.len() > 100 {
            format!("schedules/{}points/{regions}", pos.len())
        } else {
            format!("schedules/{pos:?}/{regions}").replace(' ', "")
        };
        if !ctx.want(&name) || ctx.stop() {
            return;
        }
        let m: M = Arc::new(line(pos));
        let pts: Vec<usize> = (0..pos.len()).collect();
        let ex = Explorer {
            deadline: Some(ctx.deadline),
            max_executions: Some(100_000),
            horizon: 400_000,
            threads: 1,
            ..Default::default()
        };
        let (m2, pts2, regions2) = (m.clone(), pts.clone(), *regions);
        let r = ex.explore(
            move || build(&m2, &pts2, regions2, true),
            |end| {
                ctx.eval();
                match end {
                    End::Ok(b) => judge_built(&m, &pts, *regions, &b),
                    End::Panic(p) => Err(format!("panic: {p}")),
                    End::Deadlock(w) => Err(format!("deadlock: {w}")),
                    End::Horizon => Err("does not end".into()),
                }
            },
        );
        match r {
            Err(e) => ctx.error(format!("{name}: {}", e.0)),
            Ok((st, f)) => {
                ctx.states.fetch_add(st.states, SeqCst);
                ctx.transitions.fetch_add(st.transitions, SeqCst);
                ctx.count("schedules", st.executions);
                if st.capped && f.is_none() {
                    ctx.cap("schedules of one build")
                }
                if let Some(f) = f {
                    ctx.fail(&name, f.what, json!({"schedule": f.schedule, "trace": f.trace}))
                }
            }
        }
    });
}

pub type Stored = (DefaultClustering, VPTreePartition<Event, EuclWithScaledPt>);

pub fn clusterings() -> Vec<DefaultClustering> {
    let mut v = vec![];
    for (algorithm, radius, min_pt) in [
        (JetAlgorithm::AntiKt, 0.4, 30.),
        (JetAlgorithm::Kt, 0.1 + 0.2, 1e-310),
        (JetAlgorithm::CambridgeAachen, 1. / 3., 1e22),
    ] {
        let d = JetDefinition { algorithm, radius, min_pt };
        let l = JetDefinition { algorithm, radius: 0.1, min_pt: 0. };
        let p = PhotonDefinition { min_e_fraction: 1. / 7., radius: 0.2, min_pt: 5. };
        for nu in [false, true] {
            let c = DefaultClustering::new(d).include_neutrinos(nu);
            v.push(c.clone());
            v.push(c.clone().with_lepton_def(l));
            v.push(c.clone().with_photon_def(p));
            v.push(c.with_lepton_def(l).with_photon_def(p));
        }
    }
    v
}

const NASTY: [f64; 14] = [
    0.,
    -0.,
    0.1 + 0.2,
    1. / 3.,
    -1. / 3.,
    5e-324,
    1e-310,
    f64::MIN_POSITIVE,
    1e22,
    123456789.123456789,
    9007199254740993.,
    -1e-7,
    1.5,
    3e150,
];

fn ev(parts: &[(i32, [f64; 4])], w: &[f64]) -> Event {
    let mut b = EventBuilder::new();
    for (id, p) in parts {
        b.add_outgoing(ParticleID::new(*id), FourVector::from(p.map(n64)));
    }
    for w in w {
        b.add_weight(n64(*w));
    }
    b.build()
}

/// every component of every momentum, and everything about the clustering, comes back
fn round_trip(ctx: &Ctx) {
    let mut evs = vec![ev(&[], &[]), ev(&[], &[-1.])];
    for (i, x) in NASTY.iter().enumerate() {
        for c in 0..4 {
            let mut p = [2., 1., 1., 1.];
            p[c] = *x;
            evs.push(ev(&[(25, p)], &[-*x]));
            let q = [3., -1., NASTY[(i * 3 + c) % NASTY.len()], 0.];
            evs.push(ev(&[(-11, p), (25, q), (81, p), (25, p), (-13, q)], &[-1., *x, 0.]));
        }
    }
    // particles for the settings
    let probe: Vec<Event> = [
        vec![(21, [60., 60., 0., 0.]), (1, [31., 30., 1., 2.]), (-2, [40., -40., 2., 0.]), (12, [7., 0., 7., 0.])],
        vec![(22, [50., 0., 50., 0.]), (11, [30., 1., 29., 3.]), (211, [4., 0., 4., 0.]), (-14, [7., 7., 0., 0.])],
        vec![(22, [6., 0., 6., 0.]), (22, [5., 0., 5., 0.]), (13, [9., 2., 0., 8.]), (13, [9., 1., 1., 8.])],
    ]
    .into_iter()
    .map(|p| ev(&p, &[1.]))
    .collect();
    let taus = [0., 0.1 + 0.2, 1. / 3., 1e-310, 10.];
    let cls = clusterings();
    // trees of one and three nodes with each event as vantage point
    let mut jobs = vec![];
    for i in 0..evs.len() {
        jobs.push((vec![i], i));
        jobs.push((vec![i, (i + 1) % evs.len(), (i + 7) % evs.len()], i));
    }
    for c in 0..cls.len() {
        jobs.push((vec![], c))
    }
    let copy = |e: &Event| {
        let mut b = EventBuilder::new();
        for (id, ps) in e.outgoing() {
            for p in ps.iter() {
                b.add_outgoing(*id, *p);
            }
        }
        for w in weights_of(e) {
            b.add_weight(n64(w));
        }
        let mut n = b.build();
        n.id = e.id;
        n
    };
    let exact = |e: &Event| {
        let o: Vec<_> = e
            .outgoing()
            .iter()
            .map(|(i, p)| (i.id(), p.iter().map(|p| [0, 1, 2, 3].map(|k| f64::from(p[k]).to_bits())).collect::<Vec<_>>()))
            .collect();
        (e.id, o, weights_of(e).iter().map(|w| w.to_bits()).collect::<Vec<_>>())
    };
    for (nodes, k) in &jobs {
        if ctx.stop() {
            return;
        }
        let name = format!("roundtrip/{nodes:?}/{k}").replace(' ', "");
        if !ctx.want(&name) {
            continue;
        }
        ctx.eval();
        let cl = &cls[k % cls.len()];
        let dist = EuclWithScaledPt::new(n64(taus[k % taus.len()]));
        let res = guarded(|| -> Result<(), String> {
            let tree: Vec<_> = nodes
                .iter()
                .enumerate()
                .map(|(j, i)| {
                    let mut pt = copy(&evs[*i]);
                    pt.id = j * 3;
                    VPBisection { pt, r: n64(NASTY[(i + j) % 6].abs()) }
                })
                .collect();
            let before: Vec<_> = tree.iter().map(|b| (exact(&b.pt), f64::from(b.r).to_bits())).collect();
            let part = unsafe { VPTreePartition::from_vp(tree, dist) };
            let mut buf = vec![];
            serde_yaml::to_writer(&mut buf, &(cl.clone(), &part)).map_err(|e| e.to_string())?;
            let (cl2, part2): Stored = serde_yaml::from_reader(buf.as_slice()).map_err(|e| format!("cannot be read back: {e}"))?;
            for (i, e) in evs.iter().enumerate() {
                let (a, b) = (part.region(e), part2.region(e));
                if a != b {
                    return Err(format!("event {i}: region {b} instead of {a} after reading back"));
                }
            }
            for e in probe.iter() {
                let a = cl.cluster(copy(e)).unwrap();
                let b = cl2.cluster(copy(e)).unwrap();
                if exact(&a) != exact(&b) {
                    return Err(format!("clustering of {e:?} differs after reading back: {b:?} instead of {a:?}"));
                }
            }
            if part2.len() != part.len() || part2 != part {
                return Err("the partition is not the same after reading back".into());
            }
            let after: Vec<_> = part2.into_tree().iter().map(|b| (exact(&b.pt), f64::from(b.r).to_bits())).collect();
            if after != before {
                return Err("a division is not the same after reading back".into());
            }
            Ok(())
        });
        match res {
            Ok(Ok(())) => ctx.nontrivial(hash_of(&name)),
            Ok(Err(e)) | Err(e) => ctx.fail(&name, e, json!({})),
        }
    }
    ctx.note("events_written_and_read_back", jobs.len());
}

/// An event with a single, never clustered particle
pub fn higgs(x: f64, w: f64) -> Ev {
    let s = |x: f64| -> &'static str { Box::leak(format!("{x:?}").into_boxed_str()) };
    Ev { w: vec![s(w).into()], parts: vec![(21, ["5", "0", "0", "5"], St::In), (25, [s(200.), s(x), "0", "0"], St::Out)] }
}

pub fn higgs_pos(e: &Event) -> Result<f64, String> {
    match e.outgoing() {
        [(id, p)] if id.id() == 25 && p.len() == 1 => Ok(f64::from(p[0][1])),
        _ => Err(format!("{e:?} is not one of the events of the sample")),
    }
}

/// the radii and the vantage points as positions on the line
fn line_tree(tree: &[VPBisection<Event>]) -> Result<Vec<(f64, f64)>, String> {
    tree.iter().map(|b| Ok((higgs_pos(&b.pt)?, f64::from(b.r)))).collect()
}

struct ToolCase {
    pos: Vec<f64>,
    regions: &'static str,
    fmt: Fmt,
    compression: Option<(&'static str, Algo)>,
    split: bool,
}

fn tool(ctx: &Ctx) {
    const COMPR: [Option<(&str, Algo)>; 7] = [
        None,
        Some(("bzip2", Algo::Bzip2)),
        Some(("gzip", Algo::Gzip(6))),
        Some(("gzip_1", Algo::Gzip(1))),
        Some(("lz4_3", Algo::Lz4(3))),
        Some(("zstd", Algo::Zstd(0))),
        Some(("zstd_19", Algo::Zstd(19))),
    ];
    let mut jobs = vec![];
    for n in 0..=ctx.by(13usize, 24) {
        for regions in ["1", "2", "4", "8"] {
            for k in 0..ctx.by(2, 4) {
                let i = jobs.len();
                let step = (1..n.max(2)).filter(|s| (1..n).all(|k| (k * s) % n != 0)).nth(k).unwrap_or(1);
                let pos = (0..n)
                    .map(|j| ((j * step + k) % n) as f64)
                    .map(|x| if k % 2 == 1 { x * x / 8. } else { x })
                    .collect();
                jobs.push(ToolCase { pos, regions, fmt: FMTS[i % 3], compression: COMPR[i % 7], split: i % 2 == 1 })
            }
        }
    }
    for (n, regions) in [(22, "16"), (23, "16"), (40, "16"), (46, "32"), (47, "32"), (94, "64"), (95, "64"), (200, "64"), (191, "128"), (300, "32"), (1003, "8"), (2001, "16")] {
        for k in 0..2 {
            let i = jobs.len();
            let step = [7usize, 37].into_iter().find(|s| n % s != 0).unwrap();
            let pos = (0..n)
                .map(|j| ((j * step + k) % n) as f64)
                .map(|x| if k % 2 == 1 { x * x / 8. } else { x })
                .collect();
            jobs.push(ToolCase { pos, regions, fmt: FMTS[i % 3], compression: COMPR[i % 7], split: i % 2 == 1 })
        }
    }
    for regions in ["0", "3", "6", "-1", "x", "", "4294967296", "2147483648", "1024"] {
        jobs.push(ToolCase { pos: vec![0., 1., 2., 3., 4.], regions, fmt: Fmt::Hep, compression: None, split: false })
    }
    par_for(&jobs, |j| {
        let pos = if j.pos.len() > 24 { format!("{}:{}", j.pos.len(), j.pos[1]) } else { format!("{:?}", j.pos) };
        let name = format!("tool/{pos}/{}/{:?}/{:?}/{}", j.regions, j.fmt, j.compression.map(|c| c.0), j.split).replace(' ', "");
        if !ctx.want(&name) || ctx.stop() {
            return;
        }
        ctx.eval();
        match tool_case(ctx, j) {
            Ok(()) => ctx.nontrivial(hash_of(&name)),
            Err(e) => ctx.fail(&name, e, json!({})),
        }
    });
    ctx.note("runs_of_the_tool", jobs.len());
}

pub fn style0(f: Fmt) -> Vec<usize> {
    vec![0; crate::fmt::dims(f).len()]
}

fn tool_case(_ctx: &Ctx, j: &ToolCase) -> Result<(), String> {
    let dir = tools::fresh("c12");
    let n = j.pos.len();
    // some events with positive weight in between
    let mut evs: Vec<Ev> = vec![higgs(0.25, 1.)];
    for (k, x) in j.pos.iter().enumerate() {
        evs.push(higgs(*x, -1.5));
        if k % 3 == 0 {
            evs.push(higgs(*x + 0.25, [2., 0., 1e-300][k / 3 % 3]))
        }
    }
    let parts: Vec<&[Ev]> = if j.split { vec![&evs[..evs.len() / 2], &evs[evs.len() / 2..]] } else { vec![&evs] };
    let mut args = tools::args(&["-a", "anti-kt", "-R", "0.4", "-p", "30", "--outfile", "part.yaml", &format!("--regions={}", j.regions)]);
    if let Some((c, _)) = j.compression {
        args.push("--compression".into());
        args.push(c.into());
    }
    for (k, p) in parts.iter().enumerate() {
        let f = dir.join(format!("ev{k}.dat"));
        std::fs::write(&f, make(j.fmt, p, &style0(j.fmt)).text()).unwrap();
        args.push(format!("ev{k}.dat"));
    }
    let r = tools::run("cres-partition", &args, &dir, Default::default());
    if r.timeout || r.signal.is_some() || r.panicked() {
        return Err(r.describe());
    }
    let regions = j.regions.parse::<u32>().ok().filter(|n| n.is_power_of_two()).map(|n| n as usize);
    let Some(regions) = regions else {
        return if r.refused() { Ok(()) } else { Err(format!("{:?} regions accepted", j.regions)) };
    };
    if !r.ok() {
        return if n < need(regions) { Ok(()) } else { Err(format!("{n} events, {regions} regions: {}", r.describe())) };
    }
    let raw = std::fs::read(dir.join("part.yaml")).map_err(|e| format!("no output: {e}"))?;
    let yaml = j.compression.map_or(Algo::None, |c| c.1).decompress(&raw)?;
    let (_, part): Stored = serde_yaml::from_slice(&yaml).map_err(|e| format!("output cannot be read: {e}"))?;
    let tree = line_tree(&part.into_tree())?;
    // as indices
    let m = line(&j.pos);
    let mut idx = vec![];
    for (x, r) in &tree {
        let i = j.pos.iter().position(|y| y == x).ok_or(format!("vantage point at {x} is not a negative-weight event"))?;
        idx.push((i, *r))
    }
    judge_tree(&m, &idx, &(0..n).collect::<Vec<_>>(), regions)?;
    // every event is put where the tree says
    let mut cargs = tools::args(&["--partition", "part.yaml", "--outdir", "out"]);
    cargs.extend((0..parts.len()).map(|k| format!("ev{k}.dat")));
    let r = tools::run("cres-classify-events", &cargs, &dir, Default::default());
    if !r.ok() {
        return Err(format!("classification: {}", r.describe()));
    }
    for (k, p) in parts.iter().enumerate() {
        let mut want: Vec<Vec<f64>> = vec![vec![]; regions];
        for e in p.iter() {
            let x: f64 = e.parts[1].1[1].parse().unwrap();
            want[descend(&tree, |(v, r)| (v - x).abs() <= *r)].push(x);
        }
        for (i, want) in want.iter().enumerate() {
            let f = dir.join(format!("out/ev{k}.{i}.dat"));
            let got = read_positions(&f).map_err(|e| format!("{}: {e}", f.display()))?;
            if got != *want {
                return Err(format!("input {k}, region {i}: events at {got:?} instead of {want:?}"));
            }
        }
    }
    Ok(())
}

pub fn read_positions(f: &std::path::Path) -> Result<Vec<f64>, String> {
    guarded(|| {
        let rd = cres::io::FileReader::try_new(f.to_path_buf()).map_err(|e| crate::fmt::chain(&e))?;
        let mut v = vec![];
        for r in rd {
            let r = r.map_err(|e| crate::fmt::chain(&e))?;
            v.push(higgs_pos(&crate::fmt::convert(&[], r)?)?)
        }
        Ok(v)
    })?
}

pub fn run(ctx: &Ctx) {
    ctx.assume("distances are not NaN");
    round_trip(ctx);
    tool(ctx);
    schedules(ctx);
    library(ctx);
}
