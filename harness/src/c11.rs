//! C11: grouping of particles into jets, leptons and photons
use crate::c06::{build, multisets, P};
use crate::ctx::*;
use cres::cluster::{DefaultClustering, JetAlgorithm, JetDefinition, PhotonDefinition};
use cres::traits::Clustering;
use serde_json::json;

#[derive(Clone, Copy, Debug, PartialEq)]
enum K {
    Jet,
    Photon,
    Lepton,
    Nu,
    Keep,
}
const TYPES: [(i32, K); 27] = [
    (22, K::Photon),
    (1, K::Jet),
    (11, K::Lepton),
    (-13, K::Lepton),
    (-12, K::Nu),
    (211, K::Jet),
    (25, K::Keep),
    (21, K::Jet),
    (-11, K::Lepton),
    (13, K::Lepton),
    (14, K::Nu),
    (-5, K::Jet),
    (6, K::Keep),
    (-15, K::Keep),
    (16, K::Nu),
    (-16, K::Nu),
    (12, K::Nu),
    (-14, K::Nu),
    (-211, K::Jet),
    (2212, K::Jet),
    (-2112, K::Jet),
    (111, K::Jet),
    (130, K::Jet),
    (521, K::Jet),
    (3122, K::Jet),
    (-24, K::Keep),
    (1000022, K::Keep),
];

fn massless(pt: f64, y: f64, phi: f64) -> P {
    massive(pt, y, phi, 0.)
}
fn massive(pt: f64, y: f64, phi: f64, m: f64) -> P {
    let mt = (pt * pt + m * m).sqrt();
    [mt * y.cosh(), pt * phi.cos(), pt * phi.sin(), mt * y.sinh()]
}

fn dirs() -> Vec<P> {
    vec![
        massless(50., 0.1, 0.9),
        massless(7., 0.25, 1.1),
        massive(40., -0.6, -2.9, 5.),
        massless(35., -0.5, 3.05),
        // exactly the minimum transverse momentum of photons
        [30., 18., 24., 0.],
        massless(2e-15, 0.2, 0.8),
        massless(12., 0.9, 0.8),
        massless(3e-8, 0.05, 0.95),
        // forward, and much softer next to it: rounding in the content of the cone
        massless(33., 2.743, -0.4),
        massless(0.9e-15, 3.15, -0.45),
        massless(2.57e-15, 2.74, -0.4),
        massless(2.2e-15, 3.05, -0.35),
        // close to the beam
        massless(1e-3, 11., 0.3),
        // along the beam, and nearly so, with rounded energy
        [50., 0., 0., -50.],
        [49.9999999999, 1e-3, 0., 50.],
        [59.9999999999, 0., 2e-3, -60.],
        // next to the third one, with much more transverse energy than momentum
        massive(42., -0.55, -3., 75.),
        // exactly the minimum transverse momentum of leptons
        [5., 3., 4., 0.],
    ]
}

fn pt(p: &P) -> f64 {
    p[1].hypot(p[2])
}
fn rap(p: &P) -> f64 {
    if p[0] == p[3].abs() && pt(p) == 0. {
        return f64::INFINITY * p[3].signum();
    }
    // as in the literature, but stable for large rapidities
    let m2 = (p[0] * p[0] - p[3] * p[3] - p[1] * p[1] - p[2] * p[2]).max(0.);
    let mt2 = p[1] * p[1] + p[2] * p[2] + m2;
    let y = 0.5 * ((p[0] + p[3].abs()).powi(2) / mt2).ln();
    y.copysign(p[3])
}
fn dr(a: &P, b: &P) -> f64 {
    let (ya, yb) = (rap(a), rap(b));
    if ya.is_infinite() || yb.is_infinite() {
        return f64::INFINITY;
    }
    let mut dphi = (a[2].atan2(a[1]) - b[2].atan2(b[1])).abs();
    if dphi > std::f64::consts::PI {
        dphi = 2. * std::f64::consts::PI - dphi
    }
    (ya - yb).hypot(dphi)
}
fn add(a: &P, b: &P) -> P {
    [0, 1, 2, 3].map(|i| a[i] + b[i])
}

#[derive(Clone, Copy, Debug)]
struct Def {
    p: i32,
    r: f64,
    min_pt: f64,
}

/// Sequential recombination in the E scheme, with all resolutions of ties;
/// None if they lead to different jets
fn recombine(v: Vec<P>, d: Def) -> Option<Vec<P>> {
    // along the beam: infinitely far from everything, and without transverse momentum
    let v: Vec<P> = v.into_iter().filter(|p| pt(p) > 0.).map(on_shell).collect();
    let mut budget = 400;
    let jets = histories(v.clone(), vec![], d, &mut budget)?;
    // a single particle with exactly the minimum is not above it
    if jets.iter().any(|j| (pt(j) - d.min_pt).abs() < 1e-9 && !(pt(j) == d.min_pt && v.contains(j))) {
        return None;
    }
    Some(jets.into_iter().filter(|j| pt(j) > d.min_pt).collect())
}

/// energies below the momentum are rounding errors
fn on_shell(p: P) -> P {
    if p[0] < p[3].abs() {
        [(p[1] * p[1] + p[2] * p[2] + p[3] * p[3]).sqrt(), p[1], p[2], p[3]]
    } else {
        p
    }
}

fn histories(mut v: Vec<P>, mut jets: Vec<P>, d: Def, budget: &mut usize) -> Option<Vec<P>> {
    loop {
        if v.is_empty() {
            return Some(jets);
        }
        let scale = |p: &P| match d.p {
            0 => 1.,
            1 => pt(p).powi(2),
            _ => 1. / pt(p).powi(2),
        };
        let mut all: Vec<(f64, usize, usize)> = vec![];
        for i in 0..v.len() {
            all.push((scale(&v[i]), i, i));
            for j in 0..i {
                let x = dr(&v[i], &v[j]);
                all.push((scale(&v[i]).min(scale(&v[j])) * x * x / (d.r * d.r), i, j));
            }
        }
        let min = all.iter().map(|a| a.0).fold(f64::INFINITY, f64::min);
        all.retain(|a| a.0 <= min * (1. + 1e-6));
        let step = |v: &mut Vec<P>, jets: &mut Vec<P>, i: usize, j: usize| {
            if i == j {
                jets.push(v.swap_remove(i));
            } else {
                v[j] = add(&v[i], &v[j]);
                v.swap_remove(i);
            }
        };
        if all.len() == 1 {
            step(&mut v, &mut jets, all[0].1, all[0].2);
            continue;
        }
        let mut res: Option<Vec<P>> = None;
        for (_, i, j) in all {
            if *budget == 0 {
                return None;
            }
            *budget -= 1;
            let (mut v, mut jets) = (v.clone(), jets.clone());
            step(&mut v, &mut jets, i, j);
            let r = histories(v, jets, d, budget)?;
            if let Some(old) = &res {
                let tag = |v: &[P]| v.iter().filter(|p| pt(p) > 0.5 * d.min_pt).map(|p| (81, *p)).collect::<Vec<_>>();
                if !same(&tag(old), &tag(&r)) {
                    return None;
                }
            }
            res = Some(r);
        }
        return res;
    }
}

#[derive(Clone, Debug)]
struct Set {
    jet: Def,
    lep: Option<Def>,
    /// fraction, radius, minimum pt
    pho: Option<(f64, f64, f64)>,
    nu: bool,
}

fn reference(ev: &[(i32, K, P)], s: &Set) -> Option<Vec<(i32, P)>> {
    let mut out = vec![];
    let mut jets = vec![];
    let mut leps = vec![];
    for (n, (id, k, p)) in ev.iter().enumerate() {
        match k {
            K::Jet => jets.push(*p),
            K::Nu if s.nu => out.push((*id, *p)),
            K::Nu => {}
            K::Keep => out.push((*id, *p)),
            K::Lepton if s.lep.is_some() => leps.push(*p),
            K::Lepton => out.push((*id, *p)),
            K::Photon => {
                let mut iso = false;
                if let Some((frac, r, min)) = s.pho {
                    // the momentum with exactly the minimum counts as hard
                    iso = pt(p) >= min;
                    if pt(p) != min && (pt(p) - min).abs() < 1e-12 * min {
                        return None;
                    }
                    let mut cone = [0.; 4];
                    for (m, (id, k, q)) in ev.iter().enumerate() {
                        if m == n || *k == K::Nu || id.abs() == 13 {
                            continue;
                        }
                        let d = dr(p, q);
                        if (d - r).abs() < 1e-9 {
                            return None;
                        }
                        if d < r {
                            cone = add(&cone, &on_shell(*q))
                        }
                    }
                    let et = (cone[0].powi(2) - cone[3].powi(2)).max(0.).sqrt();
                    if (pt(p) - frac * et).abs() < 1e-7 * pt(p) {
                        return None;
                    }
                    iso &= pt(p) > frac * et;
                }
                match iso {
                    true => out.push((83, *p)),
                    false if s.lep.is_some() => leps.push(*p),
                    false => out.push((22, *p)),
                }
            }
        }
    }
    out.extend(recombine(jets, s.jet)?.into_iter().map(|p| (81, p)));
    if let Some(l) = s.lep {
        out.extend(recombine(leps, l)?.into_iter().map(|p| (82, p)));
    }
    Some(out)
}

fn real(s: &Set) -> DefaultClustering {
    let def = |d: Def| JetDefinition {
        algorithm: match d.p {
            0 => JetAlgorithm::CambridgeAachen,
            1 => JetAlgorithm::Kt,
            _ => JetAlgorithm::AntiKt,
        },
        radius: d.r,
        min_pt: d.min_pt,
    };
    let mut c = DefaultClustering::new(def(s.jet)).include_neutrinos(s.nu);
    if let Some(l) = s.lep {
        c = c.with_lepton_def(def(l))
    }
    if let Some((min_e_fraction, radius, min_pt)) = s.pho {
        c = c.with_photon_def(PhotonDefinition { min_e_fraction, radius, min_pt })
    }
    c
}

/// same particles up to rounding, in any order
fn same(a: &[(i32, P)], b: &[(i32, P)]) -> bool {
    let scale = a.iter().chain(b).map(|x| x.1[0].abs()).fold(1., f64::max);
    let mut used = vec![false; b.len()];
    a.len() == b.len()
        && a.iter().all(|x| {
            let exact = x.0 != 81 && x.0 != 82;
            let tol = if exact { 0. } else { 1e-11 * scale };
            match (0..b.len()).find(|&j| !used[j] && b[j].0 == x.0 && (0..4).all(|i| (x.1[i] - b[j].1[i]).abs() <= tol)) {
                Some(j) => {
                    used[j] = true;
                    true
                }
                None => false,
            }
        })
}

pub fn run(ctx: &Ctx) {
    let dirs = dirs();
    let mut sets = vec![];
    for (p, (r, min_pt)) in [(-1, (0.4, 30.)), (1, (0.6, 10.)), (0, (0.2, 0.))] {
        for lep in [None, Some(Def { p: 1, r: 0.3, min_pt: 20. }), Some(Def { p: -1, r: 0.1, min_pt: 5. })] {
            for pho in [None, Some((0.5, 0.3, 30.)), Some((3., 0.5, 1e-15))] {
                for nu in [false, true] {
                    sets.push(Set { jet: Def { p, r, min_pt }, lep, pho, nu })
                }
            }
        }
    }
    // everything is close
    sets.push(Set { jet: Def { p: 1, r: 3.3, min_pt: 10. }, lep: Some(Def { p: 0, r: 8.6, min_pt: 5. }), pho: Some((0.3, 4.25, 10.)), nu: false });
    // the particles of the alphabet, and the multisets of them
    let alphabet = |nt: usize, nd: usize| -> Vec<(i32, K, P)> {
        TYPES[..nt].iter().flat_map(|(id, k)| dirs[..nd].iter().map(|p| (*id, *k, *p))).collect()
    };
    let mut evs: Vec<Vec<(i32, K, P)>> = vec![];
    let mut push = |alpha: Vec<(i32, K, P)>, max: usize, min: usize| {
        for m in multisets(alpha.len(), max) {
            if m.len() >= min {
                evs.push(m.iter().map(|i| alpha[*i]).collect())
            }
        }
    };
    push(alphabet(27, 18), 2, 0);
    push(alphabet(ctx.by(12, 27), ctx.by(5, 6)), 3, 3);
    push(alphabet(7, ctx.by(2, 4)), 4, 4);
    push(alphabet(7, 18), 3, 3);
    push(alphabet(5, ctx.by(2, 4)), 5, 5);
    if ctx.thorough {
        push(alphabet(3, 3), 6, 6);
    }
    // one particle of each type
    for (id, k) in all_types() {
        evs.push(vec![(id, k, dirs[2])]);
    }
    ctx.note("events", evs.len() as u64);
    ctx.note("settings", sets.len() as u64);
    let idx: Vec<usize> = (0..evs.len()).collect();
    let skipped = std::sync::atomic::AtomicU64::new(0);
    par_for(&idx, |&i| {
        let ev = &evs[i];
        for (k, s) in sets.iter().enumerate() {
            if ctx.stop() {
                return;
            }
            let name = || format!("set{k}/{:?}", ev.iter().map(|x| (x.0, x.2)).collect::<Vec<_>>()).replace(' ', "");
            if ctx.only.is_some() && !ctx.want(&name()) {
                continue;
            }
            judge(ctx, ev, s, i, &name, &skipped);
        }
        if ev.len() > 1 {
            ctx.nontrivial(hash_of(&i));
        }
    });
    many(ctx, &skipped);
    ctx.note("skipped_as_ambiguous", skipped.into_inner());
}

/// All types of particles with small ids, and all known hadrons
fn all_types() -> Vec<(i32, K)> {
    let hadrons: Vec<i32> = particle_id::hadrons::HADRONS.iter().map(|h| h.id()).collect();
    let mut ids: Vec<i32> = (1..=6000).collect();
    ids.extend(&hadrons);
    ids.extend([9900012, 1000021, 2000011, 3000001, i32::MAX]);
    ids.sort();
    ids.dedup();
    // leptons of a fourth generation
    ids.retain(|i| ![17, 18].contains(i));
    let kind = |i: i32| match i {
        1..=5 | 21 => K::Jet,
        11 | 13 => K::Lepton,
        12 | 14 | 16 => K::Nu,
        22 => K::Photon,
        i if hadrons.contains(&i) => K::Jet,
        _ => K::Keep,
    };
    ids.iter()
        .flat_map(|i| [(*i, kind(*i)), (-i, if [21, 22].contains(i) { K::Keep } else { kind(*i) })])
        .filter(|(i, _)| ![-21, -22].contains(i))
        .collect()
}

fn judge(ctx: &Ctx, ev: &[(i32, K, P)], s: &Set, i: usize, name: &dyn Fn() -> String, skipped: &std::sync::atomic::AtomicU64) {
    let pl: Vec<(i32, P)> = ev.iter().map(|x| (x.0, x.2)).collect();
    let Some(want) = reference(ev, s) else {
        skipped.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        return;
    };
    ctx.eval();
    let res = mcsched::quiet(|| {
        let mut e = build(&pl);
        e.id = i;
        let w = crate::fmt::mkweights(&[(i as f64) - 3.5, 2.25, -7.]);
        *e.weights.write() = w;
        let c = real(s).cluster(e).unwrap();
        let mut out = vec![];
        for (id, ps) in c.outgoing() {
            for p in ps.iter() {
                out.push((id.id(), [0, 1, 2, 3].map(|i| f64::from(p[i]))))
            }
        }
        let types: Vec<_> = c.outgoing().iter().map(|x| x.0.id()).collect();
        let w: Vec<f64> = c.weights.read().iter().map(|w| f64::from(*w)).collect();
        (c.id, w, out, types)
    });
    let bad = match res {
        Err(e) => Some(format!("panic: {e}")),
        Ok((id, w, out, types)) => {
            let mut t = types.clone();
            t.sort();
            t.dedup();
            if id != i {
                Some(format!("id {id} instead of {i}"))
            } else if w != (if crate::MULTI { vec![(i as f64) - 3.5, 2.25, -7.] } else { vec![(i as f64) - 3.5] }) {
                Some(format!("weights {w:?}"))
            } else if t.len() != types.len() {
                Some(format!("types {types:?}"))
            } else if !same(&out, &want) {
                Some(format!("{out:?} instead of {want:?}"))
            } else {
                None
            }
        }
    };
    if let Some(b) = bad {
        ctx.fail(&name(), b, json!({"settings": format!("{s:?}")}))
    }
}

/// Events with many particles, for which the recombination uses other algorithms
fn many(ctx: &Ctx, skipped: &std::sync::atomic::AtomicU64) {
    let none = Def { p: -1, r: 0.4, min_pt: 30. };
    let mut jobs = vec![];
    for n in [23, 24, 25, 26, 30, 48, 49, 50, 51, 60] {
        for p in [-1, 0, 1] {
            // the clustering library gets the kt algorithm wrong for some events with many particles
            let ks: Vec<usize> = match (p, n >= 24) {
                (1, true) => KT.iter().filter(|x| x.0 == n).map(|x| x.1).collect(),
                _ => (0..ctx.by(4, 20)).collect(),
            };
            for k in ks {
                for beam in 0..3 {
                    for leptons in [false, true] {
                        if p == 1 && n >= 24 && (beam != ((n == 26) as usize) || leptons) {
                            continue;
                        }
                        jobs.push((n, p, k, beam, leptons))
                    }
                }
            }
        }
    }
    ctx.note("events_with_many_particles", jobs.len());
    par_for(&jobs, |&(n, p, k, beam, leptons)| {
        let name = || format!("many{n}:p{p}:k{k}:beam{beam}:leptons{leptons}");
        if !ctx.want(&name()) || ctx.stop() {
            return;
        }
        let d = Def { p, r: 0.4, min_pt: 5. };
        let s = match leptons {
            false => Set { jet: d, lep: None, pho: None, nu: false },
            true => Set { jet: none, lep: Some(d), pho: None, nu: false },
        };
        // all momenta follow from n and k
        let mut x = 0x9E3779B97F4A7C15u64.wrapping_mul((1000 * n + k + 1) as u64);
        let mut unit = || {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            ((x >> 11) as f64 + 0.5) / (1u64 << 53) as f64
        };
        let (id, kind) = if leptons { (11, K::Lepton) } else { (211, K::Jet) };
        let mut ev: Vec<(i32, K, P)> = (0..n)
            .map(|_| {
                let (a, b, c) = (unit(), unit(), unit());
                (id, kind, massless(0.5 - 20. * a.ln(), 6. * (b - 0.5), 6.28 * c))
            })
            .collect();
        for b in 0..beam {
            let z: f64 = [80., -30.][b];
            ev[b + 1].2 = [z.abs(), 0., 0., z];
        }
        judge(ctx, &ev, &s, k, &name, skipped);
        ctx.nontrivial(hash_of(&name()));
    });
}

/// Events with many particles for the kt algorithm
const KT: [(usize, usize); 2] = [(26, 278), (48, 42)];
