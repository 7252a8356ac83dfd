//! C19: the cell collector
use crate::ctx::*;
use crate::res::*;
use cres::cell::Cell;
use cres::cell_collector::CellCollector;
use cres::event::Event;
use cres::resampler::DefaultResamplerBuilder;
use cres::traits::{NeighbourSearch, Resample};
use mcsched::{End, Explorer};
use noisy_float::prelude::*;
use rand::RngCore;
use serde_json::json;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::atomic::Ordering::SeqCst;

const N: usize = 10;
const STRIDE: usize = 1000;

#[derive(Clone, Copy, Debug, PartialEq)]
struct C {
    radius: f64,
    members: usize,
    weight: f64,
}

/// Neighbours in the given order
struct Fixed(Vec<(usize, f64)>);
impl NeighbourSearch for &Fixed {
    type Iter = std::vec::IntoIter<(usize, N64)>;
    fn nearest(self, _: &usize) -> Self::Iter {
        self.0.iter().map(|(i, d)| (*i, n64(*d))).collect::<Vec<_>>().into_iter()
    }
}

/// events of cell number `k`; each cell has its own
fn cell_events(k: usize, c: &C) -> Vec<Event> {
    (0..c.members)
        .map(|m| {
            let w = if m + 1 < c.members { -1. } else { c.members as f64 - 1. + c.weight };
            let mut e = mkevent(k * STRIDE + m, &if crate::MULTI { vec![w, 1.] } else { vec![w] }, 1.);
            e.id = k * STRIDE + m;
            e
        })
        .collect()
}

/// random numbers: constant, or counting
#[derive(Clone)]
struct R(u8, u64);
impl RngCore for R {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        match self.0 {
            // every second number is different since some values may be refused
            0 | 1 if self.1 % 2 == 0 => {
                self.1 += 1;
                if self.0 == 0 {
                    0
                } else {
                    u64::MAX - 1
                }
            }
            _ => {
                self.1 = self.1.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963406 | 1);
                self.1 ^ (self.1 >> 29)
            }
        }
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let b = self.next_u64().to_le_bytes();
            c.copy_from_slice(&b[..c.len()])
        }
    }
}

/// a cell of every collector gets the right number of members, radius and weight
fn collect(coll: &mut CellCollector, k: usize, c: &C, rng: &mut R) -> Result<(), String> {
    let ev = cell_events(k, c);
    let s = Fixed((1..c.members).map(|m| (m, c.radius * (m as f64 / (c.members - 1) as f64))).collect());
    let cell = Cell::new(&ev, 0, &s);
    if cell.nmembers() != c.members || !close(cell.weight_sum().into(), c.weight) || cell.radius() != c.radius {
        return Err(format!("cell with {} members, weight {} and radius {} instead of {c:?}", cell.nmembers(), cell.weight_sum(), cell.radius()));
    }
    coll.collect(&cell, rng);
    Ok(())
}

/// the cells must be the first and the extreme ones, and at most `N` others; cells[i] has number i
fn judge(cells: &[(usize, C)], map: &std::collections::HashMap<usize, Vec<usize>>) -> Result<(), String> {
    // cell number -> event ids
    let mut got: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    for (ev, cs) in map {
        for c in cs {
            got.entry(*c).or_default().insert(*ev);
        }
    }
    for (num, evs) in &got {
        let Some((k, c)) = cells.get(*num) else {
            return Err(format!("cell number {num} of {} cells", cells.len()));
        };
        let want: BTreeSet<usize> = (0..c.members).map(|m| k * STRIDE + m).collect();
        if *evs != want {
            return Err(format!("cell {num} is reported with the events {evs:?}, has {want:?}"));
        }
    }
    let has: BTreeSet<usize> = got.keys().copied().collect();
    for i in 0..N.min(cells.len()) {
        if !has.contains(&i) {
            return Err(format!("cell {i} is one of the first, but was not kept (kept {has:?})"));
        }
    }
    // the smallest set that has to be kept
    let mut must = BTreeSet::from_iter(0..N.min(cells.len()));
    let mut slack = 0;
    let crit: [(&str, Box<dyn Fn(&C) -> f64>); 3] = [
        ("radius", Box::new(|c| c.radius)),
        ("members", Box::new(|c| c.members as f64)),
        ("weight", Box::new(|c| c.weight)),
    ];
    for (name, f) in &crit {
        let mut v: Vec<f64> = cells.iter().map(|c| f(&c.1)).collect();
        v.sort_by(|a, b| b.partial_cmp(a).unwrap());
        let Some(cut) = v.get(N - 1).copied() else { continue };
        let above: BTreeSet<usize> = (0..cells.len()).filter(|i| f(&cells[*i].1) > cut).collect();
        let at: BTreeSet<usize> = (0..cells.len()).filter(|i| f(&cells[*i].1) == cut).collect();
        if let Some(i) = above.iter().find(|i| !has.contains(i)) {
            return Err(format!(
                "cell {i} is one of the largest by {name} ({}), but was not kept (kept {has:?})",
                f(&cells[*i].1)
            ));
        }
        let need = N - above.len();
        let n_at = at.intersection(&has).count();
        if n_at < need {
            return Err(format!("only {} of the largest cells by {name} were kept ({has:?})", above.len() + n_at));
        }
        must.extend(above);
        slack += need;
    }
    if has.len() > must.len() + slack + N {
        return Err(format!("{} cells were kept: {has:?}", has.len()));
    }
    Ok(())
}

/// Split `cells` over collectors: `part[i]` is the collector of the i-th cell. The collectors are
/// combined from left to right.
fn one(ctx: &Ctx, what: &str, cells: &[C], part: &[usize], rng: u8) {
    let name = || match part.len() {
        0..100 => format!("{what}/rng{rng}/{}", part.iter().map(|p| p.to_string()).collect::<String>()),
        _ => format!("{what}/rng{rng}"),
    };
    if ctx.only.is_some() && ctx.only.as_deref() != Some(&name()) {
        return;
    }
    ctx.eval();
    let nparts = part.iter().max().map_or(1, |m| m + 1);
    let r = mcsched::quiet(|| -> Result<(), String> {
        let mut colls: Vec<CellCollector> = (0..nparts).map(|_| CellCollector::new()).collect();
        let mut rngs: Vec<R> = (0..nparts).map(|i| R(rng, i as u64)).collect();
        for (k, (c, p)) in cells.iter().zip(part).enumerate() {
            collect(&mut colls[*p], k, c, &mut rngs[*p])?
        }
        let mut order = vec![];
        for p in 0..nparts {
            order.extend((0..cells.len()).filter(|k| part[*k] == p).map(|k| (k, cells[k])));
        }
        let mut it = colls.into_iter();
        let mut acc = it.next().unwrap();
        for c in it {
            acc = acc.combine(c, &mut R(rng, 99));
        }
        judge(&order, &acc.event_cells())?;
        // the combined collector goes on collecting
        let extra = C { radius: 1e6, members: 9, weight: 1e6 };
        collect(&mut acc, cells.len(), &extra, &mut R(rng, 5))?;
        order.push((cells.len(), extra));
        judge(&order, &acc.event_cells()).map_err(|e| format!("after one more cell: {e}"))?;
        acc.dump_info();
        Ok(())
    });
    ctx.transitions.fetch_add(cells.len() as u64 + nparts as u64, SeqCst);
    match r {
        Ok(Ok(())) => {
            if cells.len() > N {
                ctx.nontrivial(hash_of(&name()))
            }
        }
        Ok(Err(e)) => ctx.fail(&name(), e, json!({"cells": format!("{cells:?}")})),
        Err(e) => ctx.fail(&name(), format!("panic: {e}"), json!({"cells": format!("{cells:?}")})),
    }
}

fn cells(n: usize, variant: usize) -> Vec<C> {
    (0..n)
        .map(|i| {
            let r = (i * [1, 5, 7, 3][variant % 4] + variant) % 31;
            let m = (i * [7, 1, 3, 11][variant % 4]) % 8 + 2;
            let w = (i * [3, 11, 1, 5][variant % 4]) % 29;
            match variant {
                // everything falls
                4 => C { radius: (n - i) as f64, members: 2 + (n - i) / 4, weight: (n - i) as f64 * 0.5 },
                // weights of both signs
                6 => C { radius: r as f64, members: m, weight: w as f64 * 0.5 - 9. },
                // negative weights, some of them equal
                7 => C { radius: r as f64 + 0.25, members: m, weight: -((i * 5 % 17) as f64) - 1. },
                // all alike
                8 => C { radius: 3., members: 3, weight: 0.5 },
                // large cells and tiny or huge numbers
                9 => C {
                    radius: 1e-12 * (1 + i * 7 % 29) as f64,
                    members: 2 + i * 37 % 211,
                    weight: 1e5 * ((i * 11 % 31) as f64 - 15.),
                },
                // everything rises
                5 => C { radius: i as f64 + 0.5, members: 2 + i / 4, weight: i as f64 * 0.25 },
                _ => C { radius: r as f64, members: m, weight: w as f64 * 0.5 },
            }
        })
        .collect()
}

pub fn run(ctx: &Ctx) {
    // one collector, all sequences of radii
    let len = ctx.by(12, 13);
    let firsts: Vec<Vec<usize>> = Odometer::pow(2, 4).collect();
    par_for(&firsts, |f| {
        for rest in Odometer::pow(2, len - 4) {
            if ctx.stop() {
                return;
            }
            let v: Vec<C> = f
                .iter()
                .chain(&rest)
                .enumerate()
                .map(|(i, x)| C { radius: *x as f64 + 1., members: 2 + (x + i) % 2, weight: (1 - x) as f64 })
                .collect();
            one(ctx, &format!("seq{}", f.iter().chain(&rest).map(|x| x.to_string()).collect::<String>()), &v, &vec![0; len], 2);
        }
    });
    // all ways to split
    let jobs: Vec<(usize, usize, u8)> = (0..10).flat_map(|v| (0..=if v < 6 { ctx.by(13, 15) } else { ctx.by(11, 14) }).flat_map(move |n| (0..3u8).map(move |r| (v, n, r)))).collect();
    par_for(&jobs, |(v, n, r)| {
        let c = cells(*n, *v);
        for part in Odometer::pow(2, *n) {
            if ctx.stop() {
                return;
            }
            one(ctx, &format!("v{v}"), &c, &part, *r)
        }
    });
    // three collectors, consecutive and alternating
    let jobs: Vec<(usize, usize)> = (0..10).flat_map(|v| [11, 14, 21, 25, 31].map(|n| (v, n))).collect();
    par_for(&jobs, |(v, n)| {
        let c = cells(*n, *v);
        for a in 0..=*n {
            for b in a..=*n {
                for r in 0..3 {
                    if ctx.stop() {
                        return;
                    }
                    let part: Vec<usize> = (0..*n).map(|i| (i >= a) as usize + (i >= b) as usize).collect();
                    one(ctx, &format!("three-v{v}"), &c, &part, r);
                }
            }
        }
        for step in 2..=4 {
            let part: Vec<usize> = (0..*n).map(|i| i % step).collect();
            one(ctx, &format!("mod-v{v}"), &c, &part, 2);
        }
    });
    // many cells
    let jobs: Vec<(usize, usize, usize)> = (0..10)
        .flat_map(|v| ctx.by(vec![101, 1000, 3000], vec![101, 257, 1000, 3000, 10_000]).into_iter().map(move |n| (v, n)))
        .flat_map(|(v, n)| (0..5).map(move |p| (v, n, p)))
        .collect();
    par_for(&jobs, |(v, n, p)| {
        if ctx.stop() {
            return;
        }
        let c = cells(*n, *v);
        let part: Vec<usize> = match p {
            0 => vec![0; *n],
            1 => (0..*n).map(|i| i % 2).collect(),
            2 => (0..*n).map(|i| i % 64).collect(),
            3 => (0..*n).map(|i| i * 7 / n).collect(),
            _ => (0..*n).map(|i| (i > 5) as usize).collect(),
        };
        one(ctx, &format!("many{p}-v{v}-{n}"), &c, &part, 2)
    });
    ctx.states.fetch_add(ctx.ndistinct(), SeqCst);
    schedules(ctx);
}

/// the default resampler with a collector, under all schedules: pairs that are far apart
fn schedules(ctx: &Ctx) {
    for (n, search) in [(1, 0), (2, 0), (3, 0), (3, 1), (4, 0), (11, 0), (12, 0), (13, 1), (25, 0)] {
        let name = format!("schedules/{n}/{search}");
        if !ctx.want(&name) || ctx.stop() {
            continue;
        }
        let body = move || {
            let coll = Rc::new(RefCell::new(CellCollector::new()));
            let events: Vec<Event> = (0..n)
                .flat_map(|k| {
                    let x = 1000. * k as f64;
                    // radii and weights different; the weights rise, the radii fall
                    [
                        mkevent(2 * k, &rw(-1. - 0.01 * k as f64, k), x),
                        mkevent(2 * k + 1, &rw(2. + k as f64, k), x + 50. - k as f64),
                    ]
                })
                .collect();
            let b = DefaultResamplerBuilder::default().cell_collector(Some(coll.clone()));
            if search == 0 {
                let mut r = b.build();
                r.resample(events).unwrap();
                let same = Rc::ptr_eq(&r.cell_collector().unwrap(), &coll);
                let cells = coll.borrow().event_cells();
                (cells, same)
            } else {
                let mut r = b.neighbour_search::<cres::neighbour_search::NaiveNeighbourSearch>().build();
                r.resample(events).unwrap();
                let same = Rc::ptr_eq(&r.cell_collector().unwrap(), &coll);
                let cells = coll.borrow().event_cells();
                (cells, same)
            }
        };
        let verdict = |r: &(std::collections::HashMap<usize, Vec<usize>>, bool)| -> Result<(), String> {
            if !r.1 {
                return Err("the resampler has another collector than the one given".into());
            }
            let mut by_cell: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
            for (e, cs) in &r.0 {
                for c in cs {
                    by_cell.entry(*c).or_default().insert(*e);
                }
            }
            let mut pairs = BTreeSet::new();
            for (c, e) in &by_cell {
                let e: Vec<usize> = e.iter().copied().collect();
                if *c >= n || e.len() != 2 || e[0] % 2 != 0 || e[1] != e[0] + 1 {
                    return Err(format!("cell {c} is reported with the events {e:?}"));
                }
                if !pairs.insert(e[0] / 2) {
                    return Err(format!("the cell of {e:?} is reported with two numbers"));
                }
            }
            for k in 0..n {
                // the largest by radius are the first pairs, the largest by weight the last ones
                if (k < N || k + N >= n) && !pairs.contains(&k) {
                    return Err(format!("the cell around event {} was not kept (kept {pairs:?})", 2 * k));
                }
            }
            Ok(())
        };
        let ex = Explorer {
            deadline: Some(ctx.deadline),
            max_executions: Some(100_000),
            horizon: 20_000,
            threads: 4,
            ..Default::default()
        };
        match ex.explore(body, |end| {
            ctx.eval();
            match end {
                End::Ok(r) => verdict(&r),
                End::Panic(p) => Err(format!("panic: {p}")),
                End::Deadlock(w) => Err(format!("deadlock: {w}")),
                End::Horizon => Err("does not end".into()),
            }
        }) {
            Err(e) => ctx.error(format!("{name}: {}", e.0)),
            Ok((st, f)) => {
                ctx.states.fetch_add(st.states, SeqCst);
                ctx.transitions.fetch_add(st.transitions, SeqCst);
                ctx.count("schedules", st.executions);
                if st.capped && f.is_none() {
                    ctx.cap("schedules of one sample")
                }
                if let Some(f) = f {
                    ctx.fail(&name, f.what, json!({"schedule": f.schedule, "trace": f.trace}))
                }
            }
        }
        match mcsched::quiet(body) {
            Ok(r) => {
                ctx.validated.fetch_add(1, SeqCst);
                if let Err(e) = verdict(&r) {
                    ctx.fail(&format!("{name}/sequential"), e, json!({}))
                }
            }
            Err(e) => ctx.fail(&format!("{name}/sequential"), e, json!({})),
        }
    }
}

fn rw(w: f64, k: usize) -> Vec<f64> {
    if crate::MULTI {
        vec![w, k as f64]
    } else {
        vec![w]
    }
}
