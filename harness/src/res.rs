//! Small samples for the resampler, and a reference implementation of cell resampling
use cres::cell::Cell;
use cres::event::{Event, EventBuilder};
use cres::four_vector::FourVector;
use cres::neighbour_search::{NaiveNeighbourSearch, TreeSearch};
use cres::cell_collector::CellCollector;
use cres::resampler::{DefaultResamplerBuilder, ResamplerBuilder};
use cres::seeds::{StrategicSelector, Strategy};
use cres::traits::{Distance, ObserveCell, Resample};
use noisy_float::prelude::*;
use particle_id::ParticleID;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Search {
    Tree,
    Naive,
    /// `DefaultResampler`, with the Euclidean distance and a cell collector
    DefaultTree,
    DefaultNaive,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Strat {
    Most,
    Least,
    Next,
}
pub const STRATS: [Strat; 3] = [Strat::Most, Strat::Least, Strat::Next];

impl Strat {
    pub fn real(self) -> Strategy {
        match self {
            Strat::Most => Strategy::MostNegative,
            Strat::Least => Strategy::LeastNegative,
            Strat::Next => Strategy::Next,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Sample {
    /// distance matrix by event id
    pub dist: Vec<Vec<f64>>,
    /// weights per event; the first is the central one
    pub weights: Vec<Vec<f64>>,
    pub strat: Strat,
    pub max: Option<f64>,
    pub search: Search,
}

impl Sample {
    pub fn name(&self) -> String {
        let d: Vec<String> = self
            .dist
            .iter()
            .enumerate()
            .map(|(i, r)| {
                r[i + 1..]
                    .iter()
                    .map(|x| format!("{x}"))
                    .collect::<Vec<_>>()
                    .join(",")
            })
            .collect();
        format!(
            "w={:?}/d={}/{:?}/max={:?}/{:?}",
            self.weights,
            d.join("|"),
            self.strat,
            self.max,
            self.search
        )
        .replace(' ', "")
    }
}

/// distances of points on a line
pub fn line(pos: &[f64]) -> Vec<Vec<f64>> {
    pos.iter()
        .map(|a| pos.iter().map(|b| (a - b).abs()).collect())
        .collect()
}

pub fn matrix(n: usize, upper: &[f64]) -> Vec<Vec<f64>> {
    let mut m = vec![vec![0.; n]; n];
    let mut k = 0;
    for i in 0..n {
        for j in i + 1..n {
            m[i][j] = upper[k];
            m[j][i] = upper[k];
            k += 1;
        }
    }
    m
}

pub fn is_pseudometric(m: &[Vec<f64>]) -> bool {
    let n = m.len();
    for i in 0..n {
        for j in 0..n {
            for k in 0..n {
                if m[i][j] > m[i][k] + m[k][j] {
                    return false;
                }
            }
        }
    }
    true
}

#[derive(Clone)]
pub struct MatrixDist(pub Arc<Vec<Vec<f64>>>);
impl Distance for MatrixDist {
    fn distance(&self, a: &Event, b: &Event) -> N64 {
        n64(self.0[a.id][b.id])
    }
}
impl Distance<usize> for MatrixDist {
    fn distance(&self, a: &usize, b: &usize) -> N64 {
        n64(self.0[*a][*b])
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct SeenCell {
    /// sorted member ids
    pub members: Vec<usize>,
    pub radius: f64,
    pub weight: f64,
}

#[derive(Clone, Default)]
pub struct CellLog(pub Arc<Mutex<Vec<SeenCell>>>, pub Arc<Mutex<usize>>);
impl ObserveCell for CellLog {
    fn observe_cell(&self, cell: &Cell) {
        let mut members: Vec<usize> = cell.iter().map(|e| e.id()).collect();
        members.sort_unstable();
        let c = SeenCell {
            radius: cell.radius().into(),
            weight: cell.weight_sum().into(),
            members,
        };
        self.0.lock().unwrap().push(c)
    }
    fn finish(&mut self) {
        *self.1.lock().unwrap() += 1
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Outcome {
    pub ids: Vec<usize>,
    pub outgoing: Vec<f64>,
    pub weights: Vec<Vec<f64>>,
    pub cells: Vec<SeenCell>,
    pub finished: usize,
}

pub fn mkevent(id: usize, weights: &[f64], pos: f64) -> Event {
    let mut b = EventBuilder::new();
    b.add_outgoing(
        ParticleID::new(21),
        FourVector::from([n64(id as f64 + 1.), n64(pos), n64(0.), n64(0.)]),
    );
    for w in weights {
        b.add_weight(n64(*w));
    }
    let mut e = b.build();
    e.id = id;
    e
}

pub fn weights_of(e: &Event) -> Vec<f64> {
    e.weights.read().iter().map(|w| f64::from(*w)).collect()
}

/// Run the real resampler
pub fn resample(s: &Sample) -> Outcome {
    let events: Vec<Event> = s
        .weights
        .iter()
        .enumerate()
        .map(|(i, w)| mkevent(i, w, s.dist[0][i]))
        .collect();
    let log = CellLog::default();
    let b = ResamplerBuilder::default()
        .seeds(StrategicSelector::new(s.strat.real()))
        .distance(MatrixDist(Arc::new(s.dist.clone())))
        .max_cell_size(s.max)
        .observer(log.clone());
    let events = match s.search {
        Search::Tree => b
            .neighbour_search::<TreeSearch>()
            .build()
            .resample(events)
            .unwrap(),
        Search::Naive => b
            .neighbour_search::<NaiveNeighbourSearch>()
            .build()
            .resample(events)
            .unwrap(),
        Search::DefaultTree | Search::DefaultNaive => {
            // the positions on a line are the distances from the first event
            let coll = Rc::new(RefCell::new(CellCollector::new()));
            let b = DefaultResamplerBuilder::default()
                .max_cell_size(s.max)
                .strategy(s.strat.real())
                .cell_collector(Some(coll));
            if s.search == Search::DefaultTree {
                b.build().resample(events).unwrap()
            } else {
                b.neighbour_search::<NaiveNeighbourSearch>()
                    .build()
                    .resample(events)
                    .unwrap()
            }
        }
    };
    let cells = log.0.lock().unwrap().clone();
    let finished = *log.1.lock().unwrap();
    Outcome {
        ids: events.iter().map(|e| e.id).collect(),
        outgoing: events
            .iter()
            .map(|e| f64::from(e.outgoing()[0].1[0][0]))
            .collect(),
        weights: events.iter().map(weights_of).collect(),
        cells,
        finished,
    }
}

/// All possible results of the algorithm with one worker; ties in distance or seed weight lead to
/// several.
pub fn reference(s: &Sample) -> Vec<(Vec<Vec<f64>>, Vec<SeenCell>)> {
    let n = s.weights.len();
    let mut out: Vec<(Vec<Vec<f64>>, Vec<SeenCell>)> = vec![];
    for seeds in seed_orders(s) {
        let mut states = vec![(s.weights.clone(), Vec::<SeenCell>::new())];
        for seed in seeds {
            let mut next = vec![];
            for (w, cells) in states {
                if w[seed][0] >= 0. {
                    next.push((w, cells));
                    continue;
                }
                for (members, radius, sum) in grow(s, &w, seed, n) {
                    let mut w2 = w.clone();
                    let k = w[0].len();
                    for c in 0..k {
                        let mean = members.iter().map(|&m| w[m][c]).sum::<f64>() / members.len() as f64;
                        for &m in &members {
                            w2[m][c] = mean
                        }
                    }
                    let mut cells2 = cells.clone();
                    cells2.push(SeenCell {
                        members,
                        radius,
                        weight: sum,
                    });
                    if !next.iter().any(|(a, b)| *a == w2 && *b == cells2) {
                        next.push((w2, cells2));
                    }
                }
            }
            states = next;
        }
        for st in states {
            if !out.contains(&st) {
                out.push(st)
            }
        }
    }
    out
}

fn seed_orders(s: &Sample) -> Vec<Vec<usize>> {
    let neg: Vec<usize> = (0..s.weights.len())
        .filter(|&i| s.weights[i][0] < 0.)
        .collect();
    let key = |i: usize| match s.strat {
        Strat::Most => s.weights[i][0],
        Strat::Least => -s.weights[i][0],
        Strat::Next => i as f64,
    };
    let mut res = vec![];
    fn rec(left: &[usize], acc: &mut Vec<usize>, key: &dyn Fn(usize) -> f64, res: &mut Vec<Vec<usize>>) {
        if left.is_empty() {
            res.push(acc.clone());
            return;
        }
        let min = left.iter().map(|&i| key(i)).fold(f64::INFINITY, f64::min);
        for &i in left {
            if key(i) == min {
                acc.push(i);
                let rest: Vec<usize> = left.iter().copied().filter(|&j| j != i).collect();
                rec(&rest, acc, key, res);
                acc.pop();
            }
        }
    }
    rec(&neg, &mut vec![], &key, &mut res);
    res
}

/// all cells around `seed`: (sorted members, radius, central weight)
fn grow(s: &Sample, w: &[Vec<f64>], seed: usize, n: usize) -> Vec<(Vec<usize>, f64, f64)> {
    let mut res: Vec<(Vec<usize>, f64, f64)> = vec![];
    let mut todo = vec![(vec![seed], 0f64, w[seed][0])];
    while let Some((m, r, sum)) = todo.pop() {
        let cand: Vec<usize> = (0..n)
            .filter(|i| !m.contains(i) && s.max.is_none_or(|x| s.dist[seed][*i] <= x))
            .collect();
        if sum >= 0. || cand.is_empty() {
            let mut m = m;
            m.sort_unstable();
            if !res.iter().any(|x| x.0 == m) {
                res.push((m, r, sum));
            }
            continue;
        }
        let min = cand
            .iter()
            .map(|&i| s.dist[seed][i])
            .fold(f64::INFINITY, f64::min);
        for c in cand {
            if s.dist[seed][c] == min {
                let mut m2 = m.clone();
                m2.push(c);
                todo.push((m2, min, sum + w[c][0]));
            }
        }
    }
    res
}

/// the size of the largest number
pub fn largest(it: impl IntoIterator<Item = f64>) -> f64 {
    it.into_iter().fold(0., |m, x| f64::max(m, x.abs()))
}

/// equal up to rounding in the sum of numbers of the given size
pub fn close_to(a: f64, b: f64, scale: f64) -> bool {
    (a - b).abs() <= 1e-11 * scale
}

pub fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1. + a.abs().max(b.abs()))
}
