//! C26: what a run reports about the sample and the cells, and that reporting changes nothing
use crate::ctx::*;
use crate::memio::*;
use crate::res::*;
use cres::cell_collector::CellCollector;
use cres::cres::CresBuilder;
use cres::distance::EuclWithScaledPt;
use cres::event::{Event, EventBuilder};
use cres::four_vector::FourVector;
use cres::io::EventRecord;
use cres::neighbour_search::{NaiveNeighbourSearch, TreeSearch};
use cres::resampler::{DefaultResamplerBuilder, ResamplerBuilder};
use cres::seeds::StrategicSelector;
use cres::traits::*;
use cres::unweight::{Unweighter, NO_UNWEIGHTING};
use log::{Level, LevelFilter, Log, Metadata, Record};
use mcsched::{End, Explorer};
use noisy_float::prelude::*;
use particle_id::ParticleID;
use rand::SeedableRng;
use rand_xoshiro::Xoshiro256Plus;
use serde_json::json;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Mutex, Once};

// ------------------------------------------------------------------ what was said

type Said = Vec<(Level, String)>;

thread_local! {
    static MINE: RefCell<Option<(LevelFilter, Said)>> = const { RefCell::new(None) };
}
/// of all threads of the exploration
static ALL: Mutex<Option<Said>> = Mutex::new(None);

struct Listener;
impl Log for Listener {
    fn enabled(&self, m: &Metadata) -> bool {
        if !m.target().starts_with("cres") {
            return false;
        }
        MINE.with(|l| match &*l.borrow() {
            Some((f, _)) => m.level() <= *f,
            None => ALL.lock().unwrap().is_some(),
        })
    }
    fn log(&self, r: &Record) {
        if !self.enabled(r.metadata()) {
            return;
        }
        // not while something is borrowed: the arguments are the code's own
        let text = r.args().to_string();
        MINE.with(|l| match &mut *l.borrow_mut() {
            Some((_, s)) => s.push((r.level(), text)),
            None => {
                if let Some(s) = &mut *ALL.lock().unwrap() {
                    s.push((r.level(), text))
                }
            }
        })
    }
    fn flush(&self) {}
}

fn listen() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        log::set_logger(&Listener).unwrap();
        log::set_max_level(LevelFilter::Trace);
    })
}

/// what `f` does and says in this thread
fn hear<T>(level: LevelFilter, f: impl FnOnce() -> T) -> (Result<T, String>, Said) {
    MINE.with(|l| *l.borrow_mut() = Some((level, vec![])));
    let r = mcsched::quiet(f);
    let said = MINE.with(|l| l.borrow_mut().take()).unwrap().1;
    (r, said)
}

// ------------------------------------------------------------------ samples

/// what the clustering makes
const JET: i32 = 81;
const LEPTON: i32 = 82;
const PHOTON: i32 = 83;

#[derive(Clone, Debug, PartialEq)]
struct Ev {
    /// types of particles and how many
    parts: Vec<(i32, usize)>,
    pos: f64,
    w: f64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Unw {
    No,
    /// threshold, seed
    Yes(f64, u64),
}

#[derive(Clone, Debug)]
struct Case {
    evs: Vec<Ev>,
    strat: Strat,
    max: Option<f64>,
    naive: bool,
    collect: bool,
    unw: Unw,
}

impl Case {
    fn name(&self) -> String {
        let e: Vec<String> = self
            .evs
            .iter()
            .map(|e| {
                let p: Vec<String> = e.parts.iter().map(|(t, n)| format!("{t}x{n}")).collect();
                format!("{}@{}:{}", p.join("+"), e.pos, e.w)
            })
            .collect();
        let e = if e.len() > 12 { format!("{}events-{:x}", e.len(), hash_of(&e)) } else { e.join(",") };
        format!("{e}/{:?}/{:?}/{}/{}/{:?}", self.strat, self.max, self.naive, self.collect, self.unw)
    }
}

struct Conv(Vec<Ev>);
impl TryConvert<EventRecord, Event> for Conv {
    type Error = MemErr;
    fn try_convert(&self, r: EventRecord) -> Result<Event, MemErr> {
        let i: usize = String::try_from(r).unwrap().parse().unwrap();
        Ok(event(&self.0[i]))
    }
}

fn event(e: &Ev) -> Event {
    let mut b = EventBuilder::new();
    for (t, n) in &e.parts {
        for k in 0..*n {
            let px = e.pos + k as f64 / 8.;
            b.add_outgoing(ParticleID::new(*t), FourVector::from([n64(px.abs()), n64(px), n64(0.), n64(0.)]));
        }
    }
    b.add_weight(n64(e.w));
    b.build()
}

type Ran = (RunResult, Option<Vec<(usize, Vec<usize>)>>);

fn exec(c: &Case) -> Ran {
    let written: Written = Default::default();
    let recs: Vec<Rec> = c.evs.iter().map(|e| if e.parts.is_empty() { Rec::Empty(e.w) } else { Rec::Ev(e.pos, e.w) }).collect();
    let coll = c.collect.then(|| Rc::new(RefCell::new(CellCollector::new())));
    let b = DefaultResamplerBuilder::default()
        .strategy(c.strat.real())
        .max_cell_size(c.max)
        .cell_collector(coll.clone());
    let io = MemIO { recs, pos: 0, written: written.clone(), fail_write: false };
    macro_rules! go {
        ($r: expr, $u: expr) => {
            CresBuilder {
                event_io: io,
                converter: Conv(c.evs.clone()),
                clustering: MemCluster,
                resampler: $r,
                unweighter: $u,
            }
            .build()
            .run()
            .map_err(err_name)
        };
    }
    let result = match (c.naive, c.unw) {
        (false, Unw::No) => go!(b.build(), NO_UNWEIGHTING),
        (true, Unw::No) => go!(b.neighbour_search::<NaiveNeighbourSearch>().build(), NO_UNWEIGHTING),
        (false, Unw::Yes(t, s)) => go!(b.build(), Unweighter::new(t, Xoshiro256Plus::seed_from_u64(s))),
        (true, Unw::Yes(t, s)) => go!(
            b.neighbour_search::<NaiveNeighbourSearch>().build(),
            Unweighter::new(t, Xoshiro256Plus::seed_from_u64(s))
        ),
    };
    let written = written.lock().unwrap().clone();
    let cells = coll.map(|c| {
        let mut v: Vec<(usize, Vec<usize>)> = c.borrow().event_cells().into_iter().collect();
        for (_, c) in &mut v {
            c.sort_unstable()
        }
        v.sort_unstable();
        v
    });
    (RunResult { result, written }, cells)
}

/// the cells one worker finds, from an observer of our own
fn seen(c: &Case) -> Vec<SeenCell> {
    let events: Vec<Event> = c
        .evs
        .iter()
        .enumerate()
        .filter(|(_, e)| !e.parts.is_empty())
        .map(|(i, e)| {
            let mut e = event(e);
            e.id = i;
            e
        })
        .collect();
    let log = CellLog::default();
    let b = ResamplerBuilder::default()
        .seeds(StrategicSelector::new(c.strat.real()))
        .distance(EuclWithScaledPt::new(n64(0.)))
        .max_cell_size(c.max)
        .observer(log.clone());
    if c.naive {
        b.neighbour_search::<NaiveNeighbourSearch>().build().resample(events).unwrap();
    } else {
        b.neighbour_search::<TreeSearch>().build().resample(events).unwrap();
    }
    let r = log.0.lock().unwrap().clone();
    r
}

// ------------------------------------------------------------------ oracle

fn number(s: &str) -> Result<f64, String> {
    s.trim().parse().map_err(|_| format!("`{s}` is not a number"))
}

/// is `text` the number `x`, up to rounding errors of the size `err` and the digits printed?
fn shows(text: &str, x: f64, err: f64) -> bool {
    let Ok(got) = text.trim().parse::<f64>() else {
        return false;
    };
    // unit of the last digit
    let (m, e) = text.trim().split_once('e').unwrap_or((text.trim(), "0"));
    let digits = m.split_once('.').map_or(0, |(_, d)| d.len()) as i32;
    let ulp = 10f64.powi(e.parse::<i32>().unwrap_or(0) - digits);
    (got - x).abs() <= 0.5000001 * ulp + err + 1e-13 * x.abs()
}

struct Heard<'a>(&'a Said);
impl<'a> Heard<'a> {
    /// messages of the form "AxB"
    fn with(&self, a: &str, b: &str) -> Vec<&'a str> {
        self.0
            .iter()
            .filter_map(|(_, t)| t.strip_prefix(a)?.strip_suffix(b))
            .collect()
    }
    fn one(&self, a: &str, b: &str) -> Result<&'a str, String> {
        match self.with(a, b).as_slice() {
            [x] => Ok(x),
            l => Err(format!("{} messages `{a}…{b}`", l.len())),
        }
    }
}

fn sums(h: &Heard, which: &str, fraction: &str, w: &[f64]) -> Result<(), String> {
    let text = h.one(&format!("{which} sum of weights: "), "")?;
    let (s, err) = text.split_once(" ± ").ok_or_else(|| format!("no error in `{text}`"))?;
    let sum: f64 = w.iter().sum();
    let abs: f64 = w.iter().map(|x| x.abs()).sum();
    let sq = w.iter().map(|x| x * x).sum::<f64>().sqrt();
    let neg: f64 = w.iter().filter(|x| **x < 0.).map(|x| -x).sum();
    if !shows(s, sum, 1e-12 * abs) {
        return Err(format!("{which} sum of weights {s} instead of {sum}"));
    }
    if !shows(err, sq, 1e-12 * abs) {
        return Err(format!("error {err} of the {which} sum of weights instead of {sq}"));
    }
    let f = h.one(fraction, "")?;
    let want = neg / abs;
    // nothing sensible can be said without any weight
    if abs > 0. && !shows(f, want, 1e-12) {
        return Err(format!("{fraction}{f} instead of {want}"));
    }
    Ok(())
}

fn type_name(t: i32) -> String {
    match t {
        JET => "jets".into(),
        LEPTON => "dressed leptons".into(),
        PHOTON => "isolated photons".into(),
        11 => "electrons".into(),
        -11 => "anti-electrons".into(),
        21 => "gluons".into(),
        12 => "electron neutrinos".into(),
        t => format!("particles with id {t}"),
    }
}

fn categories(h: &Heard, evs: &[Ev]) -> Result<(), String> {
    let mut want: BTreeMap<Vec<(String, usize)>, usize> = BTreeMap::new();
    for e in evs.iter().filter(|e| !e.parts.is_empty()) {
        let mut k: Vec<(String, usize)> = e.parts.iter().map(|(t, n)| (type_name(*t), *n)).collect();
        k.sort();
        *want.entry(k).or_default() += 1
    }
    let mut got: BTreeMap<Vec<(String, usize)>, usize> = BTreeMap::new();
    let mut last = usize::MAX;
    for (_, t) in h.0.iter().filter(|(l, _)| *l == Level::Info) {
        let Some((n, what)) = t.split_once(" events with ") else {
            continue;
        };
        let Ok(n) = n.parse::<usize>() else {
            continue;
        };
        let mut k = vec![];
        for p in what.split(", ") {
            let (m, name) = p.split_once(' ').ok_or_else(|| format!("unexpected `{t}`"))?;
            k.push((name.to_string(), number(m)? as usize));
        }
        k.sort();
        if n > last {
            return Err(format!("`{t}` is not in descending order"));
        }
        last = n;
        if want.get(&k) != Some(&n) {
            return Err(format!("`{t}`, but there are {:?} such events", want.get(&k)));
        }
        if got.insert(k, n).is_some() {
            return Err(format!("`{t}` twice"));
        }
    }
    let missing: Vec<_> = want.iter().filter(|(k, _)| !got.contains_key(*k)).collect();
    if want.len() <= 1000 {
        if let Some((k, n)) = missing.first() {
            return Err(format!("nothing said about {n} events with {k:?}"));
        }
    } else {
        if let Some((k, n)) = missing.iter().find(|(_, n)| **n > last) {
            return Err(format!("nothing said about {n} events with {k:?}"));
        }
        if got.len() < 1000 {
            return Err(format!("only {} of {} categories", got.len(), want.len()));
        }
        let n = h.one("Found more than 1000 event categories (", ")")?;
        if n != want.len().to_string() {
            return Err(format!("{n} categories instead of {}", want.len()));
        }
    }
    Ok(())
}

/// (members, radius, weight) of each cell as announced on its creation
fn announced(h: &Heard) -> Result<Vec<(usize, f64, f64)>, String> {
    h.with("New cell with ", "")
        .iter()
        .map(|t| {
            let (n, t) = t.split_once(" events, radius ").ok_or("unexpected text")?;
            let (r, w) = t.split_once(", and weight ").ok_or("unexpected text")?;
            Ok((number(n)? as usize, number(r)?, number(w)?))
        })
        .collect()
}

fn cells(h: &Heard, cells: &[(usize, f64, f64)]) -> Result<(), String> {
    if cells.is_empty() {
        if let Some(n) = h.with("Created ", " cells").first() {
            if *n != "0" {
                return Err(format!("{n} cells created instead of 0"));
            }
        }
        return Ok(());
    }
    let n = h.one("Created ", " cells")?;
    if n != cells.len().to_string() {
        return Err(format!("{n} cells created instead of {}", cells.len()));
    }
    let neg = cells.iter().filter(|c| c.2 < 0.).count();
    match (neg, h.with("", " cells had negative weight!").as_slice()) {
        (0, []) | (0, ["0"]) => {}
        (n, [t]) if *t == n.to_string() => {}
        (n, t) => return Err(format!("{n} cells with negative weight, but {t:?} reported")),
    }
    let m = h.one("Median radius: ", "")?;
    let mut r: Vec<f64> = cells.iter().map(|c| c.1).collect();
    r.sort_by(f64::total_cmp);
    let (lo, hi) = (r[(r.len() - 1) / 2], r[r.len() / 2]);
    let got = number(m)?;
    if !(got >= lo && got <= hi || shows(m, lo, 0.) || shows(m, hi, 0.)) {
        return Err(format!("median radius {m} of {r:?}"));
    }
    Ok(())
}

const SECTIONS: [&str; 5] = [
    "Cells by creation order:",
    "Largest cells by radius:",
    "Largest cells by number of events:",
    "Cells with largest accumulated weights:",
    "Randomly selected cells:",
];

/// the list of collected cells against what the collector says
fn collected(h: &Heard, map: &[(usize, Vec<usize>)], one_by_one: Option<&[SeenCell]>) -> Result<(), String> {
    let mut section = None;
    let mut lists: BTreeMap<usize, Vec<(usize, usize, Option<f64>)>> = BTreeMap::new();
    for (_, t) in h.0 {
        if let Some(p) = SECTIONS.iter().position(|s| s == t) {
            if lists.insert(p, vec![]).is_some() {
                return Err(format!("`{t}` twice"));
            }
            section = Some(p);
            continue;
        }
        let (Some(s), Some(t)) = (section, t.strip_prefix("Cell ")) else {
            continue;
        };
        let Some((id, t)) = t.split_once(" with ") else {
            continue;
        };
        let (n, rest) = t.split_once(" events").ok_or("unexpected text")?;
        let x = match rest {
            "" => None,
            r => Some(number(r.rsplit(' ').next().unwrap())?),
        };
        lists.get_mut(&s).unwrap().push((number(id)? as usize, number(n)? as usize, x));
    }
    if lists.len() != 5 {
        return Err(format!("{} of 5 lists of cells", lists.len()));
    }
    // how often is each cell listed, with how many events?
    let mut listed: BTreeMap<usize, usize> = BTreeMap::new();
    for (id, n, _) in lists.values().flatten() {
        *listed.entry(*id).or_default() += n
    }
    let mut kept: BTreeMap<usize, usize> = BTreeMap::new();
    for c in map.iter().flat_map(|m| &m.1) {
        *kept.entry(*c).or_default() += 1
    }
    if listed != kept {
        return Err(format!("cells (times events) {listed:?} are listed, {kept:?} are kept"));
    }
    for (s, what) in [(1, "radius"), (3, "weight")] {
        let x: Vec<f64> = lists[&s].iter().map(|c| c.2.unwrap_or(f64::NAN)).collect();
        if x.windows(2).any(|x| x[0].is_nan() || x[0] < x[1]) {
            return Err(format!("cells by {what} are not in order: {x:?}"));
        }
    }
    if lists[&2].windows(2).any(|c| c[0].1 < c[1].1) {
        return Err("cells by number of events are not in order".into());
    }
    if lists[&0].windows(2).any(|c| c[0].0 >= c[1].0) {
        return Err("cells by creation are not in order".into());
    }
    if let Some(cells) = one_by_one {
        for (s, l) in &lists {
            for (id, n, x) in l {
                let Some(c) = cells.get(*id) else {
                    return Err(format!("there is no cell {id}"));
                };
                if c.members.len() != *n {
                    return Err(format!("cell {id} with {n} events instead of {}", c.members.len()));
                }
                let want = if *s == 1 { c.radius } else { c.weight };
                if x.is_some_and(|x| !close(x, want)) {
                    return Err(format!("`{}` cell {id} with {x:?} instead of {want}", SECTIONS[*s]));
                }
            }
        }
    }
    Ok(())
}

fn judge(c: &Case, ran: &Ran, said: &Said, one_by_one: Option<&[SeenCell]>) -> Result<(), String> {
    let h = Heard(said);
    let (r, map) = ran;
    r.result.clone()?;
    let written = r.written.as_ref().ok_or("nothing written")?;
    let n = c.evs.len();
    if h.one("Read ", " events")? != n.to_string() {
        return Err("wrong number of events read".into());
    }
    let full: Vec<usize> = (0..n).filter(|i| !c.evs[*i].parts.is_empty()).collect();
    let ignored = n - full.len();
    match (ignored, h.with("Ignoring ", " events without identified particles").as_slice()) {
        (0, []) | (0, ["0"]) => {}
        (k, [t]) if *t == k.to_string() => {}
        (k, t) => return Err(format!("{k} events without particles, but {t:?} reported")),
    }
    categories(&h, &c.evs)?;
    let before: Vec<f64> = full.iter().map(|i| c.evs[*i].w).collect();
    let after: Vec<f64> = full.iter().map(|i| written[*i].first().copied().unwrap_or(f64::NAN)).collect();
    sums(&h, "Initial", "Negative weight fraction: ", &before)?;
    sums(&h, "Final", "Final negative weight fraction: ", &after)?;
    let neg = before.iter().filter(|w| **w < 0.).count();
    if h.one("Resampling ", " cells")? != neg.to_string() {
        return Err("wrong number of cells to resample".into());
    }
    let a = announced(&h)?;
    cells(&h, &a)?;
    if let Some(s) = one_by_one {
        let s: Vec<(usize, f64, f64)> = s.iter().map(|c| (c.members.len(), c.radius, c.weight)).collect();
        if s.len() != a.len() || s.iter().zip(&a).any(|(s, a)| s.0 != a.0 || !close(s.1, a.1) || !close(s.2, a.2)) {
            return Err(format!("cells {a:?} announced instead of {s:?}"));
        }
        cells(&h, &s)?;
    }
    if let (Some(m), false) = (map, a.is_empty()) {
        collected(&h, m, one_by_one)?
    }
    Ok(())
}

/// just the resampling
fn exec_resampler(c: &Case) -> Option<Vec<(usize, Vec<usize>)>> {
    let events: Vec<Event> = c
        .evs
        .iter()
        .enumerate()
        .map(|(i, e)| {
            let mut e = event(e);
            e.id = i;
            e
        })
        .collect();
    let coll = c.collect.then(|| Rc::new(RefCell::new(CellCollector::new())));
    let b = DefaultResamplerBuilder::default()
        .strategy(c.strat.real())
        .max_cell_size(c.max)
        .cell_collector(coll.clone());
    if c.naive {
        b.neighbour_search::<NaiveNeighbourSearch>().build().resample(events).unwrap();
    } else {
        b.build().resample(events).unwrap();
    }
    coll.map(|c| c.borrow().event_cells().into_iter().collect())
}

fn judge_resampler(c: &Case, map: &Option<Vec<(usize, Vec<usize>)>>, said: &Said) -> Result<(), String> {
    let h = Heard(said);
    let before: Vec<f64> = c.evs.iter().map(|e| e.w).collect();
    sums(&h, "Initial", "Negative weight fraction: ", &before)?;
    let neg = before.iter().filter(|w| **w < 0.).count();
    if h.one("Resampling ", " cells")? != neg.to_string() {
        return Err("wrong number of cells to resample".into());
    }
    let a = announced(&h)?;
    cells(&h, &a)?;
    // the seed has negative weight when its cell is made
    if let Some(c) = a.iter().find(|c| c.0 == 0 || c.0 == 1 && c.2 >= 0.) {
        return Err(format!("cell with {} events and weight {} announced", c.0, c.2));
    }
    if let (Some(m), false) = (map, a.is_empty()) {
        collected(&h, m, None)?
    }
    Ok(())
}

fn same(a: &Ran, b: &Ran) -> bool {
    a == b
}

fn check(ctx: &Ctx, c: &Case) {
    let name = c.name();
    if !ctx.want(&name) || ctx.stop() {
        return;
    }
    let fail = |what: String| {
        let mut what = what;
        if what.len() > 600 {
            what = what.chars().take(600).collect();
        }
        ctx.fail(&name, what, json!({"case": format!("{c:?}").chars().take(2000).collect::<String>()}))
    };
    ctx.within(&name, || {
        ctx.eval();
        let (cells, _) = hear(LevelFilter::Off, || seen(c));
        let cells = match cells {
            Ok(c) => c,
            Err(p) => return fail(format!("panic: {p}")),
        };
        let (all, said) = hear(LevelFilter::Trace, || exec(c));
        let all = match all {
            Ok(r) => r,
            Err(p) => return fail(format!("panic: {p}")),
        };
        if let Err(e) = judge(c, &all, &said, Some(&cells)) {
            return fail(e);
        }
        // the same with less reported
        for l in [LevelFilter::Off, LevelFilter::Error, LevelFilter::Warn, LevelFilter::Info, LevelFilter::Debug] {
            if c.evs.len() > 100 && l != LevelFilter::Off {
                continue;
            }
            ctx.eval();
            let (r, less) = hear(l, || exec(c));
            match r {
                Err(p) => return fail(format!("panic when reporting at level {l}: {p}")),
                Ok(r) if !same(&r, &all) => return fail(format!("result {:?} when reporting at level {l}, {:?} otherwise", r.0, all.0)),
                Ok(_) => {}
            }
            let want: Said = said.iter().filter(|s| s.0 <= l).cloned().collect();
            // in any order: the categories of equal size are listed as they come
            let sorted = |mut s: Said| {
                s.sort();
                s
            };
            if sorted(less) != sorted(want) {
                return fail(format!("different messages at level {l}"));
            }
        }
        ctx.nontrivial(hash_of(&name));
        ctx.validated.fetch_add(1, SeqCst);
    })
}

fn explore(ctx: &Ctx, c: &Case, threads: usize) {
    let name = format!("schedules/{threads}/{}", c.name());
    if !ctx.want(&name) || ctx.stop() {
        return;
    }
    let ex = Explorer {
        max_executions: Some(ctx.by(50_000, 500_000)),
        deadline: Some(ctx.deadline),
        horizon: 6000,
        threads,
        ..Default::default()
    };
    let start = || *ALL.lock().unwrap() = Some(vec![]);
    let stop = || ALL.lock().unwrap().take().unwrap_or_default();
    let c2 = c.clone();
    let body = move || {
        // only this execution
        *ALL.lock().unwrap() = Some(vec![]);
        exec_resampler(&c2)
    };
    let verdict = |end: End<_>| {
        ctx.eval();
        let said = std::mem::take(ALL.lock().unwrap().as_mut().unwrap());
        match end {
            End::Ok(r) => judge_resampler(c, &r, &said),
            End::Panic(p) => Err(format!("panic: {p}")),
            End::Deadlock(w) => Err(format!("deadlock: {w}")),
            End::Horizon => Err("does not end within 6000 scheduling steps".into()),
        }
    };
    start();
    let found = ex.explore(body.clone(), verdict);
    match found {
        Err(e) => ctx.error(format!("{name}: {}", e.0)),
        Ok((st, f)) => {
            ctx.states.fetch_add(st.states, SeqCst);
            ctx.transitions.fetch_add(st.transitions, SeqCst);
            ctx.count("schedules", st.executions);
            if st.capped && f.is_none() {
                ctx.cap("execution limit per sample");
            }
            if let Some(f) = f {
                start();
                let again = match ex.replay(body, &f.schedule) {
                    Ok(e) => verdict(e).err().unwrap_or_default(),
                    Err(e) => e.0,
                };
                if again != f.what && !f.what.starts_with("deadlock: no progress") {
                    ctx.error(format!("{name}: `{}` is not reproducible: {again}", f.what));
                }
                ctx.fail(&name, f.what, json!({"schedule": f.schedule, "trace": f.trace}))
            }
            ctx.nontrivial(hash_of(&name));
        }
    }
    stop();
}

pub fn run(ctx: &Ctx) {
    listen();
    let t = ctx.thorough;
    let (jet, lepton, photon) = (JET, LEPTON, PHOTON);
    let pos = [0., 1., 3.25, 7.5, 16.];
    let base = |w: &[f64], pos: &[f64]| Case {
        evs: w.iter().zip(pos).map(|(w, p)| Ev { parts: vec![(jet, 1)], pos: *p, w: *w }).collect(),
        strat: Strat::Most,
        max: None,
        naive: false,
        collect: true,
        unw: Unw::No,
    };
    let mut cases = vec![];
    // weights, with all settings
    let al = [-2., -0.375, 0., 1., 1234.5];
    for n in 0..=4 {
        for w in Odometer::pow(5, n) {
            let w: Vec<f64> = w.iter().map(|i| al[*i]).collect();
            let b = base(&w, &pos);
            cases.push(b.clone());
            if n == 4 && !t {
                continue;
            }
            for strat in [Strat::Least, Strat::Next] {
                cases.push(Case { strat, ..b.clone() });
            }
            for max in [0.5, 1., 2.5, 6.] {
                cases.push(Case { max: Some(max), naive: max == 2.5, collect: max != 1., ..b.clone() });
            }
            for s in 1..=2 {
                cases.push(Case { unw: Unw::Yes(0.5, s), naive: s == 1, ..b.clone() });
                cases.push(Case { unw: Unw::Yes(2000., s), ..b.clone() });
            }
            // without particles
            for hole in 0..n {
                let mut c = b.clone();
                c.evs[hole].parts.clear();
                cases.push(c.clone());
                if hole > 0 {
                    c.evs[0].parts.clear();
                    cases.push(c)
                }
            }
        }
    }
    // sizes of numbers
    for x in [1e-300, 1e-12, 9.9995, 0.99949, 99949999., 1e22, 1e150] {
        for w in Odometer::pow(4, 3) {
            let w: Vec<f64> = w.iter().map(|i| [x, -x, 1., -0.1 * x][*i]).collect();
            cases.push(base(&w, &pos));
        }
    }
    // types
    let kinds: Vec<Vec<(i32, usize)>> = vec![
        vec![],
        vec![(jet, 1)],
        vec![(jet, 2)],
        vec![(lepton, 1)],
        vec![(photon, 1), (jet, 1)],
        vec![(21, 1)],
        vec![(11, 1), (9_999_993, 2)],
    ];
    for n in 1..=ctx.by(4, 5) {
        for k in Odometer::pow(kinds.len(), n) {
            let mut c = base(&[2., -1., 0.5, 3., -0.5][..n], &pos);
            for (e, k) in c.evs.iter_mut().zip(k) {
                e.parts = kinds[k].clone()
            }
            cases.push(c)
        }
    }
    // many events, many cells, many categories
    for n in [64, 65, 129, 300, 1500] {
        for every in [2, 3, 7, 40] {
            for max in [None, Some(0.5), Some(20.)] {
                let w: Vec<f64> = (0..n).map(|i| if i % every == 1 { -1. - i as f64 / 512. } else { 1.5 + (i % 13) as f64 / 16. }).collect();
                let p: Vec<f64> = (0..n).map(|i| ((i * 37) % 1511) as f64 + (i as f64) / 4096.).collect();
                if n == 1500 && (max.is_none() && every == 2) {
                    continue;
                }
                cases.push(Case { max, ..base(&w, &p) })
            }
        }
    }
    for k in [999, 1000, 1001, 1040] {
        let mut evs = vec![];
        for i in 0..k {
            let parts = vec![(jet, 1 + i % 40), (lepton, 1 + i / 40)];
            for _ in 0..1 + (i % 7 == 0) as usize {
                evs.push(Ev { parts: parts.clone(), pos: i as f64, w: 1. })
            }
        }
        let mut c = base(&[], &[]);
        c.evs = evs;
        cases.push(c)
    }
    ctx.note("samples", cases.len() as u64);
    par_for(&cases, |c| check(ctx, c));
    // schedules
    let mut cases = vec![];
    for n in 2..=ctx.by(4, 5) {
        for w in Odometer::pow(3, n) {
            let w: Vec<f64> = w.iter().map(|i| [-2., 1., 4.][*i]).collect();
            let neg = w.iter().filter(|w| **w < 0.).count();
            if neg == 0 || neg > 2 && n > 3 || n == 5 && w.contains(&4.) {
                continue;
            }
            cases.push(base(&w, &pos));
            if neg > 1 {
                cases.push(Case { max: Some(2.5), ..base(&w, &pos) })
            }
        }
    }
    for c in &cases {
        explore(ctx, c, 2)
    }
    // many cells per worker, which have nothing to do with each other
    for n in [4, 6, 8, 12, 13, 25, 60] {
        for every in [1, 2] {
            let w: Vec<f64> = (0..n).map(|i| if i % every == 0 { -1. - i as f64 / 8. } else { 0.5 + i as f64 }).collect();
            let p: Vec<f64> = (0..n).map(|i| (i / every) as f64 * 3. + (i % every) as f64 / (2. + i as f64)).collect();
            for threads in 1..=3 {
                explore(ctx, &Case { max: Some(1.), ..base(&w, &p) }, threads)
            }
        }
    }
}
