//! The scheduler against itself: the exploration with partial order reduction has to reach every
//! result that the one without reduction reaches
use crate::ctx::*;
use mcsched::{End, Explorer, Mode};
use std::collections::BTreeSet;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};

/// what a task does in one step
#[derive(Clone, Copy, Debug)]
enum Do {
    Read(usize),
    Write(usize),
    /// write the second while holding the first
    Nested(usize, usize),
    /// read the first, then write the second with it, not holding the first
    Copy(usize, usize),
    Try(usize),
    Spawn(usize),
}
use Do::*;
const DOS: [Do; 7] = [Read(0), Write(0), Write(1), Nested(0, 1), Nested(1, 0), Copy(0, 1), Try(0)];

fn exec(prog: &[Vec<Do>]) -> String {
    let locks = [parking_lot::RwLock::new(1u64), parking_lot::RwLock::new(2u64)];
    let log = Mutex::new(vec![]);
    fn act(d: Do, t: usize, locks: &[parking_lot::RwLock<u64>; 2], log: &Mutex<Vec<(usize, u64)>>) {
        let up = |x: &mut u64| *x = *x * 3 + t as u64 + 1;
        match d {
            Read(i) => {
                let v = *locks[i].read();
                log.lock().unwrap().push((t, v))
            }
            Write(i) => up(&mut locks[i].write()),
            Nested(i, j) => {
                let mut a = locks[i].write();
                let mut b = locks[j].write();
                up(&mut a);
                *b += *a;
            }
            Copy(i, j) => {
                let v = *locks[i].read();
                *locks[j].write() += 100 * v + t as u64;
            }
            Try(i) => match locks[i].try_write() {
                Some(mut a) => up(&mut a),
                None => log.lock().unwrap().push((t, 0)),
            },
            Spawn(i) => {
                let (_, ()) = rayon::join(|| act(Write(i), t + 10, locks, log), || act(Read(i), t + 20, locks, log));
            }
        }
    }
    rayon::scope(|s| {
        for (t, ops) in prog.iter().enumerate() {
            let (locks, log) = (&locks, &log);
            s.spawn(move |_| {
                for d in ops {
                    act(*d, t, locks, log)
                }
            });
        }
    });
    let mut l = log.into_inner().unwrap();
    l.sort();
    format!("{} {} {l:?}", locks[0].read(), locks[1].read())
}

/// results, number of schedules, all of them
fn outcomes(prog: &Arc<Vec<Vec<Do>>>, mode: Mode, limit: Option<u64>) -> Result<(BTreeSet<String>, u64, bool), String> {
    let mut res = BTreeSet::new();
    let ex = Explorer { mode, horizon: 500, threads: 4, max_executions: limit, ..Default::default() };
    let p = prog.clone();
    match ex.explore(
        move || exec(&p),
        |e| {
            res.insert(match e {
                End::Ok(s) => s,
                End::Deadlock(_) => "deadlock".into(),
                End::Panic(p) => format!("panic {p}"),
                End::Horizon => "horizon".into(),
            });
            Ok(())
        },
    ) {
        Ok((st, None)) => Ok((res, st.executions, !st.capped)),
        Ok((_, Some(f))) => Err(f.what),
        Err(e) => Err(e.0),
    }
}

pub fn run(ctx: &Ctx) {
    let mut progs: Vec<Vec<Vec<Do>>> = vec![];
    // one operation each
    for n in 2..=3 {
        for o in Odometer::pow(DOS.len(), n) {
            if o.windows(2).all(|w| w[0] <= w[1]) {
                progs.push(o.iter().map(|i| vec![DOS[*i]]).collect())
            }
        }
    }
    // two operations each
    for o in Odometer::pow(DOS.len(), 4) {
        if o[..2] <= o[2..] && (ctx.thorough || (o[0] + 2 * o[1] + 3 * o[2] + o[3]) % 3 == 0) {
            progs.push(vec![vec![DOS[o[0]], DOS[o[1]]], vec![DOS[o[2]], DOS[o[3]]]])
        }
    }
    // nested tasks
    for o in Odometer::pow(DOS.len(), 1) {
        progs.push(vec![vec![Spawn(0)], vec![DOS[o[0]]]]);
        progs.push(vec![vec![Spawn(1), DOS[o[0]]], vec![Write(1)]]);
    }
    for o in Odometer::pow(5, 2) {
        progs.push(vec![vec![Spawn(0)], vec![DOS[o[0]]], vec![DOS[o[1]]]]);
        progs.push(vec![vec![DOS[o[0]], Spawn(0)], vec![Spawn(1), DOS[o[1]]]]);
    }
    par_for(&progs, |p| {
        if ctx.only.is_some() || ctx.stop() {
            return;
        }
        let limit = Some(if ctx.thorough { 20_000 } else { 5_000 });
        let bounded = Mode::Naive { preemptions: Some(if ctx.thorough { 3 } else { 2 }) };
        let p = Arc::new(p.clone());
        let mut all = outcomes(&p, Mode::Naive { preemptions: None }, limit);
        // too many: those with few preemptions
        if let Ok((found, n, false)) = &all {
            all = outcomes(&p, bounded, limit).map(|(more, m, _)| (found | &more, n + m, false));
        }
        match (outcomes(&p, Mode::Dpor, None), all) {
            (Ok(a), Ok(b)) => {
                ctx.count("self_test_programs", 1);
                ctx.count("self_test_schedules_reduced", a.1);
                ctx.count("self_test_schedules_all", b.1);
                ctx.count("self_test_programs_exhausted_without_reduction", b.2 as u64);
                ctx.validated.fetch_add(1, SeqCst);
                if !b.0.is_subset(&a.0) || (b.2 && a.0 != b.0) {
                    ctx.error(format!("self-test: {p:?}: {:?} with reduction, {:?} without", a.0, b.0));
                }
            }
            (a, b) => ctx.error(format!("self-test: {p:?}: {a:?} {b:?}")),
        }
    });
}
