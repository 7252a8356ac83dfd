//! C22: the build with support for several weights and the one without
use crate::c010203;
use crate::c04;
use crate::ctx::*;
use crate::fmt::*;
use crate::res::*;
use cres::cluster::DefaultClustering;
use cres::io::{Converter, IOBuilder};
use cres::neighbour_search::NaiveNeighbourSearch;
use cres::prelude::CresBuilder;
use cres::resampler::DefaultResamplerBuilder;
use cres::unweight::Unweighter;
use mcsched::{End, Explorer};
#[cfg(feature = "multi")]
use serde_json::json;
use std::collections::BTreeSet;
use std::io::Write;
use std::path::Path;

const SHARDS: usize = 8;

enum Job {
    /// one worker
    One(Sample),
    /// all schedules
    All(Sample),
    /// a complete run
    File { fmt: Fmt, style: Vec<usize>, nw: usize, split: bool, unweight: bool, naive: bool },
    /// part of a file, or a file with another weight
    Weight { fmt: Fmt, text: &'static str, at: usize },
}

impl Job {
    fn name(&self) -> String {
        match self {
            Job::One(s) => format!("one/{:x}-{}", hash_of(&central(s)), s.weights.len()),
            Job::All(s) => format!("all/{}", central(s)),
            Job::File { fmt, style, nw, split, unweight, naive } => {
                let s: String = style.iter().map(|x| x.to_string()).collect();
                format!("file/{fmt:?}{s}/{nw}/{split}/{unweight}/{naive}")
            }
            Job::Weight { fmt, text, at } => format!("weight/{fmt:?}/{text}/{at}"),
        }
    }
}

/// a name which is the same in both builds
fn central(s: &Sample) -> String {
    let w: Vec<f64> = s.weights.iter().map(|w| w[0]).collect();
    format!("{:?}/{w:?}/{:?}/{:?}/{:?}", s.dist, s.strat, s.max, s.search).replace(' ', "")
}

fn wts(c: &[f64]) -> Vec<Vec<f64>> {
    c.iter()
        .enumerate()
        .map(|(i, w)| if crate::MULTI { vec![*w, [0.5, -1., 4., 0.25, -3.][i % 5], w * w] } else { vec![*w] })
        .collect()
}

fn jobs(ctx: &Ctx) -> Vec<Job> {
    let mut v = vec![];
    for n in 0..=4usize {
        for m in c04::metrics(ctx, n) {
            let al: &[f64] = match n {
                0..=3 => &[-2.5, -2., -1., 0., 1., 3., 1e-3],
                _ => &[-2., -1., 0., 3.],
            };
            for w in Odometer::pow(al.len(), n) {
                let c: Vec<f64> = w.iter().map(|i| al[*i]).collect();
                let strats = [Strat::Most, Strat::Least, Strat::Next];
                for (k, strat) in strats.into_iter().enumerate() {
                    for (l, max) in [None, Some(1.), Some(2.)].into_iter().enumerate() {
                        for (i, search) in [Search::Tree, Search::Naive].into_iter().enumerate() {
                            if n == 4 && !ctx.thorough && (k + l + i) % 3 != 0 {
                                continue;
                            }
                            v.push(Job::One(Sample { dist: m.clone(), weights: wts(&c), strat, max, search }))
                        }
                    }
                }
            }
        }
    }
    for n in [20, 70, 150, 260] {
        for variant in 0..18 {
            v.push(Job::One(c04::large(n, variant)))
        }
    }
    for (i, s) in c010203::samples(ctx).into_iter().enumerate() {
        if ctx.thorough || i % 7 == 0 {
            v.push(Job::All(s))
        }
    }
    for fmt in [Fmt::Hep, Fmt::Lhef, Fmt::Xml] {
        for style in styles(fmt, ctx.by(1, 2)) {
            let dev = style.iter().filter(|x| **x > 0).count();
            for nw in 1..=(if fmt == Fmt::Hep { 3 } else { 1 }) {
                for split in [false, true] {
                    for unweight in [false, true] {
                        for naive in [false, true] {
                            if dev == 2 && (split || naive) {
                                continue;
                            }
                            v.push(Job::File { fmt, style: style.clone(), nw, split, unweight, naive })
                        }
                    }
                }
            }
        }
        for text in [
            "1", "+1", "-1", "1.", ".5", "1e3", "1E-3", "1e400", "-1e400", "inf", "nan", "NaN", "x", "", "1 2", "0", "-0", "1e-320", "0x10", "1,5",
            "1_0", "1d0",
        ] {
            for at in 0..2 {
                v.push(Job::Weight { fmt, text, at })
            }
        }
    }
    v
}

fn events(n: usize, nw: usize) -> Vec<Ev> {
    let w = ["1.5", "-1", "2", "-0.25", "3", "-2.5", "0.5", "4", "-0.5"];
    let mom: [[&str; 4]; 9] = [
        ["50", "30", "40", "0"],
        ["50", "40", "30", "0"],
        ["65", "0", "63", "16"],
        ["13", "5", "12", "0"],
        ["40", "-40", "0", "0"],
        ["26", "24", "0", "10"],
        ["29", "20", "21", "0"],
        ["17", "-15", "8", "0"],
        ["61", "11", "-60", "0"],
    ];
    (0..n)
        .map(|i| Ev {
            w: (0..nw).map(|k| if k == 0 { w[i].into() } else { w[(i + 4 * k) % 9].into() }).collect(),
            parts: vec![
                (21, ["200", "0", "0", "200"], St::In),
                (1, mom[i], St::Out),
                (if i % 4 == 0 { -11 } else { 11 }, mom[(i + 2) % 9], St::Out),
            ],
        })
        .enumerate()
        .map(|(i, mut e)| {
            // without particles
            if i == 3 || i == 6 {
                e.parts.truncate(1)
            }
            e
        })
        .collect()
}

fn complete(files: Vec<(std::path::PathBuf, std::path::PathBuf)>, unweight: bool, naive: bool) -> Result<(), String> {
    use rand::SeedableRng;
    let io = IOBuilder::default().build_from_files_iter(files).map_err(|e| chain(&e))?;
    let clustering = DefaultClustering::new(cres::cluster::JetDefinition {
        algorithm: cres::cluster::JetAlgorithm::AntiKt,
        radius: 0.4,
        min_pt: 10.,
    });
    let unweighter = Unweighter::new(if unweight { 1.25 } else { 0. }, rand_xoshiro::Xoshiro256Plus::seed_from_u64(7));
    macro_rules! go {
        ($r:expr) => {
            CresBuilder { event_io: io, converter: Converter::new(), clustering, resampler: $r, unweighter }
                .build()
                .run()
                .map_err(|e| chain(&e))
        };
    }
    if naive {
        go!(DefaultResamplerBuilder::default().neighbour_search::<NaiveNeighbourSearch>().build())
    } else {
        go!(DefaultResamplerBuilder::default().build())
    }
}

fn run_files(dir: &Path, texts: &[String], xml: bool, unweight: bool, naive: bool) -> String {
    let mut files = vec![];
    for (i, t) in texts.iter().enumerate() {
        let p = dir.join(format!("in{i}"));
        std::fs::write(&p, t).unwrap();
        files.push((p, dir.join(format!("out{i}"))));
    }
    let outs: Vec<_> = files.iter().map(|f| f.1.clone()).collect();
    for o in &outs {
        let _ = std::fs::remove_file(o);
    }
    if xml {
        files.push((write_norm(dir, "4.5"), dir.join("unused")))
    }
    match complete(files, unweight, naive) {
        Ok(()) => outs.iter().map(|o| std::fs::read_to_string(o).unwrap()).collect::<Vec<_>>().join("\n=====\n"),
        Err(_) => "an error".into(),
    }
}

/// the result of a job, and a number of equivalent executions
fn perform(ctx: &Ctx, j: &Job) -> (String, u64) {
    let r = mcsched::quiet(|| match j {
        Job::One(s) => {
            let o = resample(s);
            let w: Vec<f64> = o.weights.iter().map(|w| w[0]).collect();
            let c: Vec<String> = o.cells.iter().map(|c| format!("{:?} {:?} {:?}", c.members, c.radius, c.weight)).collect();
            (format!("{:?} {w:?} {c:?}", o.ids), 1)
        }
        Job::All(s) => {
            let s1 = s.clone();
            let mut res = BTreeSet::new();
            let ex = Explorer {
                max_executions: Some(ctx.by(3_000, 100_000)),
                deadline: Some(ctx.deadline),
                horizon: 4000,
                threads: 2,
                ..Default::default()
            };
            let r = ex.explore(
                move || resample(&s1),
                |end| match end {
                    End::Ok(o) => {
                        let w: Vec<i64> = o.weights.iter().map(|w| (w[0] * 1e6).round() as i64).collect();
                        res.insert(format!("{w:?}"));
                        Ok(())
                    }
                    _ => Err("bad end".into()),
                },
            );
            match r {
                Ok((st, None)) if !st.capped => (res.into_iter().collect::<Vec<_>>().join(" "), st.executions),
                Ok((_, None)) => ("capped".into(), 0),
                Ok((_, Some(f))) => (format!("schedule fails: {}", f.what), 1),
                Err(e) => (format!("engine: {}", e.0), 0),
            }
        }
        Job::File { fmt, style, nw, split, unweight, naive } => {
            let evs = events(9, *nw);
            let k = if *split { 4 } else { 9 };
            let mut texts = vec![make(*fmt, &evs[..k], style).text()];
            if *split {
                texts.push(make(*fmt, &evs[k..], style).text())
            }
            (run_files(&thread_dir(), &texts, *fmt == Fmt::Xml, *unweight, *naive), 1)
        }
        Job::Weight { fmt, text, at } => {
            let mut evs = events(3, 1);
            evs[*at].w[0] = text.to_string();
            let t = make(*fmt, &evs, &vec![0; dims(*fmt).len()]).text();
            (run_files(&thread_dir(), &[t], *fmt == Fmt::Xml, false, false), 1)
        }
    });
    r.unwrap_or_else(|e| (format!("panic: {e}"), 1))
}

/// results of one part of the jobs on the standard output
pub fn dump(ctx: &Ctx, shard: usize) {
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    for (i, j) in jobs(ctx).iter().enumerate() {
        if i % SHARDS != shard {
            continue;
        }
        if ctx.stop() {
            break;
        }
        let (r, n) = perform(ctx, j);
        writeln!(out, "{}", serde_json::to_string(&(j.name(), r, n)).unwrap()).unwrap();
    }
    out.flush().unwrap();
}

/// the same up to rounding
#[cfg(feature = "multi")]
fn same(a: &str, b: &str) -> Result<(), String> {
    if a == b {
        return Ok(());
    }
    let split = |s: &str| -> Vec<String> {
        s.split(|c: char| c.is_whitespace() || "\",[]<>".contains(c)).filter(|t| !t.is_empty()).map(String::from).collect()
    };
    let (x, y) = (split(a), split(b));
    for (p, q) in x.iter().zip(&y) {
        if p != q {
            match (p.parse::<f64>(), q.parse::<f64>()) {
                (Ok(p), Ok(q)) if close(p, q) => {}
                _ => return Err(format!("{p:?} with several weights, {q:?} with one")),
            }
        }
    }
    if x.len() != y.len() {
        return Err(format!("{} parts with several weights, {} with one", x.len(), y.len()));
    }
    Ok(())
}

#[cfg(feature = "multi")]
pub fn run(ctx: &Ctx) {
    use std::io::BufRead;
    use std::process::{Command, Stdio};
    use std::sync::atomic::Ordering::SeqCst;
    let single = std::env::current_exe().unwrap().with_file_name("mc-single");
    let all = jobs(ctx);
    let shards: Vec<usize> = (0..SHARDS).collect();
    par_for(&shards, |shard| {
        let mut child = match Command::new(&single)
            .args(["c22-dump", if ctx.thorough { "thorough" } else { "quick" }, &shard.to_string()])
            .env("VERIF_SCRATCH", scratch(&format!("single{shard}")))
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
        {
            Ok(c) => c,
            Err(e) => {
                ctx.error(format!("cannot start {single:?}: {e}"));
                return;
            }
        };
        let mut lines = std::io::BufReader::new(child.stdout.take().unwrap()).lines();
        for (i, j) in all.iter().enumerate() {
            if i % SHARDS != *shard {
                continue;
            }
            if ctx.stop() {
                break;
            }
            let name = j.name();
            let Some(Ok(line)) = lines.next() else {
                let st = child.wait().unwrap();
                if st.success() {
                    // out of time
                    ctx.cap("time");
                } else {
                    ctx.fail(&name, format!("the build with one weight ends with {st}"), json!({}));
                }
                return;
            };
            let (n1, r1, e1): (String, String, u64) = serde_json::from_str(&line).unwrap();
            if n1 != name {
                ctx.error(format!("job {name} became {n1}"));
                return;
            }
            if !ctx.want(&name) {
                continue;
            }
            let (r, e) = ctx.within(&name, || perform(ctx, j));
            ctx.eval();
            if let Job::All(_) = j {
                if r == "capped" || r1 == "capped" {
                    ctx.count("samples_cut_at_the_execution_limit", 1);
                    continue;
                }
                ctx.count("schedules_with_several_weights", e);
                ctx.count("schedules_with_one_weight", e1);
                ctx.states.fetch_add(e + e1, SeqCst);
                ctx.transitions.fetch_add(e + e1, SeqCst);
            }
            if let (Job::File { .. }, "an error") = (j, r.as_str()) {
                ctx.fail(&name, "the run fails", json!({}));
                continue;
            }
            for (r, b) in [(&r, "several weights"), (&r1, "one weight")] {
                if r.starts_with("panic") || r.starts_with("schedule fails") {
                    ctx.fail(&name, format!("with {b}: {r}"), json!({}));
                }
                if r.starts_with("engine") {
                    ctx.error(format!("{name}: {r}"));
                }
            }
            match same(&r, &r1) {
                Ok(()) => ctx.nontrivial(hash_of(&(&r, matches!(j, Job::One(_))))),
                Err(e) => ctx.fail(&name, e, json!({"several": r, "one": r1})),
            }
        }
        let _ = child.kill();
        let _ = child.wait();
    });
}
