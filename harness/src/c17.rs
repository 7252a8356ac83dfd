//! C17: sequences of operations on event input and output
use crate::ctx::*;
use crate::fmt::*;
use cres::event::Weights;
use cres::io::{CombinedFileIO, EventRecord, FileIO, FileReader, IOBuilder};
use cres::traits::*;
use serde_json::json;
use std::path::PathBuf;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Next,
    Update,
    Rewind,
    /// update everything / only the first events / with more weights than events
    All,
    Part,
    More,
}
use Op::*;
const OPS: [Op; 6] = [Next, Update, Rewind, All, Part, More];

fn letters(ops: &[Op]) -> String {
    ops.iter()
        .map(|o| match o {
            Next => 'n',
            Update => 'u',
            Rewind => 'r',
            All => 'A',
            Part => 'P',
            More => 'M',
        })
        .collect()
}

/// where the model is
#[derive(Clone, Debug)]
struct Model {
    /// None: not specified, until the next rewind
    pos: Option<usize>,
    /// new weight for each record, if the outputs have been written completely
    since_rewind: Vec<Option<usize>>,
    reads: bool,
}

struct World {
    files: Vec<File>,
    evs: Vec<Ev>,
    io_files: Vec<(PathBuf, PathBuf)>,
    outs: Vec<PathBuf>,
    ups: Vec<Weights>,
}

fn new_weight(i: usize) -> f64 {
    0.25 + i as f64
}

impl World {
    fn new(fmt: Fmt, split: &[usize], inputs: &[PathBuf], dir: &std::path::Path) -> Self {
        let pool = sample_events(1);
        let mut files = vec![];
        let mut n = 0;
        let style = vec![0; dims(fmt).len()];
        for k in split {
            let evs: Vec<Ev> = (n..n + k).map(|i| pool[i % pool.len()].clone()).collect();
            n += k;
            files.push(make(fmt, &evs, &style));
        }
        let mut io_files = vec![];
        for (i, f) in inputs.iter().enumerate() {
            io_files.push((f.clone(), dir.join(format!("out{i}"))));
        }
        let outs = io_files[..files.len()].iter().map(|f| f.1.clone()).collect();
        let evs = files.iter().flat_map(|f| f.evs.clone()).collect();
        let ups = (0..n + 2).map(|i| mkweights(&[new_weight(i)])).collect();
        Self { files, evs, io_files, outs, ups }
    }

    fn check_record(&self, i: usize, r: EventRecord) -> Result<(), String> {
        let ev = convert(&[], r)?;
        let want = &self.evs[i];
        if !same_outgoing(&outgoing(&ev), &expected_outgoing(want, 1.)) {
            return Err(format!("record {i} expected, got another one with {:?}", outgoing(&ev)));
        }
        let w = weights(&ev);
        if (w[0] - want.w[0].parse::<f64>().unwrap()).abs() > 1e-14 * w[0].abs() {
            return Err(format!("record {i}: weight {w:?}"));
        }
        Ok(())
    }

    /// outputs after an update of the first `n` records
    fn check_outputs(&self, n: usize) -> Result<(), String> {
        let mut first = 0;
        for (f, o) in self.files.iter().zip(&self.outs) {
            let text = std::fs::read_to_string(o).map_err(|e| format!("{}: {e}", o.display()))?;
            let k = f.evs.len();
            if first + k <= n {
                let ws = match_output(f, &text)?;
                for (i, w) in ws.iter().enumerate() {
                    if w[0].parse::<f64>().ok() != Some(new_weight(first + i)) {
                        return Err(format!("record {}: weight {w:?} written", first + i));
                    }
                }
            }
            first += k
        }
        Ok(())
    }
}

/// Run a sequence; the error says after how many operations it failed
fn run_seq(w: &World, ops: &[Op], hints: bool) -> Result<(Option<usize>, bool), String> {
    let n = w.evs.len();
    let mut io: CombinedFileIO = IOBuilder::default().build_from_files_iter(w.io_files.clone()).map_err(|e| chain(&e))?;
    let mut m = Model { pos: Some(0), since_rewind: vec![], reads: false };
    for (k, op) in ops.iter().enumerate() {
        let fail = |s: String| format!("operation {k} ({op:?}): {s}");
        match op {
            Next => {
                let r = io.next();
                m.reads = true;
                match (m.pos, r) {
                    (_, Some(Err(e))) => return Err(fail(chain(&e))),
                    (Some(p), None) if p < n => return Err(fail(format!("end reported before record {p}"))),
                    (Some(p), Some(Ok(_))) if p == n => return Err(fail("a record after the last one".into())),
                    (Some(p), Some(Ok(r))) => {
                        w.check_record(p, r).map_err(fail)?;
                        m.pos = Some(p + 1)
                    }
                    _ => {}
                }
            }
            Update => {
                let i = m.pos.unwrap_or(0).min(n);
                let r = io.update_next_weights(&w.ups[i]).map_err(|e| fail(chain(&e)))?;
                if let Some(p) = m.pos {
                    if r != (p < n) {
                        return Err(fail(format!("returned {r} at record {p} of {n}")));
                    }
                    if p < n {
                        m.pos = Some(p + 1);
                        m.since_rewind.push(Some(p));
                    } else if !m.reads {
                        w.check_outputs(n).map_err(fail)?
                    }
                }
            }
            Rewind => {
                io.rewind().map_err(|e| fail(chain(&e)))?;
                m = Model { pos: Some(0), since_rewind: vec![], reads: false }
            }
            All | Part | More => {
                let k = match op {
                    All => n,
                    Part => n.saturating_sub(1),
                    _ => n + 2,
                };
                let r = io.update_all_weights(&w.ups[..k]).map_err(|e| fail(chain(&e)))?;
                if r != k.min(n) {
                    return Err(fail(format!("{r} records updated with {k} weights for {n} records")));
                }
                w.check_outputs(k.min(n)).map_err(fail)?;
                m = Model { pos: (k >= n).then_some(n), since_rewind: vec![], reads: true };
            }
        }
        if let Some(p) = m.pos {
            let (lo, hi) = io.size_hint();
            let left = n - p;
            if lo > left || hi.is_some_and(|h| h < left) || hints && (lo, hi) != (left, Some(left)) {
                return Err(fail(format!("size hint {:?} with {left} records left", (lo, hi))));
            }
        }
    }
    Ok((m.pos, m.reads))
}

/// Reading from one file with either interface
fn run_single(w: &World, ops: &[Op], reader: bool, xml: bool) -> Result<(), String> {
    enum Io {
        R(FileReader),
        F(FileIO),
    }
    let n = w.evs.len();
    let mut io = if reader {
        Io::R(FileReader::try_new(w.io_files[0].0.clone()).map_err(|e| chain(&e))?)
    } else {
        let (a, b) = w.io_files[0].clone();
        Io::F(IOBuilder::default().build_from_files(a, b).map_err(|e| chain(&e))?)
    };
    let mut pos = 0;
    for (k, op) in ops.iter().enumerate() {
        let fail = |s: String| format!("operation {k} ({op:?}): {s}");
        match op {
            Next => {
                let r = match &mut io {
                    Io::R(r) => r.next().map(|r| r.map_err(|e| chain(&e))),
                    Io::F(r) => r.next().map(|r| r.map_err(|e| chain(&e))),
                };
                match r {
                    Some(Err(e)) => return Err(fail(e)),
                    None if pos < n => return Err(fail(format!("end reported before record {pos}"))),
                    Some(Ok(_)) if pos == n => return Err(fail("a record after the last one".into())),
                    Some(Ok(r)) => {
                        w.check_record(pos, r).map_err(fail)?;
                        pos += 1
                    }
                    _ => {}
                }
            }
            Rewind => {
                match &mut io {
                    Io::R(r) => r.rewind().map_err(|e| fail(chain(&e)))?,
                    Io::F(r) => r.rewind().map_err(|e| fail(chain(&e)))?,
                }
                pos = 0
            }
            _ => {
                // ends the sequence
                let Io::F(io) = &mut io else { return Ok(()) };
                let r = io.update_all_weights(&w.ups[..n]).map_err(|e| fail(chain(&e)))?;
                if r != n {
                    return Err(fail(format!("{r} records updated instead of {n}")));
                }
                drop(io);
                return w.check_outputs(n).map_err(fail);
            }
        }
        let (lo, hi) = match &io {
            Io::R(r) => r.size_hint(),
            Io::F(r) => r.size_hint(),
        };
        let left = n - pos;
        if lo > left || hi.is_some_and(|h| h < left) || xml && (lo, hi) != (left, Some(left)) {
            return Err(fail(format!("size hint {:?} with {left} records left", (lo, hi))));
        }
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    let splits: &[&[usize]] = &[
        &[],
        &[0],
        &[1],
        &[2],
        &[1, 1],
        &[0, 1],
        &[1, 0],
        &[0, 0],
        &[2, 1],
        &[1, 0, 1],
        &[0, 0, 2],
        &[1, 2, 0],
    ];
    let depth = ctx.by(5, 6);
    ctx.note("depth", depth as u64);
    let root = scratch("c17");
    let mut jobs = vec![];
    for fmt in FMTS {
        for (s, split) in splits.iter().enumerate() {
            // the inputs are shared
            let mut inputs = vec![];
            let mut groups = 0;
            let w = World::new(fmt, split, &vec![PathBuf::new(); split.len()], &root);
            for (i, f) in w.files.iter().enumerate() {
                let p = root.join(format!("{fmt:?}{s}in{i}"));
                std::fs::write(&p, f.text()).unwrap();
                groups += f.text().matches("<e").count();
                inputs.push(p);
            }
            if fmt == Fmt::Xml && !split.is_empty() {
                let p = root.join(format!("norm{s}.xml"));
                std::fs::write(&p, normalization("Bm", &groups.max(1).to_string())).unwrap();
                inputs.push(p);
            }
            // maximal sequences only; every prefix is checked along the way
            let d = if split.len() > 1 { depth } else { depth + 1 };
            for ops in Odometer::pow(OPS.len(), d) {
                jobs.push((fmt, s, inputs.clone(), ops));
            }
        }
    }
    ctx.note("sequences", jobs.len() as u64);
    par_for(&jobs, |(fmt, s, inputs, ops)| {
        if ctx.stop() {
            return;
        }
        let ops: Vec<Op> = ops.iter().map(|i| OPS[*i]).collect();
        let files: Vec<String> = splits[*s].iter().map(|n| n.to_string()).collect();
        let name = format!("{fmt:?}:files{}:{}", files.join("+"), letters(&ops));
        if !ctx.want(&name) {
            return;
        }
        ctx.eval();
        let w = World::new(*fmt, splits[*s], inputs, &thread_dir());
        let res = guarded(|| run_seq(&w, &ops, *fmt == Fmt::Xml && !splits[*s].is_empty()));
        match res {
            Ok(Ok(end)) => ctx.nontrivial(hash_of(&(fmt, s, end))),
            Ok(Err(e)) | Err(e) => ctx.fail(&name, e, json!({"operations": format!("{ops:?}")})),
        }
        ctx.transitions.fetch_add(ops.len() as u64, std::sync::atomic::Ordering::SeqCst);
        ctx.validated.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    });
    // one file
    let mut singles = vec![];
    for fmt in FMTS {
        for s in 1..4 {
            for reader in [true, false] {
                // files with a scale need the combined interface
                if fmt == Fmt::Xml && !reader {
                    continue;
                }
                for ops in Odometer::pow(3, ctx.by(6, 9)) {
                    singles.push((fmt, s, reader, ops));
                }
            }
        }
    }
    ctx.note("sequences_single_file", singles.len() as u64);
    par_for(&singles, |(fmt, s, reader, ops)| {
        if ctx.stop() {
            return;
        }
        let ops: Vec<Op> = ops.iter().map(|i| [Next, Rewind, All][*i]).collect();
        let name = format!("single:{fmt:?}:{}:files{}:{}", if *reader { "reader" } else { "io" }, splits[*s][0], letters(&ops));
        if !ctx.want(&name) {
            return;
        }
        ctx.eval();
        let w = World::new(*fmt, splits[*s], &[root.join(format!("{fmt:?}{s}in0"))], &thread_dir());
        let res = guarded(|| run_single(&w, &ops, *reader, *fmt == Fmt::Xml));
        if let Ok(Err(e)) | Err(e) = res {
            ctx.fail(&name, e, json!({"operations": format!("{ops:?}")}))
        }
        ctx.transitions.fetch_add(ops.len() as u64, std::sync::atomic::Ordering::SeqCst);
        ctx.validated.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    });
    // states of the model: position in each sample, and whether it was read or updated so far
    let states: u64 = FMTS.len() as u64 * splits.iter().map(|s| 2 * (s.iter().sum::<usize>() as u64 + 1) + 1).sum::<u64>();
    ctx.states.fetch_add(states, std::sync::atomic::Ordering::SeqCst);
}
