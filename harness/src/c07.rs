//! C07: output equals input up to weights
use crate::ctx::*;
use crate::fmt::*;
use cres::event::Weights;
use cres::io::{CombinedFileIO, IOBuilder};
use cres::traits::*;
use serde_json::json;
use std::path::PathBuf;

const NEW: [f64; 9] = [0.1 + 0.2, -1.2345678901234567e-300, 1.2345678901234567e22, 0.0, -0.0, 5e-324, -123456.789, 1.0, f64::MAX];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Up {
    None,
    Same,
    New,
}

struct Case {
    fmt: Fmt,
    style: Vec<usize>,
    /// events in each file
    split: Vec<usize>,
    nw: usize,
    asked: &'static [usize],
    up: Vec<Up>,
    algo: Algo,
    input: Algo,
    /// record by record instead of all at once
    single: bool,
    big: bool,
}

impl Case {
    fn name(&self) -> String {
        let s: String = self.style.iter().map(|c| c.to_string()).collect();
        let n: Vec<String> = self.split.iter().map(|c| c.to_string()).collect();
        let u: String = self
            .up
            .iter()
            .map(|u| match u {
                Up::None => '-',
                Up::Same => '=',
                Up::New => '*',
            })
            .collect();
        let a: String = self.asked.iter().map(|c| c.to_string()).collect();
        format!(
            "{:?}:style{s}:files{}:w{}:asked{a}:up{u}:{:?}:{:?}{}",
            self.fmt,
            n.join("+"),
            self.nw,
            self.algo,
            self.input,
            match (self.single, self.big) {
                (true, _) => ":single",
                (_, true) => ":big",
                _ => "",
            }
        )
    }
}

fn run_case(ctx: &Ctx, c: &Case) {
    let name = c.name();
    if !ctx.want(&name) {
        return;
    }
    ctx.eval();
    let dir = thread_dir();
    let pool = if c.big { big_events(c.nw) } else { sample_events(c.nw) };
    let mut files = vec![];
    let mut n = 0;
    for k in &c.split {
        let evs: Vec<Ev> = (n..n + k).map(|i| pool[i % pool.len()].clone()).collect();
        n += k;
        files.push(make(c.fmt, &evs, &c.style));
    }
    // a scale of one for a single file of single-event groups; otherwise checked up to rounding
    let mut io_files: Vec<(PathBuf, PathBuf)> = vec![];
    for (i, f) in files.iter().enumerate() {
        let inp = dir.join(format!("in{i}"));
        let outp = dir.join(format!("out{i}"));
        std::fs::write(&inp, c.input.compress(f.text().as_bytes())).unwrap();
        std::fs::write(&outp, "leftover from an earlier run, longer than the file".repeat(100)).unwrap();
        io_files.push((inp, outp));
    }
    let outs: Vec<PathBuf> = io_files.iter().map(|f| f.1.clone()).collect();
    if c.fmt == Fmt::Xml {
        // cross section = number of events, scale 1
        let total: usize = files
            .iter()
            .map(|f| {
                let t = f.text();
                t.matches("<e").count()
            })
            .sum();
        let p = write_norm(&dir, &format!("{}", total.max(1)));
        io_files.insert(io_files.len() / 2, (p, dir.join("unused")));
    }
    // names and new weights
    let all_names = &files[0].names;
    let mut asked: Vec<String> = c.asked.iter().filter_map(|i| all_names.get(*i).cloned()).collect();
    if files[0].evs.is_empty() {
        asked = vec![];
    }
    let evs: Vec<&Ev> = files.iter().flat_map(|f| f.evs.iter()).collect();
    let start = hash_of(&name) as usize % NEW.len();
    let mut ups: Vec<Weights> = vec![];
    let mut want: Vec<Vec<(String, Option<f64>)>> = vec![];
    for (i, ev) in evs.iter().enumerate() {
        let up = c.up[i % c.up.len()];
        let nw = if c.fmt == Fmt::Hep { ev.w.len() } else { 1 };
        let mut w: Vec<(String, Option<f64>)> = ev.w[..nw].iter().map(|s| (s.clone(), None)).collect();
        let val = |j: usize| match up {
            Up::None => None,
            Up::Same => Some(ev.w[j].parse::<f64>().unwrap()),
            Up::New => Some(NEW[(2 * i + j + start) % NEW.len()]),
        };
        let mut list = vec![];
        let pos = positions(all_names, &asked);
        if up != Up::None {
            w[0].1 = val(0);
            list.push(val(0).unwrap());
            for j in 0..nw {
                if pos.contains(&j) {
                    w[j].1 = val(j);
                    list.push(val(j).unwrap());
                }
            }
        }
        ups.push(mkweights(&list));
        want.push(w);
    }
    let inputs: Vec<Vec<u8>> = io_files.iter().map(|f| std::fs::read(&f.0).unwrap()).collect();
    let res = guarded(|| -> Result<usize, String> {
        let mut b = IOBuilder::default();
        b.compression(c.algo.real()).weight_names(asked.clone());
        let mut io: CombinedFileIO = b.build_from_files_iter(io_files.clone()).map_err(|e| chain(&e))?;
        if c.single {
            let mut n = 0;
            for u in &ups {
                if !io.update_next_weights(u).map_err(|e| chain(&e))? {
                    break;
                }
                n += 1
            }
            // one more finds the end
            if io.update_next_weights(&mkweights(&[])).map_err(|e| chain(&e))? {
                return Err("more records than expected".into());
            }
            Ok(n)
        } else {
            io.update_all_weights(&ups).map_err(|e| chain(&e))
        }
    });
    let mut fail = |what: String| {
        ctx.fail(
            &name,
            what,
            json!({"files": files.iter().map(|f| f.text()).collect::<Vec<_>>(), "asked": asked,
                   "updates": want.iter().map(|w| format!("{w:?}")).collect::<Vec<_>>()}),
        )
    };
    match res {
        Err(e) | Ok(Err(e)) => return fail(e),
        Ok(Ok(k)) if k != evs.len() => return fail(format!("{k} records updated instead of {}", evs.len())),
        _ => {}
    }
    for (f, before) in io_files.iter().zip(inputs) {
        if std::fs::read(&f.0).unwrap() != before {
            return fail("the input file was changed".into());
        }
    }
    if dir.join("unused").exists() {
        return fail("output for a normalisation file".into());
    }
    let mut first = 0;
    for (f, outp) in files.iter().zip(&outs) {
        let data = match c.algo.decompress(&std::fs::read(outp).unwrap()) {
            Ok(d) => d,
            Err(e) => return fail(format!("output cannot be decompressed: {e}")),
        };
        let text = String::from_utf8_lossy(&data);
        let ws = match match_output(f, &text) {
            Ok(w) => w,
            Err(e) => return fail(format!("output differs: {e}")),
        };
        for (i, w) in ws.iter().enumerate() {
            let want = &want[first + i];
            for (j, (t, (old, new))) in w.iter().zip(want).enumerate() {
                let ok = match new {
                    None => t == old,
                    Some(v) => t.parse::<f64>().is_ok_and(|x| x == *v && (x != 0. || x.is_sign_negative() == v.is_sign_negative())),
                };
                if !ok {
                    return fail(format!("weight {j} of record {i}: {t} instead of {new:?}, was {old}"));
                }
            }
        }
        first += ws.len();
    }
    ctx.nontrivial(hash_of(&name));
}

pub fn run(ctx: &Ctx) {
    let mut cases = vec![];
    let ups: &[&[Up]] = &[
        &[Up::New],
        &[Up::New, Up::None],
        &[Up::None, Up::Same, Up::New],
        &[Up::Same],
        &[Up::None],
    ];
    let splits: &[&[usize]] = &[&[0], &[1], &[2], &[4], &[1, 1], &[2, 0], &[0, 2], &[0, 0], &[1, 0, 2]];
    for fmt in FMTS {
        for style in styles(fmt, ctx.by(2, 9)) {
            let dev = style.iter().filter(|s| **s > 0).count();
            for split in splits {
                for up in ups {
                    // all combinations for up to two deviations, the longest for more
                    if dev > 2 && (**split != [1, 0, 2][..] || up.len() != 3) {
                        continue;
                    }
                    for nw in if fmt == Fmt::Hep { vec![1, 3] } else { vec![1] } {
                        for asked in WNAMES {
                            if !asked.is_empty() && (fmt != Fmt::Hep || nw == 1 || style[2] == 0) {
                                continue;
                            }
                            for single in [false, true] {
                                if single && dev > 1 {
                                    continue;
                                }
                                cases.push(Case {
                                    fmt,
                                    style: style.clone(),
                                    split: split.to_vec(),
                                    nw,
                                    asked,
                                    up: up.to_vec(),
                                    algo: Algo::None,
                                    input: Algo::None,
                                    single,
                                    big: false,
                                });
                            }
                        }
                    }
                }
            }
            // compressed, input and output
            if dev <= ctx.by(1, 2) {
                for algo in [Algo::Bzip2, Algo::Gzip(6), Algo::Lz4(0), Algo::Zstd(0)] {
                    for (a, i) in [(algo, Algo::None), (Algo::None, algo), (algo, algo)] {
                        for split in splits {
                            cases.push(Case {
                                fmt,
                                style: style.clone(),
                                split: split.to_vec(),
                                nw: 1,
                                asked: WNAMES[0],
                                up: vec![Up::New, Up::None],
                                algo: a,
                                input: i,
                                single: false,
                                big: false,
                            });
                        }
                    }
                }
            }
        }
    }
    // many weights, long records, and many of them
    for fmt in FMTS {
        for style in styles(fmt, 1) {
            for nw in if fmt == Fmt::Hep { vec![1, 3, 40, 257] } else { vec![1] } {
                for asked in WNAMES.iter().take(4).chain(if nw > 3 { &WNAMES_MANY[..] } else { &[] }) {
                    if !asked.is_empty() && (nw == 1 || style[2] == 0) {
                        continue;
                    }
                    for (split, big) in [(vec![9, 2], true), (vec![1, 9], true), (vec![400, 2], false)] {
                        if !big && (style[0] != 1 || nw > 3) {
                            continue;
                        }
                        for up in &ups[..3] {
                            cases.push(Case {
                                fmt,
                                style: style.clone(),
                                split: split.clone(),
                                nw,
                                asked,
                                up: up.to_vec(),
                                algo: Algo::None,
                                input: Algo::None,
                                single: false,
                                big,
                            })
                        }
                    }
                }
            }
        }
    }
    ctx.note("cases", cases.len() as u64);
    for c in cases.iter().step_by(cases.len() / 4 + 1) {
        ctx.sample(c.name());
    }
    par_for(&cases, |c| {
        if !ctx.stop() {
            run_case(ctx, c)
        }
    });
}
