//! C10: the same event is read from every format; C23: STRIPPER scaling
use crate::ctx::*;
use crate::fmt::*;
use cres::io::{EventRecord, FileReader, IOBuilder};
use cres::traits::*;
use serde_json::json;

const PARTS: [Part; 13] = [
    (21, ["65.", "0", "0", "65."], St::In),
    (-11, ["50.25", "-3.0e+01", "4.0e+01", "0.5"], St::Out),
    (2212, ["1.25E+02", "3", "-4", "1.25e+02"], St::Inter),
    (1, ["20", "+1.2e+01", "16.0", "-0.0"], St::Out),
    (2, ["7", "0", "0", "7"], St::Out),
    (1, ["0.30000000000000004", "-1E-3", ".25", "123456789.125"], St::Out),
    (22, ["1e1", "6", "8", "0e0"], St::Out),
    (-12, ["13", "5", "12", "0"], St::In),
    (5, ["7", "1", "2", "3"], St::Inter),
    (22, ["1e1", "6", "8", "0e0"], St::Inter),
    (1000022, ["9.1e-05", "-9.1e-05", "0", "0"], St::Out),
    (-1, ["1.7976931348623157e+30", "1", "1", "1"], St::Out),
    (25, ["125", "0", "0", "0"], St::Out),
];
const WTS: [&str; 8] = ["1.5000000000000000e+00", "-2.25E-03", "0", "+7e5", "1", "-0.0", "123456789012345678", ".5"];

struct Case {
    fmt: Fmt,
    style: Vec<usize>,
    evs: Vec<Ev>,
    split: bool,
    tag: String,
}

fn scale_of(files: &[File], xs: f64) -> f64 {
    let n: usize = files.iter().map(|f| f.text().matches("<e").count()).sum();
    xs / n as f64
}

fn run_case(ctx: &Ctx, c: &Case) {
    let s: String = c.style.iter().map(|c| c.to_string()).collect();
    let name = format!("{:?}:style{s}:{}", c.fmt, c.tag);
    if !ctx.want(&name) {
        return;
    }
    let dir = thread_dir();
    let parts: Vec<&[Ev]> = if c.split && c.evs.len() > 1 {
        vec![&c.evs[..1], &c.evs[1..]]
    } else {
        vec![&c.evs]
    };
    let files: Vec<File> = parts.iter().map(|e| make(c.fmt, e, &c.style)).collect();
    let mut io_files = vec![];
    for (i, f) in files.iter().enumerate() {
        let inp = dir.join(format!("in{i}"));
        std::fs::write(&inp, f.text()).unwrap();
        io_files.push((inp, dir.join(format!("out{i}"))));
    }
    let inputs: Vec<_> = io_files.iter().map(|f| f.0.clone()).collect();
    let xs = 3.5;
    let mut scale = 1.;
    if c.fmt == Fmt::Xml {
        scale = scale_of(&files, xs);
        let p = write_norm(&dir, &xs.to_string());
        io_files.insert(c.evs.len() % 2, (p, dir.join("unused")));
    }
    let e_scale = if files[0].mev { 1e-3 } else { 1. };
    let fail = |what: String| {
        ctx.fail(&name, what, json!({"files": files.iter().map(|f| f.text()).collect::<Vec<_>>()}));
    };
    let check = |i: usize, asked: &[String], r: EventRecord, wscale: f64| -> Result<(), String> {
        ctx.eval();
        let ev = guarded(|| convert(asked, r))??;
        let exp = &c.evs[i];
        let got = outgoing(&ev);
        let want = expected_outgoing(exp, e_scale);
        if !same_outgoing(&got, &want) {
            return Err(format!("event {i}: particles {got:?} instead of {want:?}"));
        }
        let got = weights(&ev);
        let val = |s: &String| s.parse::<f64>().unwrap() * wscale;
        let mut want = vec![val(&exp.w[0])];
        for j in positions(&files[0].names, asked) {
            want.push(val(&exp.w[j]))
        }
        if got.len() != want.len() || got.iter().zip(&want).any(|(a, b)| (a - b).abs() > 1e-14 * b.abs() * (wscale != 1.) as u8 as f64) {
            return Err(format!("event {i}: weights {got:?} instead of {want:?} (asked for {asked:?})"));
        }
        if ev.id() != 0 {
            return Err(format!("event {i}: id {}", ev.id()));
        }
        Ok(())
    };
    for asked in WNAMES.iter().chain(&WNAMES_MANY) {
        let asked: Vec<String> = asked.iter().filter_map(|i| files[0].names.get(*i).cloned()).collect();
        if !asked.is_empty() && c.fmt != Fmt::Hep {
            continue;
        }
        if files[0].names.len() < 40 && asked.len() > 3 {
            continue;
        }
        // through a combined reader
        let res = guarded(|| -> Result<usize, String> {
            let mut b = IOBuilder::default();
            b.weight_names(asked.clone());
            let io = b.build_from_files_iter(io_files.clone()).map_err(|e| chain(&e))?;
            let mut n = 0;
            for r in io {
                if n == c.evs.len() {
                    return Err("too many events".into());
                }
                check(n, &asked, r.map_err(|e| chain(&e))?, scale)?;
                n += 1
            }
            Ok(n)
        });
        match res {
            Err(e) | Ok(Err(e)) => return fail(e),
            Ok(Ok(n)) if n != c.evs.len() => return fail(format!("{n} instead of {} events", c.evs.len())),
            _ => {}
        }
    }
    // a name that is not there is an error for each event
    if c.fmt == Fmt::Hep && crate::MULTI && !c.evs.is_empty() {
        for missing in ["W", "w00", "Weight  ", "", "eight"] {
            let asked = vec![files[0].names.first().cloned().unwrap_or_default(), missing.to_string()];
            let res = guarded(|| -> Result<(), String> {
                let mut b = IOBuilder::default();
                b.weight_names(asked.clone());
                let io = b.build_from_files_iter(io_files.clone()).map_err(|e| chain(&e))?;
                for (i, r) in io.enumerate() {
                    if convert(&asked, r.map_err(|e| chain(&e))?).is_ok() {
                        return Err(format!("no error for event {i}, which has no weight {missing:?}"));
                    }
                }
                Ok(())
            });
            if let Err(e) | Ok(Err(e)) = res {
                return fail(e);
            }
        }
    }
    // through plain readers, which do not know about the scaling
    let res = guarded(|| -> Result<usize, String> {
        let mut n = 0;
        for i in &inputs {
            let mut io = FileReader::try_new(i.clone()).map_err(|e| chain(&e))?;
            for round in 0..2 {
                let first = n;
                for r in &mut io {
                    if n == c.evs.len() {
                        return Err("too many events".into());
                    }
                    check(n, &[], r.map_err(|e| chain(&e))?, 1.)?;
                    n += 1
                }
                if round == 0 {
                    n = first;
                    io.rewind().map_err(|e| chain(&e))?;
                }
            }
        }
        Ok(n)
    });
    match res {
        Err(e) | Ok(Err(e)) => return fail(format!("reader: {e}")),
        Ok(Ok(n)) if n != c.evs.len() => return fail(format!("reader: {n} instead of {} events", c.evs.len())),
        _ => {}
    }
    ctx.nontrivial(hash_of(&(c.fmt, &c.style, &c.evs)));
}

pub fn run(ctx: &Ctx) {
    // all lists of particles
    let mut lists: Vec<Vec<Part>> = vec![vec![]];
    let np = ctx.by(9, 13);
    for n in 1..=3 {
        for ix in Odometer::pow(np, n) {
            lists.push(ix.iter().map(|i| PARTS[*i]).collect())
        }
    }
    let mut cases = vec![];
    let mut events: Vec<Ev> = vec![];
    for (i, l) in lists.iter().enumerate() {
        events.push(Ev { w: (0..3).map(|j| WTS[(i + 3 * j) % 8].to_string()).collect(), parts: l.clone() });
    }
    // all lists in the standard way and with each deviation
    for fmt in FMTS {
        for style in styles(fmt, 1) {
            for (i, e) in events.chunks(4).enumerate() {
                if i % 9 != 0 && !ctx.thorough && style.iter().any(|x| *x > 0) && events.len() > 100 {
                    continue;
                }
                cases.push(Case { fmt, style: style.clone(), evs: e.to_vec(), split: i % 2 == 1, tag: format!("particles{i}") });
            }
        }
        // all weights, in all positions, and numbers of weights
        for style in styles(fmt, ctx.by(2, 3)) {
            for nw in if fmt == Fmt::Hep { 1..=3 } else { 1..=1 } {
                for n in 0..3usize {
                    for (k, w) in WTS.iter().enumerate() {
                        let evs: Vec<Ev> = (0..n)
                            .map(|i| Ev {
                                w: (0..nw).map(|j| if i == 0 { w.to_string() } else { WTS[(k + i + j) % 8].to_string() }).collect(),
                                parts: lists[(7 * k + 13 * i + 11) % lists.len()].clone(),
                            })
                            .collect();
                        cases.push(Case { fmt, style: style.clone(), evs, split: false, tag: format!("weights{nw}:{n}:{k}") });
                    }
                }
            }
        }
    }
    // long records, particles without type, and many weights
    for fmt in FMTS {
        for style in styles(fmt, 1) {
            for nw in if fmt == Fmt::Hep { vec![1, 40, 257] } else { vec![1] } {
                for split in [false, true] {
                    cases.push(Case { fmt, style: style.clone(), evs: big_events(nw), split, tag: format!("big{nw}:{split}") })
                }
            }
        }
    }
    ctx.note("files", cases.len() as u64);
    ctx.note("particle_lists", lists.len() as u64);
    par_for(&cases, |c| {
        if !ctx.stop() {
            run_case(ctx, c)
        }
    });
}

// ---------------------------------------------------------------- C23

/// One file of the sample: normalisation or events of a channel
#[derive(Clone, Debug)]
enum X {
    Norm(usize),
    Events(usize, Vec<Vec<usize>>),
}

pub fn run_scaling(ctx: &Ctx) {
    const LONG: &str = "a very long name of a channel, with (many) characters: 0123456789 abcdefghijklmnopqrstuvwxyz ABCDEFGHIJKLMNOPQRSTUVWXYZ; and so on, far beyond what would fit into a line of a terminal and even two of them";
    // names, cross sections, and numbers of events in addition to those in the file
    type Variant = ([&'static str; 3], [&'static str; 3], [u64; 3]);
    const VARIANTS: [Variant; 12] = [
        (["Bm", "RRF", "VV s e"], ["1", "687.103", "0e0"], [0; 3]),
        (["Bm", "RRF", "VV s e"], ["687.103", "0e0", "-2.5e-01"], [0; 3]),
        (["Bm", "RRF", "VV s e"], ["0e0", "-2.5e-01", "3e4"], [0; 3]),
        (["Bm", "RRF", "VV s e"], ["-2.5e-01", "3e4", "1"], [0; 3]),
        (["Bm", "RRF", "VV s e"], ["3e4", "1", "687.103"], [0; 3]),
        ([" x", "x", "x "], ["2", "3", "5"], [0; 3]),
        (["bm", "Bm", "BM"], ["1e-9", "-3e-12", "1e-5"], [3, 1000, 7]),
        ([LONG, "é", "Bm.1"], ["1e-150", "-1.5e+120", "+4.25"], [0; 3]),
        (["0", "00", "1"], ["687.103", "1", "2.5"], [(1 << 32) - 3, (1 << 24) + 1, (1 << 33) + 12345]),
        (["a>b", "a|b", "a'b"], ["7e-7", "1.5", "6"], [99, 0, 1 << 40]),
        (["a&amp;b", "a&lt;b", "a b"], ["7", "1.5", "6"], [0; 3]),
        (["q&quot;", "&#65;", "&gt;&apos;"], ["7", "1.5", "6"], [0; 3]),
    ];
    // changes of the weights
    const FACTORS: [f64; 3] = [1., -0.5, 4.];
    const W: [f64; 4] = [-0.0002369763508, 1., 0., 12345.678];
    // contents of event files: sizes of the <e> groups
    let contents: Vec<Vec<usize>> = vec![vec![], vec![1], vec![2], vec![1, 1], vec![1, 2], vec![3], vec![0, 1]];
    let nc = ctx.by(2, 3);
    let mut layouts: Vec<Vec<X>> = vec![];
    // up to three event files over the channels, every order of all files
    for nf in 1..=3usize {
        for chans in Odometer::pow(nc, nf) {
            for cont in Odometer::pow(ctx.by(if nf < 3 { 7 } else { 3 }, if nf < 3 { 7 } else { 5 }), nf) {
                let mut fs: Vec<X> = vec![];
                for (c, k) in chans.iter().zip(&cont) {
                    // one group per <e>
                    fs.push(X::Events(*c, contents[*k].iter().map(|n| vec![0; *n]).collect()));
                }
                let mut used: Vec<usize> = chans.clone();
                used.sort();
                used.dedup();
                // normalisation files: all first, all last, in between; all for a single event file
                let orders: Vec<usize> = vec![0, 1, 2];
                for o in orders {
                    let mut l = fs.clone();
                    for (i, u) in used.iter().enumerate() {
                        let pos = match o {
                            0 => 0,
                            1 => l.len(),
                            _ => (i + 1).min(l.len()),
                        };
                        l.insert(pos, X::Norm(*u))
                    }
                    layouts.push(l)
                }
                // one channel without normalisation
                let mut l = fs.clone();
                for u in &used[1..] {
                    l.insert(0, X::Norm(*u))
                }
                layouts.push(l);
            }
        }
    }
    ctx.note("layouts", layouts.len() as u64);
    let idx: Vec<usize> = (0..layouts.len()).collect();
    par_for(&idx, |&li| {
        if ctx.stop() {
            return;
        }
        for (xi, (names, xss, more)) in VARIANTS.iter().enumerate() {
            let name = format!("layout{li}:xs{xi}");
            if !ctx.want(&name) {
                continue;
            }
            ctx.eval();
            let dir = thread_dir();
            let l = &layouts[li];
            let xs = |c: usize| xss[c];
            let mut files = vec![];
            let mut texts = vec![];
            // expected: channel and number of each event
            let mut nev = [0u64; 3];
            let mut norm = [false; 3];
            let mut want: Vec<(usize, f64)> = vec![];
            for (i, f) in l.iter().enumerate() {
                let t = match f {
                    X::Norm(c) => {
                        norm[*c] = true;
                        normalization(names[*c], xs(*c))
                    }
                    X::Events(c, groups) => {
                        let nevents = groups.len() as u64 + more[*c];
                        nev[*c] += nevents;
                        let ns: usize = groups.iter().map(|g| g.len()).sum();
                        let mut t = format!(
                            "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<Eventrecord nevents=\"{}\" nsubevents=\"{ns}\" nreweights=\"0\" as=\"2\" name=\"{}\">\n",
                            nevents, names[*c]
                        );
                        for g in groups {
                            t += "<e>\n";
                            for _ in g {
                                let w = W[want.len() % 4];
                                want.push((*c, w));
                                t += &format!("<se w=\"{w}\" muR=\"1\" muF=\"1\">\n<p id=\"0,{}\"> 1,{},0,0 </p>\n</se>\n", want.len(), want.len());
                            }
                            t += "</e>\n";
                        }
                        t + "</Eventrecord>\n"
                    }
                };
                let p = dir.join(format!("x{i}.xml"));
                std::fs::write(&p, &t).unwrap();
                files.push((p, dir.join(format!("y{i}.xml"))));
                texts.push(t)
            }
            let fail = |what: String| ctx.fail(&name, what, json!({ "files": texts }));
            let complete = l.iter().all(|f| match f {
                X::Events(c, _) => norm[*c],
                _ => true,
            });
            let res = guarded(|| -> Result<Vec<_>, String> {
                let mut io = IOBuilder::default().build_from_files_iter(files.clone()).map_err(|e| chain(&e))?;
                let mut got = vec![];
                while let Some(r) = io.next() {
                    let ev = convert(&[], r.map_err(|e| chain(&e))?)?;
                    let p = outgoing(&ev);
                    got.push((p, weights(&ev)));
                    if got.len() > want.len() {
                        return Err("too many events".into());
                    }
                }
                // write them back, some of them changed
                let ws: Vec<_> = got
                    .iter()
                    .enumerate()
                    .map(|(i, g)| mkweights(&g.1.iter().map(|w| w * FACTORS[i % 3]).collect::<Vec<_>>()))
                    .collect();
                let n = io.update_all_weights(&ws).map_err(|e| chain(&e))?;
                if n != ws.len() {
                    return Err(format!("{n} events updated instead of {}", ws.len()));
                }
                Ok(got)
            });
            let got = match (res, complete) {
                (Err(e), _) => {
                    fail(e);
                    continue;
                }
                (Ok(Err(_)), false) => {
                    ctx.nontrivial(hash_of(&name));
                    continue;
                }
                (Ok(Err(e)), true) => {
                    fail(e);
                    continue;
                }
                (Ok(Ok(_)), false) => {
                    fail("no error for a missing normalisation".into());
                    continue;
                }
                (Ok(Ok(g)), true) => g,
            };
            if got.len() != want.len() {
                fail(format!("{} events instead of {}", got.len(), want.len()));
                continue;
            }
            let mut ok = true;
            for (i, ((p, w), (c, old))) in got.iter().zip(&want).enumerate() {
                let exp = old * xs(*c).parse::<f64>().unwrap() / nev[*c] as f64;
                if w.len() != 1 || (w[0] - exp).abs() > 1e-14 * exp.abs() {
                    fail(format!("event {i}: weight {w:?} instead of {exp}"));
                    ok = false;
                    break;
                }
                if p.len() != 1 || p[0].0 != i as i32 + 1 {
                    fail(format!("event {i} out of order: {p:?}"));
                    ok = false;
                    break;
                }
            }
            // the scale divides out in the output
            let mut n = 0;
            for (i, f) in l.iter().enumerate() {
                if !ok {
                    break;
                }
                if let X::Norm(_) = f {
                    continue;
                }
                let out = std::fs::read_to_string(&files[i].1).unwrap_or_default();
                let ws: Vec<f64> = out
                    .split("<se w=\"")
                    .skip(1)
                    .filter_map(|s| s.split('"').next().unwrap().parse().ok())
                    .collect();
                let k = texts[i].matches("<se ").count();
                if ws.len() != k {
                    fail(format!("{} events written to file {i} instead of {k}", ws.len()));
                    ok = false;
                    break;
                }
                for w in ws {
                    // without cross section there is only one weight
                    let vanishes = xs(want[n].0).parse::<f64>().unwrap() == 0.;
                    let exp = want[n].1 * if vanishes { 1. } else { FACTORS[n % 3] };
                    if (w - exp).abs() > 1e-14 * w.abs() {
                        fail(format!("event {n}: {w} written back instead of {exp}"));
                        ok = false;
                        break;
                    }
                    n += 1
                }
            }
            ctx.nontrivial(hash_of(&name));
        }
    });
}
