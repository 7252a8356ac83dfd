//! C13: classification of events into the regions of a partition
use crate::c12::{descend, style0};
use crate::ctx::*;
use crate::fmt::*;
use crate::res::*;
use crate::tools;
use cres::cluster::{DefaultClustering, JetAlgorithm, JetDefinition};
use cres::distance::EuclWithScaledPt;
use cres::event::EventBuilder;
use cres::four_vector::FourVector;
use cres::io::FileReader;
use cres::partition::{VPBisection, VPTreePartition};
use noisy_float::prelude::*;
use particle_id::ParticleID;
use serde_json::json;
use std::collections::BTreeMap;
use std::path::Path;

/// vantage points and radii such that the regions of the line are intervals of length 10
fn tree(regions: usize) -> Vec<(f64, f64)> {
    let mut v: Vec<(f64, f64)> = vec![];
    let mut level = 1;
    while level < regions {
        let w = 10. * (regions / level) as f64;
        v.extend((0..level).map(|k| (0., w * (k as f64 + 0.5))));
        level *= 2
    }
    v
}

pub fn write_partition(dir: &Path, regions: usize) {
    let vp = tree(regions)
        .into_iter()
        .map(|(x, r)| {
            let mut b = EventBuilder::new();
            b.add_outgoing(ParticleID::new(25), FourVector::from([n64(200.), n64(x), n64(0.), n64(0.)]));
            b.add_weight(n64(-1.));
            VPBisection { pt: b.build(), r: n64(r) }
        })
        .collect();
    let part = unsafe { VPTreePartition::from_vp(vp, EuclWithScaledPt::new(n64(0.))) };
    let cl = DefaultClustering::new(JetDefinition { algorithm: JetAlgorithm::AntiKt, radius: 0.4, min_pt: 30. });
    std::fs::write(dir.join("part.yaml"), serde_yaml::to_string(&(cl, part)).unwrap()).unwrap();
}

/// the k-th event, in the given region
fn event(k: usize, region: usize, long: usize) -> Ev {
    // the last one is on the boundary
    let x = 10. * region as f64 + [2.5, 5., 7.25, 10.][k % 4];
    let s = |x: String| -> &'static str { Box::leak(x.into_boxed_str()) };
    let mut parts = vec![
        (21, ["65.", "0", "0", "65."], St::In),
        (25, ["200", s(format!("{x}")), "0.0", "-0"], St::Out),
    ];
    if k % 2 == 1 {
        // too soft for a jet, but not without clustering
        parts.push((1, ["22", "12.0", "16.", "9"], St::Out));
        parts.insert(0, (12, ["13", "5", "12", "0"], St::Out));
        parts.push((24, ["80", "1", "2", "3"], St::Inter));
    }
    if k % 3 == 1 {
        let m = parts.len() - 1;
        for i in 0..long {
            parts.insert(m, ([24, -6, 23][i % 3], ["80.123456789", "1.5e+01", "-2.25", "3"], St::Inter))
        }
    }
    Ev { w: vec![["1.5E+00", "-2", "0.", "7e-3", "-1.25"][k % 5].into()], parts }
}

struct Case {
    fmt: Fmt,
    style: Vec<usize>,
    regions: usize,
    /// region of each event, for each input
    inputs: Vec<Vec<usize>>,
    compr: Algo,
    out: (&'static str, Algo),
    names: [&'static str; 2],
    /// additional particles in some of the records
    long: usize,
}

impl Case {
    fn name(&self) -> String {
        let d = |v: &[usize]| v.iter().map(|x| x.to_string()).collect::<String>();
        format!(
            "{:?}:style{}:regions{}:{}:{:?}:{}:{}{}",
            self.fmt,
            d(&self.style),
            self.regions,
            self.inputs.iter().map(|i| if i.len() < 60 { d(i) } else { format!("{}events{}", i.len(), hash_of(i) % 1000) }).collect::<Vec<_>>().join("+"),
            self.compr,
            self.out.0,
            self.names[0],
            if self.long > 0 { format!(":{}", self.long) } else { String::new() }
        )
    }
}

const PLAIN: (&str, Algo) = ("", Algo::None);

fn well_formed_xml(text: &str) -> Result<(), String> {
    use quick_xml::events::Event;
    let mut r = quick_xml::Reader::from_str(text);
    r.config_mut().check_end_names = true;
    let mut stack: Vec<String> = vec![];
    let mut roots = 0;
    loop {
        match r.read_event() {
            Err(e) => return Err(format!("not well-formed XML: {e}")),
            Ok(Event::Start(s)) => {
                let n = String::from_utf8_lossy(s.name().as_ref()).into_owned();
                let want = match n.as_str() {
                    "Eventrecord" => None,
                    "e" => Some("Eventrecord"),
                    "se" => Some("e"),
                    _ => Some("se"),
                };
                if stack.last().map(|s| s.as_str()) != want {
                    return Err(format!("<{n}> inside {stack:?}"));
                }
                if stack.is_empty() {
                    roots += 1
                }
                stack.push(n)
            }
            Ok(Event::End(e)) => {
                let n = String::from_utf8_lossy(e.name().as_ref()).into_owned();
                if stack.pop() != Some(n.clone()) {
                    return Err(format!("</{n}> without start"));
                }
            }
            Ok(Event::Eof) => break,
            Ok(Event::Text(t)) => {
                if stack.len() < 3 && !t.iter().all(|c| c.is_ascii_whitespace()) {
                    return Err(format!("text inside {stack:?}"));
                }
            }
            Ok(_) => {}
        }
    }
    if !stack.is_empty() || roots != 1 {
        return Err(format!("{roots} records, {stack:?} not closed"));
    }
    Ok(())
}

/// Skip blanks, and what may stand between events
fn skip<'a>(mut s: &'a str, fmt: Fmt, notes: &[&str]) -> &'a str {
    loop {
        let t = s.trim_start();
        let t = match fmt {
            Fmt::Xml => ["<e>", "</e>", "<e >", "</e >", "<e\n\t>"].iter().find_map(|g| t.strip_prefix(g)).unwrap_or(t),
            _ => t,
        };
        let t = notes.iter().find_map(|n| t.strip_prefix(n)).unwrap_or(t);
        if t.len() == s.len() {
            return t;
        }
        s = t
    }
}

const FOOT: [&str; 3] = ["HepMC::IO_GenEvent-END_EVENT_LISTING", "</LesHouchesEvents>", "</Eventrecord>"];

fn judge_text(f: &File, mine: &[usize], text: &str) -> Result<(), String> {
    let foot = FOOT[f.fmt as usize];
    let long = long_note();
    let notes = ["<!-- the end > -->", "<!-- the end -->", &long];
    let head = f.text_of(0, *f.starts.first().unwrap());
    // without events, the header is followed by the footer
    let head = match f.fmt {
        Fmt::Xml => head.trim_end().trim_end_matches("<e>").trim_end_matches("<e >").trim_end_matches("<e\n\t>").trim_end().to_string(),
        Fmt::Lhef => head,
        Fmt::Hep => head,
    };
    let mut rest = text.strip_prefix(head.as_str()).ok_or_else(|| format!("does not start with the header of the input: {:?}", text.chars().take(300).collect::<String>()))?;
    for i in mine {
        let e = f.text_of(f.starts[*i], f.starts[i + 1]);
        let core = match f.fmt {
            Fmt::Xml => &e[..e.rfind("</se>").unwrap() + 5],
            _ => e.trim(),
        };
        rest = skip(rest, f.fmt, &notes);
        rest = rest.strip_prefix(core).ok_or_else(|| {
            format!("event {i} of the input should be at byte {}, but there is {:?}", text.len() - rest.len(), rest.chars().take(200).collect::<String>())
        })?;
        if f.fmt == Fmt::Hep && !rest.starts_with('\n') && !rest.starts_with("\r\n") {
            return Err(format!("line of event {i} continues with {:?}", rest.chars().take(60).collect::<String>()));
        }
    }
    rest = skip(rest, f.fmt, &notes);
    match rest.strip_prefix(foot) {
        Some(r) if r.trim().is_empty() => {}
        None if rest.is_empty() && f.fmt == Fmt::Hep && !f.text().contains(foot) => {}
        _ => return Err(format!("ends with {:?} instead of {foot:?}", rest.chars().take(200).collect::<String>())),
    }
    if f.fmt == Fmt::Xml {
        well_formed_xml(text)?
    }
    Ok(())
}

fn run_case(ctx: &Ctx, c: &Case) {
    let name = c.name();
    if !ctx.want(&name) || ctx.stop() {
        return;
    }
    ctx.eval();
    let dir = tools::fresh("c13");
    write_partition(&dir, c.regions);
    let mut files = vec![];
    let mut args = tools::args(&["-p", "part.yaml", "-o", "out"]);
    if !c.out.0.is_empty() {
        args.extend(tools::args(&["-c", c.out.0]))
    }
    let mut k = 0;
    for (i, regions) in c.inputs.iter().enumerate() {
        let evs: Vec<Ev> = regions
            .iter()
            .map(|r| {
                k += 1;
                event(k - 1, *r, c.long)
            })
            .collect();
        let f = make(c.fmt, &evs, &c.style);
        let p = dir.join(c.names[i]);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(&p, c.compr.compress(f.text().as_bytes())).unwrap();
        args.push(c.names[i].into());
        files.push(f)
    }
    let before = tools::tree(&dir);
    let r = tools::run("cres-classify-events", &args, &dir, Default::default());
    let mut after = tools::tree(&dir);
    let outs: BTreeMap<String, Vec<u8>> = after.iter().filter_map(|(k, v)| Some((k.strip_prefix("out/")?.to_string(), v.clone()))).collect();
    after.retain(|k, _| !k.starts_with("out/"));
    let res = (|| -> Result<(), String> {
        if !r.ok() {
            return Err(r.describe());
        }
        if before != after {
            return Err("other files changed".into());
        }
        let mut expected = 0;
        for (i, f) in files.iter().enumerate() {
            let base = Path::new(c.names[i]).file_name().unwrap().to_str().unwrap();
            let (pre, suf) = base.split_once('.').unwrap();
            for region in 0..c.regions {
                let n = format!("{pre}.{region}.{suf}");
                expected += 1;
                let raw = outs.get(&n).ok_or_else(|| format!("there is no {n}: {:?}", outs.keys()))?;
                let err = |e: String| format!("{n}: {e}");
                let data = c.out.1.decompress(raw).map_err(err)?;
                let text = String::from_utf8(data).map_err(|e| err(e.to_string()))?;
                let mine: Vec<usize> = (0..f.evs.len())
                    .filter(|k| {
                        let x: f64 = f.evs[*k].parts.iter().find(|p| p.0 == 25).unwrap().1[1].parse().unwrap();
                        let x = if f.mev { 1e-3 * x } else { x };
                        let t = tree(c.regions);
                        let d = descend(&t, |(v, r)| (v - x).abs() <= *r);
                        assert!(f.mev || d == c.inputs[i][*k] || d + 1 == c.regions);
                        d == region
                    })
                    .collect();
                judge_text(f, &mine, &text).map_err(err)?;
                // read by the library
                let p = dir.join("out").join(&n);
                let got = guarded(|| -> Result<_, String> {
                    let rd = FileReader::try_new(p).map_err(|e| chain(&e))?;
                    rd.map(|r| {
                        let ev = convert(&[], r.map_err(|e| chain(&e))?)?;
                        Ok((outgoing(&ev), weights_of(&ev)))
                    })
                    .collect::<Result<Vec<_>, String>>()
                })
                .and_then(|x| x)
                .map_err(err)?;
                let scale = if f.mev { 1e-3 } else { 1. };
                let ok = got.len() == mine.len()
                    && got.iter().zip(&mine).all(|(g, i)| {
                        same_outgoing(&g.0, &expected_outgoing(&f.evs[*i], scale)) && g.1 == [f.evs[*i].w[0].parse::<f64>().unwrap()]
                    });
                if !ok {
                    return Err(err(format!("read as {got:?}, expected events {mine:?}")));
                }
            }
        }
        if outs.len() != expected {
            return Err(format!("unexpected output files: {:?}", outs.keys()));
        }
        Ok(())
    })();
    match res {
        Ok(()) => {
            if c.inputs.iter().flatten().any(|r| *r != c.inputs.iter().flatten().copied().next().unwrap()) {
                ctx.nontrivial(hash_of(&name))
            }
        }
        Err(e) => ctx.fail(
            &name,
            e,
            json!({
                "inputs": files.iter().map(|f| f.text()).collect::<Vec<_>>(),
                "outputs": outs.iter().map(|(k, v)| (k.clone(), String::from_utf8_lossy(v).into_owned())).collect::<BTreeMap<_, _>>(),
            }),
        ),
    }
}

pub fn run(ctx: &Ctx) {
    let mut cases = vec![];
    const N: [&str; 2] = ["first.dat", "second.dat"];
    let base = |fmt: Fmt, regions: usize, inputs: Vec<Vec<usize>>| Case {
        fmt,
        style: style0(fmt),
        regions,
        inputs,
        compr: Algo::None,
        out: PLAIN,
        names: N,
        long: 0,
    };
    for fmt in FMTS {
        // all assignments of events to regions
        for regions in [1, 2, 4] {
            for n in 0..=ctx.by(4, if regions == 2 { 7 } else { 5 }) {
                for a in Odometer::pow(regions, n) {
                    cases.push(base(fmt, regions, vec![a.clone()]));
                    if fmt == Fmt::Xml && n > 1 {
                        // two or all events in a group
                        for g in [1, 2] {
                            let mut c = base(fmt, regions, vec![a.clone()]);
                            c.style[2] = g;
                            cases.push(c)
                        }
                    }
                    if n <= ctx.by(3, 4) {
                        for cut in 0..=n {
                            cases.push(base(fmt, regions, vec![a[..cut].to_vec(), a[cut..].to_vec()]))
                        }
                    }
                }
            }
        }
        for n in 0..=ctx.by(2, 3) {
            for a in Odometer::pow(8, n) {
                cases.push(base(fmt, 8, vec![a]))
            }
        }
        // many events
        for n in [20usize, 50] {
            for step in [1, 2, 3, 5, 7] {
                cases.push(base(fmt, 4, vec![(0..n).map(|i| i * step % 7 % 4).collect()]))
            }
        }
        // many regions, many and long records
        for (regions, n, long) in [(16, 40, 0), (32, 100, 0), (64, 200, 3), (256, 500, 0), (2, 3000, 0), (4, 12, 2000), (8, 20, 30_000), (1024, 100, 0)] {
            let pick = |seed: usize| (0..n).map(|i| (i * 7919 + i / 3 * seed) % regions).collect::<Vec<_>>();
            for inputs in [vec![pick(11)], vec![pick(5), pick(13)]] {
                if regions > 200 && inputs.len() > 1 {
                    continue;
                }
                for g in 0..if fmt == Fmt::Xml { 3 } else { 1 } {
                    let mut c = base(fmt, regions, inputs.clone());
                    c.long = long;
                    if g > 0 {
                        c.style[2] = g
                    }
                    if regions == 64 {
                        c.out = ("zstd_1", Algo::Zstd(1))
                    }
                    if regions == 8 {
                        c.out = ("lz4_16", Algo::Lz4(16));
                        c.compr = Algo::Gzip(6)
                    }
                    cases.push(c)
                }
            }
        }
        // ways of writing the file
        for style in styles(fmt, ctx.by(1, 2)) {
            for inputs in [vec![vec![0, 1, 0]], vec![vec![1, 1]], vec![vec![1, 0], vec![0]], vec![vec![0, 1], vec![0, 1]], vec![vec![0, 1, 1, 0, 0]]] {
                let mut c = base(fmt, 2, inputs);
                c.style = style.clone();
                cases.push(c)
            }
        }
        // a file without events, written in different ways
        for style in styles(fmt, 1) {
            let mut c = base(fmt, 2, vec![vec![]]);
            c.style = style;
            cases.push(c)
        }
        // compression
        for compr in [Algo::None, Algo::Bzip2, Algo::Gzip(6), Algo::Lz4(1), Algo::Zstd(3)] {
            for out in [
                PLAIN,
                ("bzip2", Algo::Bzip2),
                ("gzip", Algo::Gzip(6)),
                ("GZIP_9", Algo::Gzip(9)),
                ("lz4", Algo::Lz4(0)),
                ("lz4_16", Algo::Lz4(16)),
                ("zstd", Algo::Zstd(0)),
                ("zstd_1", Algo::Zstd(1)),
            ] {
                for inputs in [vec![vec![0, 1, 0]], vec![vec![1, 1], vec![1]]] {
                    let mut c = base(fmt, 2, inputs);
                    c.compr = compr;
                    c.out = out;
                    c.names = ["a.lhe.x.gz", "sub/b.dat"];
                    cases.push(c)
                }
            }
        }
    }
    ctx.note("runs_of_the_tool", cases.len());
    par_for(&cases, |c| run_case(ctx, c));
}
