//! C24: option values are understood exactly or refused
use crate::c12::Stored;
use crate::c21::{self, write_sample, Setting};
use crate::ctx::*;
use crate::fmt::*;
use crate::tools::{self, args, Opt};
use cres::cluster::{DefaultClustering, JetAlgorithm};
use cres::seeds::Strategy;
use serde_json::json;
use std::collections::BTreeSet;
use std::path::PathBuf;

type Change = std::sync::Arc<dyn Fn(&mut Setting) + Sync + Send>;

#[derive(Clone)]
enum Verdict {
    /// has to be accepted with this meaning
    Must(Change),
    /// if accepted, then with this meaning
    May(Change),
    Refuse,
}
use Verdict::*;

fn ch(f: impl Fn(&mut Setting) + Sync + Send + 'static) -> Change {
    std::sync::Arc::new(f)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Tool {
    Cres,
    Partition,
    Classify,
}
impl Tool {
    fn name(self) -> &'static str {
        match self {
            Tool::Cres => "cres",
            Tool::Partition => "cres-partition",
            Tool::Classify => "cres-classify-events",
        }
    }
}

struct Case {
    tool: Tool,
    name: String,
    args: Vec<String>,
    verdict: Verdict,
    /// level of the compression is not documented
    any_level: bool,
}

/// words that are close to the documented ones, and what they mean
fn near(docs: &[&str], aliases: &[(&str, &str)]) -> Vec<(String, Option<String>, bool)> {
    let mut all = BTreeSet::new();
    for d in docs.iter().chain(aliases.iter().map(|(a, _)| a)) {
        let c: Vec<char> = d.chars().collect();
        let s = |v: &[char]| v.iter().collect::<String>();
        all.insert(d.to_string());
        for i in 0..c.len() {
            let mut v = c.clone();
            v.remove(i);
            all.insert(s(&v));
            let mut v = c.clone();
            v.insert(i, c[i]);
            all.insert(s(&v));
            for x in ['-', '_', ' ', 'x', '0'] {
                let mut v = c.clone();
                v[i] = x;
                all.insert(s(&v));
                v = c.clone();
                v.insert(i, x);
                all.insert(s(&v));
            }
            let mut v = c.clone();
            v[i] = if v[i].is_ascii_uppercase() { v[i].to_ascii_lowercase() } else { v[i].to_ascii_uppercase() };
            all.insert(s(&v));
            if i > 0 {
                let mut v = c.clone();
                v.swap(i - 1, i);
                all.insert(s(&v));
                all.insert(s(&c[..i]));
                all.insert(s(&c[i..]));
            }
        }
        all.insert(d.to_uppercase());
        all.insert(d.to_lowercase());
        for t in [" ", "_", "-", "x", "1", ",", "\n", "=", "s", "/"] {
            all.insert(format!("{d}{t}"));
        }
        for e in docs {
            all.insert(format!("{d}{e}"));
            all.insert(format!("{d},{e}"));
        }
    }
    for x in ["", "none", "default", "0", "true", "auto"] {
        all.insert(x.into());
    }
    let normal = |s: &str| s.chars().filter(|c| c.is_alphanumeric()).collect::<String>().to_lowercase();
    all.into_iter()
        .map(|s| {
            if docs.contains(&s.as_str()) {
                return (s.clone(), Some(s), true);
            }
            let n = normal(&s);
            let means = docs
                .iter()
                .map(|d| (*d, *d))
                .chain(aliases.iter().copied())
                .find(|(a, _)| normal(a) == n)
                .map(|x| x.1.to_string());
            (s, means, false)
        })
        .collect()
}

fn jet_algorithm(s: &str) -> JetAlgorithm {
    match s {
        "anti-kt" => JetAlgorithm::AntiKt,
        "kt" => JetAlgorithm::Kt,
        _ => JetAlgorithm::CambridgeAachen,
    }
}

const BOTH: [Tool; 2] = [Tool::Cres, Tool::Partition];

fn verdict(means: &Option<String>, doc: bool, f: impl Fn(&mut Setting, &str) + Sync + Send + 'static) -> Verdict {
    match means {
        None => Refuse,
        Some(m) => {
            let m = m.clone();
            let c = ch(move |s| f(s, &m));
            if doc {
                Must(c)
            } else {
                May(c)
            }
        }
    }
}

fn cases(ctx: &Ctx) -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    let mut add = |tool: Tool, name: String, a: &[&str], verdict: Verdict, any_level: bool| {
        v.push(Case { tool, name, args: args(a), verdict, any_level })
    };
    const JET: [&str; 3] = ["-a=anti-kt", "-R=0.8", "-p=20"];
    let jet = |more: &[&'static str]| -> Vec<&'static str> { JET.iter().copied().chain(more.iter().copied()).collect() };
    let leak = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
    // names
    for (w, m, doc) in near(&["anti-kt", "kt", "Cambridge-Aachen"], &[("cambridge/aachen", "Cambridge-Aachen")]) {
        for tool in BOTH {
            let o = leak(format!("--jetalgorithm={w}"));
            add(tool, format!("jetalgorithm/{w}"), &[o, "-R=0.8", "-p=20"], verdict(&m, doc, |s, m| s.jet.0 = jet_algorithm(m)), false);
            let o = leak(format!("--leptonalgorithm={w}"));
            let vd = verdict(&m, doc, |s, m| s.lepton = Some((jet_algorithm(m), 0.6, 12.)));
            add(tool, format!("leptonalgorithm/{w}"), &jet(&[o, "--leptonradius=0.6", "--leptonpt=12"]), vd, false);
        }
    }
    for (w, m, doc) in near(&["least_negative", "most_negative", "any"], &[]) {
        let vd = verdict(&m, doc, |s, m| {
            s.strategy = match m {
                "least_negative" => Strategy::LeastNegative,
                "most_negative" => Strategy::MostNegative,
                _ => Strategy::Next,
            }
        });
        add(Tool::Cres, format!("strategy/{w}"), &jet(&[leak(format!("--strategy={w}"))]), vd, false)
    }
    for (w, m, doc) in near(&["tree", "naive"], &[]) {
        let vd = verdict(&m, doc, |s, m| s.naive = m == "naive");
        add(Tool::Cres, format!("search/{w}"), &jet(&[leak(format!("--search={w}"))]), vd, false)
    }
    // compression: names ...
    let algo = |m: &str, l: u8| match m {
        "bzip2" => Algo::Bzip2,
        "gzip" => Algo::Gzip(l),
        "lz4" => Algo::Lz4(l),
        _ => Algo::Zstd(l),
    };
    let tools = [Tool::Cres, Tool::Partition, Tool::Classify];
    let pre = |t: Tool, o: &'static str| if t == Tool::Classify { vec![o] } else { jet(&[o]) };
    for (w, m, doc) in near(&["bzip2", "gzip", "zstd", "lz4"], &[("bz2", "bzip2"), ("gz", "gzip"), ("zstandard", "zstd")]) {
        for t in tools {
            let o = leak(format!("--compression={w}"));
            // may be read as a level
            let m = if w.contains('_') && w.ends_with(|c: char| c.is_ascii_digit()) { None } else { m.clone() };
            if w.split_once('_').is_some_and(|(_, l)| l.parse::<u8>().is_ok()) {
                continue;
            }
            let vd = verdict(&m, doc, move |s, m| s.compression = algo(m, 0));
            add(t, format!("compression/{w}"), &pre(t, o), vd, true)
        }
    }
    // ... and levels
    for (name, max) in [("bzip2", None), ("gzip", Some(9)), ("lz4", Some(16)), ("zstd", Some(19))] {
        let mut levels: Vec<String> = (0..=24).map(|l| l.to_string()).collect();
        for x in [
            "", "99", "127", "128", "255", "256", "257", "265", "300", "65536", "4294967297", "18446744073709551617", "-1", "+1", "1.0",
            "x", "1x", " 1", "1 ", "05", "007", "1_2", "_1", "0x1", "a", "best", "\u{661}", "1\n",
        ] {
            levels.push(x.into())
        }
        for l in levels {
            for sep in ["_", "-", "", ":", " "] {
                if sep.is_empty() && l.is_empty() || sep != "_" && !["1", "5", "9"].contains(&l.as_str()) {
                    continue;
                }
                let plain = l.chars().all(|c| c.is_ascii_digit()) && !l.is_empty() && sep == "_";
                let val: Option<u32> = if plain { l.parse().ok() } else { None };
                let canon = val.is_some_and(|v| v.to_string() == l);
                let case = match (val, max) {
                    (Some(v), Some(m)) if v <= m => Some((v as u8, canon)),
                    _ => None,
                };
                for t in tools {
                    let o = leak(format!("--compression={name}{sep}{l}"));
                    let vd = match case {
                        None => Refuse,
                        Some((v, c)) => {
                            let f = ch(move |s: &mut Setting| s.compression = algo(name, v));
                            if c {
                                Must(f)
                            } else {
                                May(f)
                            }
                        }
                    };
                    add(t, format!("compression/{name}{sep}{l}"), &pre(t, o), vd, false)
                }
            }
        }
    }
    // numbers
    let numbers = [
        "0", "1", "0.5", ".5", "5.", "5e-1", "1E1", "12.5e+0", "+1", "1_0", "1,5", "0x1", "0x1p3", " 1", "1 ", "", "-1", "-0.5", "-5e-1",
        "-1e-300", "nan", "NaN", "-nan", "+nan", "NAN", "inf", "-inf", "infinity", "-Infinity", "1e400", "-1e400", "1e-400", "-0", "-0.0", "1f", "1.0.0", "e5", "1e", "1e5e", "--1",
        ".", "\u{661}", "1 2", "one", "1GeV", "1e-1", "00.5", "100",
    ];
    type Set = fn(&mut Setting, f64);
    let lep = |s: &mut Setting| *s.lepton.get_or_insert((JetAlgorithm::AntiKt, 0.6, 12.));
    let _ = lep;
    let floats: [(&str, &[&str], &[Tool], bool, Set); 11] = [
        ("jetradius", &["-a=anti-kt", "-p=20"], &BOTH, true, |s, x| s.jet.1 = x),
        ("jetpt", &["-a=anti-kt", "-R=0.8"], &BOTH, true, |s, x| s.jet.2 = x),
        ("leptonradius", &["--leptonalgorithm=kt", "--leptonpt=12"], &BOTH, true, |s, x| s.lepton = Some((JetAlgorithm::Kt, x, 12.))),
        ("leptonpt", &["--leptonalgorithm=kt", "--leptonradius=0.6"], &BOTH, true, |s, x| s.lepton = Some((JetAlgorithm::Kt, 0.6, x))),
        ("photonefrac", &["--photonradius=0.4", "--photonpt=10"], &BOTH, true, |s, x| s.photon = Some((x, 0.4, 10.))),
        ("photonradius", &["--photonefrac=0.3", "--photonpt=10"], &BOTH, true, |s, x| s.photon = Some((0.3, x, 10.))),
        ("photonpt", &["--photonefrac=0.3", "--photonradius=0.4"], &BOTH, true, |s, x| s.photon = Some((0.3, 0.4, x))),
        ("minweight", &[], &[Tool::Cres], false, |s, x| s.minweight = x),
        ("ptweight", &[], &BOTH, false, |s, x| s.ptweight = x),
        ("max-cell-size", &[], &[Tool::Cres], true, |s, x| s.max = Some(x)),
        ("w", &[], &[Tool::Cres], false, |s, x| s.minweight = x),
    ];
    for (o, rest, tools, inf_ok, set) in floats {
        for x in numbers {
            let value = number(x);
            let vd = match value {
                None => Refuse,
                Some(v) if v.is_infinite() && v > 0. && inf_ok => May(ch(move |s| set(s, v))),
                Some(v) if !v.is_finite() || v < 0. => Refuse,
                Some(v) => {
                    let f = ch(move |s: &mut Setting| set(s, v));
                    let radius = o.ends_with("radius");
                    if x.starts_with(['+', '-']) || radius && v == 0. {
                        May(f)
                    } else {
                        Must(f)
                    }
                }
            };
            let mut base: Vec<&str> = if o.starts_with("jet") { vec![] } else { JET.to_vec() };
            base.extend(rest);
            for t in tools {
                let dash = if o.len() == 1 { "-" } else { "--" };
                let mut b = base.clone();
                b.push(leak(format!("{dash}{o}={x}")));
                add(*t, format!("{o}={x}"), &b, vd.clone(), false);
                if !x.starts_with('-') && ctx.thorough {
                    let mut b = base.clone();
                    b.push(leak(format!("{dash}{o}")));
                    b.push(x);
                    add(*t, format!("{o}_{x}"), &b, vd.clone(), false)
                }
            }
        }
    }
    for x in numbers.iter().chain(&["18446744073709551615", "18446744073709551616", "4294967296", "007", "3"]) {
        let int = x.chars().all(|c| c.is_ascii_digit()) && !x.is_empty();
        let plain = int && (*x == "0" || !x.starts_with('0'));
        let val = if *x == "+1" || int { x.parse::<u64>().ok() } else { None };
        let give = |f: Change| if plain { Must(f) } else { May(f) };
        let vd = val.map_or(Refuse, |v| give(ch(move |s| (s.seed, s.minweight) = (v, 1.))));
        add(Tool::Cres, format!("seed={x}"), &jet(&[leak(format!("--seed={x}")), "-w=1"]), vd, false);
        // more than a few are not tried
        if val.is_none_or(|v| v <= 100) {
            for t in BOTH {
                add(t, format!("threads={x}"), &jet(&[leak(format!("--threads={x}"))]), val.map_or(Refuse, |_| give(ch(|_| ()))), false);
            }
        }
    }
    // complete definitions only
    const LEP: [&str; 3] = ["--leptonalgorithm=kt", "--leptonradius=0.6", "--leptonpt=12"];
    const PHO: [&str; 3] = ["--photonefrac=0.3", "--photonradius=0.4", "--photonpt=10"];
    for l in 0..8 {
        for p in 0..8 {
            for neutrinos in [false, true] {
                for t in BOTH {
                    let mut a = jet(if neutrinos { &["--include-neutrinos"] } else { &[] });
                    for (set, opts) in [(l, LEP), (p, PHO)] {
                        a.extend((0..3).filter(|i| set >> i & 1 == 1).map(|i| opts[i]))
                    }
                    let vd = if [0, 7].contains(&l) && [0, 7].contains(&p) {
                        Must(ch(move |s| {
                            s.neutrinos = neutrinos;
                            if l == 7 {
                                s.lepton = Some((JetAlgorithm::Kt, 0.6, 12.))
                            }
                            if p == 7 {
                                s.photon = Some((0.3, 0.4, 10.))
                            }
                        }))
                    } else {
                        Refuse
                    };
                    add(t, format!("definitions/{l}/{p}/{neutrinos}"), &a, vd, false);
                }
            }
        }
    }
    for j in 0..7 {
        let a: Vec<&str> = (0..3).filter(|i| j >> i & 1 == 1).map(|i| JET[i]).collect();
        for t in BOTH {
            add(t, format!("jet_definition/{j}"), &a, Refuse, false)
        }
    }
    // something else altogether
    for x in ["--minwt=1", "--outfile2=x", "-x", "--jetpt", "@missing", "--include-neutrinos=yes", "--version=1", "--help=1", "--dumpcells", "--weights"] {
        for t in BOTH {
            add(t, format!("unknown/{x}"), &jet(&[x]), Refuse, false)
        }
        add(Tool::Classify, format!("unknown/{x}"), &[x], Refuse, false)
    }
    v
}

/// a decimal number, also one that is not finite
fn number(x: &str) -> Option<f64> {
    let s = x.strip_prefix(['+', '-']).unwrap_or(x);
    let neg = x.starts_with('-');
    let sign = |v: f64| Some(if neg { -v } else { v });
    match s.to_lowercase().as_str() {
        "nan" => return Some(f64::NAN),
        "inf" | "infinity" => return sign(f64::INFINITY),
        _ => {}
    }
    let (m, e) = match s.find(['e', 'E']) {
        Some(i) => (&s[..i], Some(&s[i + 1..])),
        None => (s, None),
    };
    let (a, b) = m.split_once('.').unwrap_or((m, ""));
    let digits = |s: &str| s.chars().all(|c| c.is_ascii_digit());
    if !digits(a) || !digits(b) || a.len() + b.len() == 0 {
        return None;
    }
    let exp = match e {
        None => 0,
        Some(e) => {
            let d = e.strip_prefix(['+', '-']).unwrap_or(e);
            if d.is_empty() || !digits(d) {
                return None;
            }
            e.parse::<i32>().ok()?
        }
    };
    format!("{}{}.{}e{exp}", if neg { "-" } else { "" }, if a.is_empty() { "0" } else { a }, if b.is_empty() { "0" } else { b })
        .parse()
        .ok()
}

struct World {
    hep: Vec<PathBuf>,
    one: PathBuf,
    part: PathBuf,
    /// what classification gives without compression
    parts: std::collections::BTreeMap<String, Vec<u8>>,
}

fn judge(w: &World, c: &Case, sizes: &std::sync::Mutex<std::collections::BTreeMap<String, usize>>) -> Result<bool, String> {
    let d = tools::fresh("c24");
    let threads = c.args.iter().any(|a| a.starts_with("--threads"));
    let mut a = c.args.clone();
    match c.tool {
        Tool::Cres => a.extend(args(&["--outdir", "out"])),
        Tool::Partition => a.extend(args(&["--outfile=part", "--regions", "2"])),
        Tool::Classify => a.extend(args(&["--partition", w.part.to_str().unwrap(), "-o", "out"])),
    }
    if !threads && c.tool != Tool::Classify {
        a.push("--threads=1".into())
    }
    let inputs = if c.tool == Tool::Cres { w.hep.clone() } else { vec![w.one.clone()] };
    // an option at the end would take the first input as its value
    if c.name.starts_with("unknown") {
        let x = c.args.last().unwrap().clone();
        a.retain(|y| *y != x);
        a.extend(inputs.iter().map(|i| i.to_str().unwrap().to_string()));
        a.push(x);
    } else {
        a.extend(inputs.iter().map(|i| i.to_str().unwrap().to_string()));
    }
    let r = tools::run(c.tool.name(), &a, &d, Opt::default());
    if r.timeout || r.signal.is_some() || r.panicked() {
        return Err(r.describe());
    }
    if !r.ok() {
        if let Must(_) = c.verdict {
            return Err(format!("refused: {}", r.describe()));
        }
        let t = tools::tree(&d);
        return if t.is_empty() { Ok(false) } else { Err(format!("{:?} is written in spite of the error", t.keys())) };
    }
    let (Must(change) | May(change)) = &c.verdict else {
        return Err("accepted".into());
    };
    let mut set = Setting::default();
    change(&mut set);
    // higher levels do not give larger files
    let mut level = |set: &Setting, n: usize| {
        let (k, l) = match set.compression {
            Algo::Gzip(l) => ("gzip", l),
            Algo::Lz4(l) => ("lz4", l),
            Algo::Zstd(l) => ("zstd", l),
            _ => return,
        };
        if !c.any_level {
            sizes.lock().unwrap().insert(format!("{} {k} {l:02}", c.tool.name()), n);
        }
    };
    match c.tool {
        Tool::Cres => {
            let t = tools::tree(&d);
            if t.keys().map(|k| k.as_str()).ne(["out/one.dat", "out/two.x.dat"]) {
                return Err(format!("outputs {:?}", t.keys()));
            }
            if threads {
                return Ok(true);
            }
            let mut lib = set.clone();
            if c.any_level {
                // compare what is inside
                lib.compression = Algo::None
            }
            lib.run(&inputs, &d.join("lib"))?;
            let l = tools::tree(&d.join("lib"));
            for (k, v) in &t {
                let want = &l[k.strip_prefix("out/").unwrap()];
                let got = if c.any_level { set.compression.decompress(v)? } else { v.clone() };
                if got != *want {
                    return Err(format!("{k} is not what the library gives for {set:?}"));
                }
            }
            level(&set, t.values().map(|v| v.len()).sum())
        }
        Tool::Partition => {
            let raw = std::fs::read(d.join("part")).map_err(|e| e.to_string())?;
            let text = set.compression.decompress(&raw)?;
            let (cl, part): Stored = serde_yaml::from_slice(&text).map_err(|e| e.to_string())?;
            let yaml = |c: &DefaultClustering| serde_yaml::to_value(c).unwrap();
            if yaml(&cl) != yaml(&set.clustering()) {
                return Err(format!("clustering {cl:?} instead of {:?}", set.clustering()));
            }
            let was = serde_yaml::to_value(&part).unwrap();
            let dist = cres::distance::EuclWithScaledPt::new(noisy_float::prelude::n64(set.ptweight));
            let want = unsafe { cres::partition::VPTreePartition::from_vp(part.into_tree(), dist) };
            if serde_yaml::to_value(want).unwrap() != was {
                return Err(format!("distance is not with weight {}", set.ptweight));
            }
            level(&set, raw.len())
        }
        Tool::Classify => {
            let t = tools::tree(&d.join("out"));
            if t.keys().ne(w.parts.keys()) {
                return Err(format!("outputs {:?} instead of {:?}", t.keys(), w.parts.keys()));
            }
            for (k, v) in &t {
                if set.compression.decompress(v)? != w.parts[k] {
                    return Err(format!("{k} has other contents than without compression"));
                }
            }
            level(&set, t.values().map(|v| v.len()).sum())
        }
    }
    Ok(true)
}

pub fn run(ctx: &Ctx) {
    ctx.assume("a run of the library with the settings that the option values stand for (cli/src/libref.rs) is the reference");
    let dir = scratch("c24in");
    let evs = c21::sample(Fmt::Hep, 2, 20);
    let many = c21::sample(Fmt::Hep, 5, 60);
    let hep = vec![write_sample(&dir, Fmt::Hep, "one.dat", &evs[..10]), write_sample(&dir, Fmt::Hep, "two.x.dat", &evs[10..])];
    let one = write_sample(&dir, Fmt::Hep, "in.dat", &many);
    let mut a = args(&c21::BASE);
    a.extend(args(&["--regions=2", "--outfile=p.yaml", one.to_str().unwrap()]));
    let r = tools::run("cres-partition", &a, &dir, Opt::default());
    let b = args(&["--partition=p.yaml", "--outdir=plain", one.to_str().unwrap()]);
    let r2 = tools::run("cres-classify-events", &b, &dir, Opt::default());
    if !r.ok() || !r2.ok() {
        ctx.fail("plain", format!("run without special options: {} / {}", r.describe(), r2.describe()), json!({}));
        return;
    }
    let w = World { hep, one, part: dir.join("p.yaml"), parts: tools::tree(&dir.join("plain")) };
    let sizes = Default::default();
    let all = cases(ctx);
    par_for(&all, |c| {
        let name = format!("{:?}/{}", c.tool, c.name.escape_default()).replace(' ', "%");
        if !ctx.want(&name) && !ctx.want("levels") || ctx.stop() {
            return;
        }
        ctx.eval();
        match judge(&w, c, &sizes) {
            Ok(accepted) => {
                ctx.nontrivial(hash_of(&name));
                ctx.count(if accepted { "accepted" } else { "refused" }, 1)
            }
            Err(e) => ctx.fail(&name, e, json!({"tool": c.tool.name(), "args": c.args})),
        }
    });
    // numbers of regions
    let mut regions = vec![];
    for x in [
        "0", "1", "2", "3", "4", "5", "6", "7", "9", "10", "12", "16", "24", "+2", "02", "2.0", "0x4", " 2", "2 ", "", "-0", "-1", "-2", "-4", "1e1", "2e0", "4k",
        "two", "\u{662}", "2147483648", "4294967294", "4294967295", "4294967296", "4294967298", "8589934592", "18446744073709551616", "18446744073709551618", "nan", "inf",
        "2,4", "2 4",
    ] {
        let n = x.strip_prefix('+').unwrap_or(x).parse::<u128>().ok();
        let ok = n.is_some_and(|n| n.is_power_of_two() && n <= 16);
        let must = ok && ["1", "2", "4"].contains(&x);
        regions.push((x, ok, must, n));
    }
    par_for(&regions, |(x, ok, must, n)| {
        let name = format!("regions={}", x.escape_default()).replace(' ', "%");
        if !ctx.want(&name) || ctx.stop() {
            return;
        }
        ctx.eval();
        let d = tools::fresh("c24");
        let mut a = args(&c21::BASE);
        a.extend([format!("--regions={x}"), "--outfile=part".into(), w.one.to_str().unwrap().into()]);
        let r = tools::run("cres-partition", &a, &d, Opt::default());
        let out = std::fs::read_to_string(d.join("part")).ok();
        let res = if r.timeout || r.signal.is_some() || r.panicked() {
            Err(r.describe())
        } else if !r.ok() {
            match (must, &out) {
                (true, _) => Err(format!("refused: {}", r.describe())),
                (_, Some(_)) => Err("an output in spite of an error".into()),
                _ => Ok(()),
            }
        } else if !ok {
            Err("accepted".into())
        } else if let Some(t) = &out {
            // each division has a radius
            let k = t.lines().filter(|l| l.trim_start_matches([' ', '-']).starts_with("r:")).count() as u128;
            if k + 1 == n.unwrap() {
                Ok(())
            } else {
                Err(format!("{k} divisions"))
            }
        } else {
            Err("no output".into())
        };
        ctx.nontrivial(hash_of(&name));
        if let Err(e) = res {
            ctx.fail(&name, e, json!({}))
        }
    });
    let sizes = sizes.into_inner().unwrap();
    if ctx.want("levels") && !ctx.stop() {
        // the lowest and the highest level differ
        for t in ["cres", "cres-partition", "cres-classify-events"] {
            for (a, lo, hi) in [("gzip", 1, 9), ("lz4", 1, 16), ("zstd", 1, 19), ("gzip", 0, 1)] {
                let s = |l: i32| sizes.get(&format!("{t} {a} {l:02}")).copied();
                if let (Some(x), Some(y)) = (s(lo), s(hi)) {
                    if y >= x {
                        ctx.fail("levels", format!("{t}: {a} level {hi} gives {y} bytes, level {lo} {x}"), json!(sizes))
                    }
                }
            }
        }
    }
    ctx.note("sizes_for_levels", json!(sizes));
    ctx.sample(format!("{} cases, for instance {:?}", all.len(), all.iter().step_by(997).map(|c| &c.args).collect::<Vec<_>>()));
}
