//! C21: the command-line tools do what the library does with the same settings, reproducibly
use crate::ctx::*;
use crate::c12::{style0, Stored};
use crate::fmt::*;
use crate::tools::{self, args, Opt, Ran};
use cres::cluster::{DefaultClustering, JetAlgorithm, JetDefinition, PhotonDefinition};
use cres::seeds::Strategy;
use serde_json::json;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

/// What a run is supposed to do, in terms of the library
#[derive(Clone, Debug)]
pub struct Setting {
    pub jet: (JetAlgorithm, f64, f64),
    pub lepton: Option<(JetAlgorithm, f64, f64)>,
    /// fraction, radius, pt
    pub photon: Option<(f64, f64, f64)>,
    pub neutrinos: bool,
    pub minweight: f64,
    pub seed: u64,
    pub ptweight: f64,
    pub compression: Algo,
    pub naive: bool,
    pub strategy: Strategy,
    pub max: Option<f64>,
    pub weights: Vec<String>,
}
impl Default for Setting {
    fn default() -> Self {
        Setting {
            jet: (JetAlgorithm::AntiKt, 0.8, 20.),
            lepton: None,
            photon: None,
            neutrinos: false,
            minweight: 0.,
            seed: 0,
            ptweight: 0.,
            compression: Algo::None,
            naive: false,
            strategy: Strategy::MostNegative,
            max: None,
            weights: vec![],
        }
    }
}
impl Setting {
    pub fn clustering(&self) -> DefaultClustering {
        let j = |(algorithm, radius, min_pt): (JetAlgorithm, f64, f64)| JetDefinition { algorithm, radius, min_pt };
        let mut c = DefaultClustering::new(j(self.jet)).include_neutrinos(self.neutrinos);
        if let Some(l) = self.lepton {
            c = c.with_lepton_def(j(l))
        }
        if let Some((min_e_fraction, radius, min_pt)) = self.photon {
            c = c.with_photon_def(PhotonDefinition { min_e_fraction, radius, min_pt })
        }
        c
    }

    /// Run the library with one thread, with outputs of the same names in `out`
    pub fn run(&self, inputs: &[PathBuf], out: &Path) -> Result<(), String> {
        use std::os::unix::ffi::OsStrExt;
        std::fs::create_dir_all(out).unwrap();
        let j = |j: &(JetAlgorithm, f64, f64)| json!([format!("{:?}", j.0), j.1.to_string(), j.2.to_string()]);
        let (algo, level) = match self.compression {
            Algo::None => ("None", 0),
            Algo::Bzip2 => ("Bzip2", 0),
            Algo::Gzip(l) => ("Gzip", l),
            Algo::Lz4(l) => ("Lz4", l),
            Algo::Zstd(l) => ("Zstd", l),
        };
        let hex = |p: &Path| p.as_os_str().as_bytes().iter().map(|b| format!("{b:02x}")).collect::<String>();
        let v = json!({
            "files": inputs.iter().map(|i| json!([hex(i), hex(&out.join(i.file_name().unwrap()))])).collect::<Vec<_>>(),
            "jet": j(&self.jet),
            "lepton": self.lepton.as_ref().map(j),
            "photon": self.photon.map(|p| [p.0.to_string(), p.1.to_string(), p.2.to_string()]),
            "neutrinos": self.neutrinos,
            "minweight": self.minweight.to_string(),
            "seed": self.seed.to_string(),
            "ptweight": self.ptweight.to_string(),
            "algo": algo,
            "level": level,
            "naive": self.naive,
            "strategy": format!("{:?}", self.strategy),
            "max": self.max.map(|x| x.to_string()),
            "weights": self.weights,
        });
        let r = tools::run("libref", &[v.to_string()], out, Opt::default());
        if r.ok() {
            Ok(())
        } else {
            Err(r.describe())
        }
    }
}

/// A sample in which every option matters
pub fn sample(fmt: Fmt, seed: u64, n: usize) -> Vec<Ev> {
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut rnd = move || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        (x >> 11) as f64 / (1u64 << 53) as f64
    };
    let s = |x: f64| -> &'static str { Box::leak(format!("{x:e}").into_boxed_str()) };
    let mut evs: Vec<Ev> = vec![];
    for k in 0..n {
            let mut parts = vec![(21, ["65.", "0", "0", "65."], St::In)];
            let ids: &[i32] = match k % 4 {
                0 => &[1, 21, -2, 21, 11, 22, 22, 12, 21, 5],
                1 => &[1, 21, -2, 2212, 11, 22, 22, -14, 3, 1],
                2 => &[21, 21, 211, -1, -13, 22, 12, 2, 4],
                _ => &[2, -1, 21, 21, 22, 22, 11, 16, -4],
            };
            let (phi0, y0) = (6.28 * rnd(), rnd() - 0.5);
            for (j, id) in ids.iter().enumerate() {
                // close together, to be clustered or not
                let (phi, y) = (phi0 + 2. * rnd(), y0 + 1.2 * (rnd() - 0.5));
                let pt = match id {
                    22 => 3. + 30. * rnd(),
                    _ if j > 5 => 6. + 10. * rnd(),
                    _ => 8. + 60. * rnd(),
                };
                let (px, py, pz, e) = (pt * phi.cos(), pt * phi.sin(), pt * f64::sinh(y), pt * f64::cosh(y) * (1. + 1e-9));
                parts.push((*id, [s(e), s(px), s(py), s(pz)], St::Out));
            }
            let w = |r: f64| if r < 0.4 { -(0.2 + 2. * r) } else { 0.3 + 1.5 * r };
            let w0 = w(rnd());
            let nw = if fmt == Fmt::Hep { 4 } else { 1 };
            if k % 5 == 4 {
                // the same momenta again, for equal distances
                parts = evs[k / 2].parts.clone()
            }
            evs.push(Ev { w: (0..nw).map(|i| format!("{:e}", if i == 0 { w0 } else { w0 * (0.5 + rnd()) + 0.1 * rnd() })).collect(), parts })
    }
    evs
}

/// Style with named weights
pub fn style(fmt: Fmt) -> Vec<usize> {
    let mut s = style0(fmt);
    if fmt == Fmt::Hep {
        s[2] = 2
    }
    s
}

pub const BASE: [&str; 6] = ["-a", "anti-kt", "-R", "0.8", "-p", "20"];

type Change = Box<dyn Fn(&mut Setting) + Sync + Send>;
pub struct Dim {
    pub name: &'static str,
    /// arguments and what they mean; the first one is the default
    pub values: Vec<(Vec<String>, Change)>,
}
fn dim(name: &'static str, v: Vec<(&[&str], Change)>) -> Dim {
    Dim { name, values: v.into_iter().map(|(a, c)| (args(a), c)).collect() }
}
fn ch(f: impl Fn(&mut Setting) + Sync + Send + 'static) -> Change {
    Box::new(f)
}

pub fn dims() -> Vec<Dim> {
    use JetAlgorithm::*;
    vec![
        dim("jet", vec![
            (&["-a", "anti-kt", "-R", "0.8", "-p", "20"], ch(|_| ())),
            (&["-a", "kt", "-R", "0.8", "-p", "20"], ch(|s| s.jet.0 = Kt)),
            (&["-a", "Cambridge-Aachen", "-R", "0.8", "-p", "20"], ch(|s| s.jet.0 = CambridgeAachen)),
            (&["--jetalgorithm", "anti-kt", "--jetradius", "1.3", "--jetpt", "20"], ch(|s| s.jet.1 = 1.3)),
            (&["-a", "anti-kt", "-R", "0.8", "--jetpt=45"], ch(|s| s.jet.2 = 45.)),
            (&["-a=anti-kt", "-R0.3", "-p", "0"], ch(|s| s.jet = (AntiKt, 0.3, 0.))),
        ]),
        dim("lepton", vec![
            (&[], ch(|_| ())),
            (&["--leptonalgorithm", "anti-kt", "--leptonradius", "0.6", "--leptonpt", "12"], ch(|s| s.lepton = Some((AntiKt, 0.6, 12.)))),
            (&["--leptonpt=12", "--leptonalgorithm=kt", "--leptonradius=1.1"], ch(|s| s.lepton = Some((Kt, 1.1, 12.)))),
            (&["--leptonalgorithm", "Cambridge-Aachen", "--leptonpt", "35", "--leptonradius", "0.6"], ch(|s| s.lepton = Some((CambridgeAachen, 0.6, 35.)))),
        ]),
        dim("photon", vec![
            (&[], ch(|_| ())),
            (&["--photonefrac", "0.3", "--photonradius", "0.4", "--photonpt", "10"], ch(|s| s.photon = Some((0.3, 0.4, 10.)))),
            (&["--photonpt", "10", "--photonefrac=0.9", "--photonradius", "0.4"], ch(|s| s.photon = Some((0.9, 0.4, 10.)))),
            (&["--photonefrac", "0.3", "--photonradius", "1.5", "--photonpt", "20"], ch(|s| s.photon = Some((0.3, 1.5, 20.)))),
        ]),
        dim("neutrinos", vec![(&[], ch(|_| ())), (&["--include-neutrinos"], ch(|s| s.neutrinos = true))]),
        dim("minweight", vec![
            (&[], ch(|_| ())),
            (&["-w", "0.8"], ch(|s| s.minweight = 0.8)),
            (&["--minweight", "2", "--seed", "7"], ch(|s| (s.minweight, s.seed) = (2., 7))),
            (&["--minweight=2"], ch(|s| s.minweight = 2.)),
            (&["--seed=18446744073709551615", "-w=1.5"], ch(|s| (s.minweight, s.seed) = (1.5, u64::MAX))),
        ]),
        dim("ptweight", vec![
            (&[], ch(|_| ())),
            (&["--ptweight", "3"], ch(|s| s.ptweight = 3.)),
            (&["--ptweight=0.5"], ch(|s| s.ptweight = 0.5)),
        ]),
        dim("compression", vec![
            (&[], ch(|_| ())),
            (&["--compression", "gzip_2"], ch(|s| s.compression = Algo::Gzip(2))),
            (&["--compression=zstd_5"], ch(|s| s.compression = Algo::Zstd(5))),
            (&["--compression", "bzip2"], ch(|s| s.compression = Algo::Bzip2)),
            (&["--compression", "lz4_4"], ch(|s| s.compression = Algo::Lz4(4))),
        ]),
        dim("search", vec![
            (&[], ch(|_| ())),
            (&["-s", "naive"], ch(|s| s.naive = true)),
            (&["--search=tree"], ch(|_| ())),
        ]),
        dim("strategy", vec![
            (&[], ch(|_| ())),
            (&["--strategy", "least_negative"], ch(|s| s.strategy = Strategy::LeastNegative)),
            (&["--strategy=any"], ch(|s| s.strategy = Strategy::Next)),
            (&["--strategy", "most_negative"], ch(|_| ())),
        ]),
        dim("cell_size", vec![
            (&[], ch(|_| ())),
            (&["--max-cell-size", "0"], ch(|s| s.max = Some(0.))),
            (&["--max-cell-size=60"], ch(|s| s.max = Some(60.))),
            (&["--max-cell-size", "1.1e2"], ch(|s| s.max = Some(110.))),
        ]),
        dim("weights", vec![
            (&[], ch(|_| ())),
            (&["--weights", "mu R=2 E"], ch(|s| s.weights = vec!["mu R=2 E".into()])),
            (&["--weights=PDF set=3:E,mu R=2 E"], ch(|s| s.weights = vec!["PDF set=3:E".into(), "mu R=2 E".into()])),
            (&["--weights", "PDF set=2:E", "--weights", "PDF set=3:E"], ch(|s| s.weights = vec!["PDF set=2:E".into(), "PDF set=3:E".into()])),
        ]),
        // no influence on the output
        dim("loglevel", vec![
            (&[], ch(|_| ())),
            (&["-l", "off"], ch(|_| ())),
            (&["--loglevel=debug"], ch(|_| ())),
        ]),
    ]
}

/// Files written by a run of the tool and by the library have to be the same
pub fn judge(r: &Ran, lib: &Result<(), String>, out: &Path, lout: &Path) -> Result<(), String> {
    if r.timeout || r.signal.is_some() || r.panicked() {
        return Err(r.describe());
    }
    match (r.ok(), lib) {
        (false, Err(_)) => return Ok(()),
        (true, Err(e)) => return Err(format!("success, but the library says {e}")),
        (false, Ok(())) => return Err(format!("refused: {}", r.describe())),
        _ => {}
    }
    let a = tools::tree(out);
    let b = tools::tree(lout);
    if a.keys().ne(b.keys()) {
        return Err(format!("outputs {:?} instead of {:?}", a.keys(), b.keys()));
    }
    for (k, v) in &a {
        if *v != b[k] {
            let p = v.iter().zip(&b[k]).position(|(x, y)| x != y).unwrap_or(v.len().min(b[k].len()));
            let s = |v: &[u8]| String::from_utf8_lossy(&v[p.saturating_sub(20)..(p + 40).min(v.len())]).into_owned();
            return Err(format!("{k} differs from the output of the library at byte {p}: {:?} instead of {:?}", s(v), s(&b[k])));
        }
    }
    Ok(())
}

pub fn write_sample(dir: &Path, fmt: Fmt, name: &str, evs: &[Ev]) -> PathBuf {
    let p = dir.join(name);
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(&p, make(fmt, evs, &style(fmt)).text()).unwrap();
    p
}

/// Rows such that any combination of values of any three columns is in one of them
pub fn covering(sizes: &[usize]) -> Vec<Vec<usize>> {
    type Triple = [(usize, usize); 3];
    let n = sizes.len();
    let mut open = std::collections::BTreeSet::<Triple>::new();
    for a in 0..n {
        for b in a + 1..n {
            for c in b + 1..n {
                for v in Odometer::new(vec![sizes[a], sizes[b], sizes[c]]) {
                    open.insert([(a, v[0]), (b, v[1]), (c, v[2])]);
                }
            }
        }
    }
    let mut rows = vec![];
    while let Some(t) = open.first().copied() {
        let mut row: Vec<Option<usize>> = vec![None; n];
        for (c, v) in t {
            row[c] = Some(v)
        }
        for c in 0..n {
            if row[c].is_some() {
                continue;
            }
            let gain = |v: usize| {
                let mut g = 0;
                for a in 0..n {
                    for b in a + 1..n {
                        if let (Some(x), Some(y), true) = (row[a], row[b], a != c && b != c) {
                            let mut t = [(a, x), (b, y), (c, v)];
                            t.sort();
                            g += open.contains(&t) as usize
                        }
                    }
                }
                g
            };
            let best = (0..sizes[c]).max_by_key(|v| (gain(*v), usize::MAX - v)).unwrap();
            row[c] = Some(best)
        }
        let row: Vec<usize> = row.into_iter().flatten().collect();
        for a in 0..n {
            for b in a + 1..n {
                for c in b + 1..n {
                    open.remove(&[(a, row[a]), (b, row[b]), (c, row[c])]);
                }
            }
        }
        rows.push(row)
    }
    rows
}

/// many values of each option, with the others as they are by default or not
fn values(ctx: &Ctx) {
    use JetAlgorithm::*;
    let mut vals: Vec<(Vec<String>, Change)> = vec![];
    for r in ["1e-3", "0.1", "0.39999", "0.4", "1", "1.57", "3.2", "6.4", "100"] {
        let x: f64 = r.parse().unwrap();
        vals.push((args(&["-a", "anti-kt", "-p", "20", "-R", r]), ch(move |s| s.jet.1 = x)));
        vals.push((args(&["-a", "kt", "-p", "20", "-R", r]), ch(move |s| (s.jet.0, s.jet.1) = (Kt, x))));
        for (n, a) in [("anti-kt", AntiKt), ("Cambridge-Aachen", CambridgeAachen)] {
            vals.push((args(&["--leptonalgorithm", n, "--leptonpt", "12", "--leptonradius", r]), ch(move |s| s.lepton = Some((a, x, 12.)))));
        }
        vals.push((args(&["--photonefrac", "0.3", "--photonpt", "10", "--photonradius", r]), ch(move |s| s.photon = Some((0.3, x, 10.)))));
    }
    // photons that are isolated from everything
    for e in ["0.3", "0", "1"] {
        let x: f64 = e.parse().unwrap();
        vals.push((args(&["--photonradius", "0", "--photonpt", "10", "--photonefrac", e]), ch(move |s| s.photon = Some((x, 0., 10.)))));
    }
    for p in ["0", "1e-9", "7", "19.999", "33.3", "68", "1e3", "1e200"] {
        let x: f64 = p.parse().unwrap();
        vals.push((args(&["-a", "anti-kt", "-R", "0.8", "-p", p]), ch(move |s| s.jet.2 = x)));
        vals.push((args(&["--leptonalgorithm", "kt", "--leptonradius", "0.6", "--leptonpt", p]), ch(move |s| s.lepton = Some((Kt, 0.6, x)))));
        vals.push((args(&["--photonefrac", "0.3", "--photonradius", "0.4", "--photonpt", p]), ch(move |s| s.photon = Some((0.3, 0.4, x)))));
        vals.push((args(&["--max-cell-size", p]), ch(move |s| s.max = Some(x))));
        vals.push((args(&["--ptweight", p]), ch(move |s| s.ptweight = x)));
        vals.push((args(&["-w", p]), ch(move |s| s.minweight = x)));
    }
    for e in ["0", "1e-3", "0.1", "0.5", "0.99", "1"] {
        let x: f64 = e.parse().unwrap();
        vals.push((args(&["--photonradius", "0.4", "--photonpt", "5", "--photonefrac", e]), ch(move |s| s.photon = Some((x, 0.4, 5.)))));
    }
    for p in ["12", "100", "11.9", "1e5"] {
        let x: f64 = p.parse().unwrap();
        vals.push((args(&["--ptweight", p]), ch(move |s| s.ptweight = x)));
    }
    for p in ["-1", "0.3", "0.5", "1", "1.9", "3", "50"] {
        let x: f64 = p.parse().unwrap();
        let a = format!("--minweight={p}");
        vals.push((args(&[&a]), ch(move |s| s.minweight = x)));
        vals.push((args(&[&a, "--seed=3"]), ch(move |s| (s.minweight, s.seed) = (x, 3))));
    }
    for k in 0..64 {
        for seed in [1u64 << k, (1 << k) - 1, u64::MAX - (1 << k)] {
            if k % 8 == 0 || k == 31 || k == 63 || ctx.thorough {
                vals.push((args(&["-w=1.4", &format!("--seed={seed}")]), ch(move |s| (s.minweight, s.seed) = (1.4, seed))));
            }
        }
    }
    let names = ["mu R=2 E", "PDF set=2:E", "PDF set=3:E"];
    for n in 1..=3usize {
        for pick in Odometer::pow(3, n) {
            let mut set = pick.clone();
            set.sort();
            set.dedup();
            if set.len() < n {
                continue;
            }
            let v: Vec<String> = pick.iter().map(|i| names[*i].into()).collect();
            vals.push((args(&[&format!("--weights={}", v.join(","))]), {
                let v = v.clone();
                ch(move |s| s.weights = v.clone())
            }));
            vals.push((v.iter().map(|n| format!("--weights={n}")).collect(), ch(move |s| s.weights = v.clone())));
        }
    }
    for l in 0..=19u8 {
        for (n, max, f) in [("zstd", 19, Algo::Zstd as fn(u8) -> Algo), ("gzip", 9, Algo::Gzip as fn(u8) -> Algo), ("lz4", 16, Algo::Lz4 as fn(u8) -> Algo)] {
            if l <= max {
                vals.push((args(&[&format!("--compression={n}_{l}")]), ch(move |s| s.compression = f(l))));
            }
        }
    }
    let dir = scratch("c21vals");
    let inputs: Vec<PathBuf> = (0..2).map(|i| write_sample(&dir, [Fmt::Hep, Fmt::Lhef][i], &format!("in{i}"), &sample([Fmt::Hep, Fmt::Lhef][i], 2, 20))).collect();
    let all: Vec<(Vec<String>, Change)> = vec![
        (vec![], ch(|_| ())),
        (
            args(&["--include-neutrinos", "-s=naive", "--strategy=least_negative"]),
            ch(|s| (s.neutrinos, s.naive, s.strategy) = (true, true, Strategy::LeastNegative)),
        ),
    ];
    let jobs: Vec<(usize, usize, usize)> =
        (0..vals.len()).flat_map(|v| [(v, 0, 0), (v, 1, 0), (v, 0, 1)]).filter(|j| j.2 == 0 || !vals[j.0].0[0].starts_with("--weights")).collect();
    par_for(&jobs, |&(v, b, f)| {
        let name = format!("values/{}/{b}/{f}", vals[v].0.join(","));
        if !ctx.want(&name) || ctx.stop() {
            return;
        }
        ctx.eval();
        let d = tools::fresh("c21v");
        let mut set = Setting::default();
        let mut a = args(&["--threads", "1", "--outdir", "out"]);
        if !vals[v].0.iter().any(|x| x == "-R") {
            a.extend(args(&BASE))
        }
        for (x, c) in [&all[b], &vals[v]] {
            a.extend(x.iter().cloned());
            c(&mut set)
        }
        a.push(inputs[f].to_str().unwrap().into());
        let r = tools::run("cres", &a, &d, Opt::default());
        let lib = set.run(&inputs[f..f + 1], &d.join("lib"));
        match judge(&r, &lib, &d.join("out"), &d.join("lib")) {
            Ok(()) => ctx.nontrivial(hash_of(&name)),
            Err(e) => ctx.fail(&name, e, json!({"args": a, "stderr": r.stderr})),
        }
    });
    ctx.note("values_of_single_options", vals.len());
    // larger samples and many files
    for (k, (n, files)) in ctx.by(vec![(1200, 3), (100, 60)], vec![(1200, 3), (100, 60), (6000, 1), (2500, 200)]).into_iter().enumerate() {
        for (b, all) in all.iter().enumerate() {
            let name = format!("large/{n}/{files}/{b}");
            if !ctx.want(&name) || ctx.stop() {
                continue;
            }
            ctx.eval();
            let fmt = FMTS[k % 2];
            let d = tools::fresh("c21w");
            let evs = sample(fmt, 9, n);
            let ins: Vec<PathBuf> =
                evs.chunks(n.div_ceil(files)).enumerate().map(|(i, e)| write_sample(&dir.join(&name), fmt, &format!("f{i}"), e)).collect();
            let mut set = Setting { minweight: 1.2, seed: 99, ..Default::default() };
            let mut a = args(&["--threads", "1", "--outdir", "out", "-w=1.2", "--seed=99"]);
            a.extend(args(&BASE));
            a.extend(all.0.iter().cloned());
            all.1(&mut set);
            a.extend(ins.iter().map(|i| i.to_str().unwrap().to_string()));
            let r = tools::run("cres", &a, &d, Opt::default());
            let lib = set.run(&ins, &d.join("lib"));
            match judge(&r, &lib, &d.join("out"), &d.join("lib")) {
                Ok(()) => ctx.nontrivial(hash_of(&name)),
                Err(e) => ctx.fail(&name, e, json!({"args": a.iter().take(20).collect::<Vec<_>>(), "stderr": r.stderr.chars().take(2000).collect::<String>()})),
            }
        }
    }
}

fn products(ctx: &Ctx) {
    let dims = dims();
    let dir = scratch("c21in");
    let n = 20;
    let mut inputs: BTreeMap<usize, Vec<PathBuf>> = BTreeMap::new();
    for (i, fmt) in FMTS.iter().enumerate() {
        let evs = sample(*fmt, 2, n);
        let d = dir.join(format!("{fmt:?}"));
        let mut v = vec![
            write_sample(&d, *fmt, "one.dat", &evs[..n / 2]),
            write_sample(&d, *fmt, "two.x.dat", &evs[n / 2..]),
        ];
        if *fmt == Fmt::Xml {
            v.push(write_norm(&d, "2.5"))
        }
        inputs.insert(i, v);
    }
    let dev = ctx.by(2, 3);
    let sizes: Vec<usize> = dims.iter().map(|d| d.values.len()).collect();
    let mut jobs = vec![];
    let mut sets = vec![vec![0; sizes.len()]];
    for i in 0..sizes.len() {
        let mut more = vec![];
        for s in &sets {
            if s.iter().filter(|x| **x > 0).count() < dev {
                for v in 1..sizes[i] {
                    let mut t = s.clone();
                    t[i] = v;
                    more.push(t)
                }
            }
        }
        sets.extend(more)
    }
    for s in sets {
        for f in 0..3 {
            // three deviations for one format only
            if s.iter().filter(|x| **x > 0).count() == 3 && f != s.iter().sum::<usize>() % 3 {
                continue;
            }
            jobs.push((f, s.clone()))
        }
    }
    // any values of any three options together, for some format
    let mut all = sizes.clone();
    all.push(3);
    let cover = covering(&all);
    ctx.note("settings_covering_three_options", cover.len());
    jobs.extend(cover.into_iter().map(|mut r| (r.pop().unwrap(), r)));
    jobs.sort();
    jobs.dedup();
    let effects = std::sync::Mutex::new(BTreeMap::<String, std::collections::BTreeSet<u64>>::new());
    par_for(&jobs, |(f, s)| {
        let what: Vec<String> = s.iter().zip(&dims).filter(|(v, _)| **v > 0).map(|(v, d)| format!("{}{v}", d.name)).collect();
        let name = format!("products/{:?}/{}", FMTS[*f], what.join("+"));
        if !ctx.want(&name) || ctx.stop() {
            return;
        }
        ctx.eval();
        let d = tools::fresh("c21");
        let mut set = Setting::default();
        let mut a = args(&["--threads", "1", "--outdir", "out"]);
        for (v, d) in s.iter().zip(&dims) {
            let (x, c) = &d.values[*v];
            a.extend(x.iter().cloned());
            c(&mut set);
        }
        for i in &inputs[f] {
            a.push(i.to_str().unwrap().into())
        }
        let r = tools::run("cres", &a, &d, Opt::default());
        let lib = set.run(&inputs[f], &d.join("lib"));
        match judge(&r, &lib, &d.join("out"), &d.join("lib")) {
            Ok(()) => {
                ctx.nontrivial(hash_of(&name));
                ctx.count(if lib.is_ok() { "runs_with_equal_outputs" } else { "runs_with_errors" }, 1);
                if what.len() <= 2 {
                    let h = hash_of(&tools::tree(&d.join("lib")));
                    let mut e = effects.lock().unwrap();
                    for (v, d) in s.iter().zip(&dims) {
                        if *v > 0 {
                            // compared with the run that has the default
                            let mut t: Vec<String> = what.clone();
                            t.retain(|x| *x != format!("{}{v}", d.name));
                            let key = format!("{:?}/{}", FMTS[*f], t.join("+"));
                            e.entry(format!("{}{v}", d.name)).or_default().insert(hash_of(&(key, h)));
                        }
                    }
                    e.entry("".into()).or_default().insert(hash_of(&(format!("{:?}/{}", FMTS[*f], what.join("+")), h)));
                }
                if what.is_empty() {
                    ctx.sample(format!("cres {} : output equals that of the library", a.join(" ")))
                }
            }
            Err(e) => ctx.fail(&name, e, json!({"args": a, "stderr": r.stderr})),
        }
    });
    // how often did a value change the output?
    let e = effects.into_inner().unwrap();
    if let Some(base) = e.get("") {
        let m: serde_json::Map<_, _> = e
            .iter()
            .filter(|x| !x.0.is_empty())
            .map(|(k, v)| (k.clone(), json!(v.iter().filter(|h| !base.contains(h)).count())))
            .collect();
        ctx.note("contexts_in_which_value_changes_output", m);
    }
    ctx.note("deviations_from_default_settings", dev);
}

/// where the outputs go
fn places(ctx: &Ctx) {
    use std::os::unix::ffi::OsStrExt;
    let ins: [&[&[u8]]; 14] = [
        &[b"a.dat"],
        &[b"a"],
        &[b".hidden"],
        &[b"d/a.b.c"],
        &[b"d/e/x y.dat"],
        &[b"./d/a.b.c", b"a.dat"],
        &[b"d/../d/e/x y.dat"],
        &[b"\xc3\xa4\xe2\x82\xac.dat"],
        &[b"d/-x"],
        &[b"a\nb"],
        &[b"\xff\xfe.dat"],
        &[b"a.dat", b"a", b".hidden", b"d/a.b.c"],
        &[b"d//a.b.c"],
        &[b"d/@x"],
    ];
    let outs = ["out", "out/", "new/deep/er", "./out", "d/../out", "-o", "@o", "ABS", "exists", "a.b"];
    let mut jobs = vec![];
    for (i, _) in ins.iter().enumerate() {
        for (o, _) in outs.iter().enumerate() {
            for f in 0..3 {
                for via_file in [false, true] {
                    if f == (i + o) % 3 || ctx.thorough {
                        jobs.push((i, o, f, via_file))
                    }
                }
            }
        }
    }
    par_for(&jobs, |&(i, o, f, via_file)| {
        let name = format!("places/{i}/{}/{:?}/{via_file}", outs[o], FMTS[f]);
        if !ctx.want(&name) || ctx.stop() {
            return;
        }
        let fmt = FMTS[f];
        ctx.eval();
        let d = tools::fresh("c21p");
        let mut inputs = vec![];
        let mut a: Vec<std::ffi::OsString> = vec![];
        let out = if outs[o] == "ABS" { d.join("abs/out") } else { PathBuf::from(outs[o]) };
        let list = [b"-a=anti-kt".as_slice(), b"--jetradius=0.8", b"--jetpt=20", b"--threads=1"];
        let utf8 = ins[i].iter().all(|x| std::str::from_utf8(x).is_ok());
        if via_file {
            if !utf8 || ins[i].iter().any(|x| x.contains(&b'\n')) {
                // argument files are text, with one argument per line
                return;
            }
            std::fs::write(d.join("argfile"), list.join(b"\n".as_slice())).unwrap();
            a.push("@argfile".into());
        } else {
            a.extend(list.iter().map(|x| std::ffi::OsStr::from_bytes(x).to_owned()));
        }
        let mut o1 = std::ffi::OsString::from("--outdir=");
        o1.push(&out);
        a.push(o1);
        for (k, x) in ins[i].iter().enumerate() {
            let p = Path::new(std::ffi::OsStr::from_bytes(x));
            if x.starts_with(b"d/../") {
                std::fs::create_dir_all(d.join("d")).unwrap();
            }
            let evs = sample(fmt, 5 + k as u64, 4);
            inputs.push(d.join(write_sample(&d, fmt, "tmp", &evs)));
            let to = d.join(p);
            std::fs::create_dir_all(to.parent().unwrap()).unwrap();
            std::fs::rename(inputs.pop().unwrap(), &to).unwrap();
            inputs.push(to);
            a.push(p.into());
        }
        if fmt == Fmt::Xml {
            inputs.push(write_norm(&d, "2.5"));
            a.push("norm.xml".into());
        }
        std::fs::create_dir_all(d.join("d")).unwrap();
        if outs[o] == "exists" {
            std::fs::create_dir_all(d.join("exists")).unwrap();
        }
        let before = tools::tree(&d);
        let r = tools::run_os("cres", &a, &d, Opt::default());
        let real = if out.is_absolute() { out.clone() } else { d.join(&out) };
        let lib = Setting::default().run(&inputs, &d.join("lib"));
        let res = judge(&r, &lib, &real, &d.join("lib")).and_then(|()| {
            // nothing but the outputs is new
            let real = real.canonicalize().map_err(|e| e.to_string())?;
            let rel = real.strip_prefix(d.canonicalize().unwrap()).unwrap().to_path_buf();
            for (k, v) in tools::tree(&d) {
                let k = PathBuf::from(k);
                if !k.starts_with("lib") && !k.starts_with(&rel) && before.get(k.to_str().unwrap()) != Some(&v) {
                    return Err(format!("{k:?} appears"));
                }
            }
            Ok(())
        });
        match res {
            Ok(()) => ctx.nontrivial(hash_of(&name)),
            Err(e) => ctx.fail(&name, e, json!({"args": format!("{a:?}"), "stderr": r.stderr})),
        }
    });
}

/// more output for every level, and none for `off`
fn levels(ctx: &Ctx) {
    for (f, fmt) in FMTS.iter().enumerate() {
        let name = format!("levels/{fmt:?}");
        if !ctx.want(&name) || ctx.stop() {
            continue;
        }
        let d = tools::fresh("c21l");
        write_sample(&d, *fmt, "a.dat", &sample(*fmt, 1, 8));
        write_norm(&d, "2");
        let mut last = 0;
        let mut res = Ok(());
        for (via_env, l) in [(false, "off"), (false, "error"), (false, "warn"), (false, "info"), (false, "debug"), (false, "trace"), (true, "off")] {
            ctx.eval();
            let mut a = args(&["--outdir=out", "--threads=1"]);
            a.extend(args(&BASE));
            a.push(if via_env { "--loglevel=trace".into() } else { format!("-l={l}") });
            a.push("a.dat".into());
            if f == 2 {
                a.push("norm.xml".into())
            }
            let mut o = Opt::default();
            if via_env {
                o.env.push(("CRES_LOG", l.into()));
            }
            let r = tools::run("cres", &a, &d, o);
            let n = r.stderr.lines().count() + r.stdout.lines().count();
            if !r.ok() {
                res = Err(r.describe())
            } else if l == "off" && n > 0 {
                res = Err(format!("output with level off: {}", r.stderr))
            } else if !via_env && n < last {
                res = Err(format!("less output for level {l}"))
            }
            last = n;
        }
        match res {
            Ok(()) => ctx.nontrivial(hash_of(&name)),
            Err(e) => ctx.fail(&name, e, json!({})),
        }
    }
}

/// As many threads as requested: each gets a stack of 1 GB, and there are 8 GB of address space
fn threads(ctx: &Ctx) {
    let d = tools::fresh("c21t");
    write_sample(&d, Fmt::Hep, "a.dat", &sample(Fmt::Hep, 1, 8));
    for tool in ["cres", "cres-partition"] {
        for (opts, env, few) in [
            (vec!["--threads=1"], "64", true),
            (vec!["-t", "1"], "64", true),
            (vec!["--threads", "2"], "64", true),
            (vec!["--threads=64"], "1", false),
            (vec!["-t64"], "1", false),
            (vec![], "64", false),
            (vec![], "1", true),
            (vec!["--threads=0"], "64", false),
            (vec!["--threads=0"], "1", true),
        ] {
            let name = format!("threads/{tool}/{opts:?}/{env}").replace(' ', "");
            if !ctx.want(&name) || ctx.stop() {
                continue;
            }
            ctx.eval();
            let mut a = args(if tool == "cres" { &["--outdir=out"] } else { &["--outfile=out.yaml", "--regions=2"] });
            a.extend(args(&BASE));
            a.extend(args(&opts));
            a.push("a.dat".into());
            let o = Opt {
                env: vec![("RAYON_NUM_THREADS", env.into()), ("RUST_MIN_STACK", (1u64 << 30).to_string())],
                ..Default::default()
            };
            let r = tools::run(tool, &a, &d, o);
            if r.ok() != few {
                let what = if few { "more" } else { "fewer" };
                ctx.fail(&name, format!("{what} threads than requested ({})", r.describe()), json!({"args": a}))
            } else {
                ctx.nontrivial(hash_of(&name))
            }
        }
    }
}

/// the partition is the one for the given settings
fn partitions(ctx: &Ctx) {
    let dims: Vec<Dim> = dims()
        .into_iter()
        .filter(|d| ["jet", "lepton", "photon", "neutrinos", "ptweight", "compression"].contains(&d.name))
        .collect();
    let mut dims = dims;
    for d in &mut dims {
        if d.name == "ptweight" {
            for (x, a) in [(12., "12"), (1e5, "1e5"), (1e-3, "1e-3")] {
                d.values.push((args(&["--ptweight", a]), ch(move |s| s.ptweight = x)))
            }
        }
    }
    let sizes: Vec<usize> = dims.iter().map(|d| d.values.len()).collect();
    let all: Vec<Vec<usize>> = Odometer::new(sizes)
        .filter(|s| ctx.thorough || s.iter().filter(|x| **x > 0).count() <= 2)
        .collect();
    let n = 16;
    let dir = scratch("c21part");
    let files: Vec<PathBuf> =
        FMTS.iter().map(|fmt| write_sample(&dir, *fmt, &format!("{fmt:?}.dat"), &sample(*fmt, 3, n))).collect();
    par_for(&all, |s| {
        let f = s.iter().sum::<usize>() % 3;
        let name = format!("partition/{:?}/{s:?}", FMTS[f]).replace(' ', "");
        if !ctx.want(&name) || ctx.stop() {
            return;
        }
        ctx.eval();
        let d = tools::fresh("c21q");
        let mut set = Setting::default();
        let mut a = args(&["--threads", "1", "--regions=2"]);
        for (v, d) in s.iter().zip(&dims) {
            let (x, c) = &d.values[*v];
            a.extend(x.iter().cloned());
            c(&mut set);
        }
        a.push(files[f].to_str().unwrap().into());
        let mut b = a.clone();
        a.extend(args(&["-o", "p1"]));
        b.extend(args(&["--outfile=p2", "--loglevel", "off"]));
        let r = tools::run("cres-partition", &a, &d, Opt::default());
        let r2 = tools::run("cres-partition", &b, &d, Opt::default());
        let res = (|| {
            for r in [&r, &r2] {
                if !r.ok() {
                    return Err(r.describe());
                }
            }
            let p1 = std::fs::read(d.join("p1")).map_err(|e| e.to_string())?;
            let p2 = std::fs::read(d.join("p2")).map_err(|e| e.to_string())?;
            if p1 != p2 {
                return Err("a second run gives another partition".into());
            }
            let text = set.compression.decompress(&p1)?;
            let (cl, part): Stored = serde_yaml::from_slice(&text).map_err(|e| e.to_string())?;
            let yaml = |c: &DefaultClustering| serde_yaml::to_value(c).unwrap();
            if yaml(&cl) != yaml(&set.clustering()) {
                return Err(format!("clustering {cl:?} instead of {:?}", set.clustering()));
            }
            // the same tree with the requested distance
            let was = serde_yaml::to_value(&part).unwrap();
            let (_, again): Stored = serde_yaml::from_slice(&text).map_err(|e| e.to_string())?;
            let tree = again.into_tree();
            let dist = cres::distance::EuclWithScaledPt::new(noisy_float::prelude::n64(set.ptweight));
            let want = unsafe { cres::partition::VPTreePartition::from_vp(tree, dist) };
            if serde_yaml::to_value(want).unwrap() != was {
                return Err("distance with a different weight of transverse momenta".into());
            }
            // the vantage points are clustered events with negative weight
            let mut mine = vec![];
            let rd = cres::io::FileReader::try_new(files[f].clone()).map_err(|e| chain(&e))?;
            for ev in rd {
                let ev = convert(&[], ev.map_err(|e| chain(&e))?)?;
                if ev.weight() < 0. {
                    let ev = cres::traits::Clustering::cluster(&set.clustering(), ev).map_err(|e| chain(&e))?;
                    mine.push(outgoing(&ev))
                }
            }
            for b in part.into_tree() {
                let p = outgoing(&b.pt);
                if !mine.contains(&p) {
                    return Err(format!("vantage point {p:?} is not a clustered event with negative weight"));
                }
            }
            Ok(())
        })();
        match res {
            Ok(()) => ctx.nontrivial(hash_of(&name)),
            Err(e) => ctx.fail(&name, e, json!({"args": a})),
        }
    });
    ctx.note("settings_of_partitions", all.len());
}

pub fn run(ctx: &Ctx) {
    ctx.assume("a run of the library with one thread and the same settings (cli/src/libref.rs) is the reference for the tools");
    levels(ctx);
    threads(ctx);
    places(ctx);
    values(ctx);
    partitions(ctx);
    products(ctx);
}
