//! C18: the C interface
use crate::ctx::*;
use crate::fmt::*;
use cres::cluster::DefaultClustering;
use cres::distance::{Distance, EuclWithScaledPt};
use cres::event::Event;
use cres::io::{Converter, IOBuilder};
use cres::neighbour_search::{NaiveNeighbourSearch, TreeSearch};
use cres::prelude::{CresBuilder, NO_UNWEIGHTING};
use cres::resampler::ResamplerBuilder;
use mcsched::{End, Explorer};
use noisy_float::prelude::*;
use serde_json::json;
use std::collections::BTreeSet;
use std::ffi::{c_char, c_void, CString};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};

// what the header cres.h declares
#[repr(C)]
pub struct COpt {
    infiles: *mut *mut c_char,
    n_infiles: usize,
    outdir: *mut c_char,
    distance: *mut CDistanceFn,
    ptweight: f64,
    jet_def: CJetDefinition,
    neighbour_search: i32,
    max_cell_size: f64,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct CJetDefinition {
    algorithm: i32,
    radius: f64,
    min_pt: f64,
}
#[repr(C)]
pub struct CDistanceFn {
    fun: unsafe extern "C" fn(*mut c_void, *const CEventView, *const CEventView) -> f64,
    data: *mut c_void,
}
#[repr(C)]
pub struct CEventView {
    id: usize,
    weights: *const f64,
    type_sets: *const CTypeSetView,
    n_weights: usize,
    n_type_sets: usize,
}
#[repr(C)]
pub struct CTypeSetView {
    pid: i32,
    momenta: *const [f64; 4],
    n_momenta: usize,
}
extern "C" {
    #[allow(improper_ctypes)]
    fn cres_run(opt: *const COpt) -> i32;
    fn cres_get_last_err(buf: *mut c_char, buflen: usize) -> i32;
    fn cres_print_last_err();
    fn cres_logger_from_env(env_var: *const c_char) -> i32;
}
// link the library
#[allow(unused_imports)]
use cres::c_api as _;

/// what a distance function sees of an event
#[derive(Clone, Debug, PartialEq)]
struct Seen {
    id: usize,
    weights: Vec<f64>,
    sets: Vec<(i32, Vec<[f64; 4]>)>,
}

impl Seen {
    fn of_event(e: &Event) -> Self {
        Seen {
            id: e.id,
            weights: e.weights.read().iter().map(|w| f64::from(*w)).collect(),
            sets: e
                .outgoing()
                .iter()
                .map(|(id, ps)| (id.id(), ps.iter().map(|p| [p[0], p[1], p[2], p[3]].map(f64::from)).collect()))
                .collect(),
        }
    }
    unsafe fn of_view(v: *const CEventView) -> Self {
        let v = &*v;
        let mut s = Seen { id: v.id, weights: vec![], sets: vec![] };
        for i in 0..v.n_weights {
            s.weights.push(*v.weights.add(i))
        }
        for i in 0..v.n_type_sets {
            let t = &*v.type_sets.add(i);
            s.sets.push((t.pid, (0..t.n_momenta).map(|k| *t.momenta.add(k)).collect()))
        }
        s
    }
    fn key(&self) -> String {
        format!("{}:{:?}", self.id, self.weights.iter().map(|w| w.to_bits()).collect::<Vec<_>>())
    }
}

/// the distance functions of the user
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fun {
    /// components of the momenta in order
    Momenta,
    /// different for each pair
    Ids,
    /// always the same
    Const,
}

fn distance(f: Fun, a: &Seen, b: &Seen) -> f64 {
    match f {
        Fun::Const => 1.,
        Fun::Ids => (a.id as f64 - b.id as f64).abs(),
        Fun::Momenta => {
            let flat = |s: &Seen| -> Vec<f64> { s.sets.iter().flat_map(|s| s.1.iter().flatten().copied()).collect() };
            let (x, y) = (flat(a), flat(b));
            let mut d = 10. * (x.len() as f64 - y.len() as f64).abs();
            for (x, y) in x.iter().zip(&y) {
                d += 0.5 * (x - y).abs()
            }
            d
        }
    }
}

type Log = Arc<Mutex<Vec<(Seen, Seen)>>>;

struct CbData {
    fun: Fun,
    log: Log,
    /// conversions of views back to events which went wrong
    wrong: Mutex<Option<String>>,
}

unsafe extern "C" fn callback(data: *mut c_void, a: *const CEventView, b: *const CEventView) -> f64 {
    let data = &*(data as *const CbData);
    let (sa, sb) = (Seen::of_view(a), Seen::of_view(b));
    for (s, v) in [(&sa, a), (&sb, b)] {
        let back = Event::from(*(v as *const cres::c_api::event::EventView));
        let back = Seen::of_event(&back);
        if back != *s {
            *data.wrong.lock().unwrap() = Some(format!("the view {s:?} becomes the event {back:?}"))
        }
    }
    let d = distance(data.fun, &sa, &sb);
    data.log.lock().unwrap().push((sa, sb));
    d
}

/// the same as a trait object of the library
struct RustDist {
    fun: Fun,
    log: Log,
}
impl Distance for RustDist {
    fn distance(&self, a: &Event, b: &Event) -> N64 {
        let (a, b) = (Seen::of_event(a), Seen::of_event(b));
        let d = distance(self.fun, &a, &b);
        self.log.lock().unwrap().push((a, b));
        n64(d)
    }
}

#[derive(Clone, Debug)]
struct Setup {
    alg: i32,
    radius: f64,
    min_pt: f64,
    naive: bool,
    max: f64,
    ptweight: f64,
    fun: Option<Fun>,
}

fn c_string(p: &Path) -> CString {
    CString::new(p.as_os_str().as_bytes()).unwrap()
}

/// status and, if successful with a callback, whether the conversion of views is right
fn run_c(inputs: &[PathBuf], outdir: &Path, s: &Setup, log: &Log) -> Result<i32, String> {
    let names: Vec<CString> = inputs.iter().map(|p| c_string(p)).collect();
    let mut ptrs: Vec<*mut c_char> = names.iter().map(|n| n.as_ptr() as *mut c_char).collect();
    let outdir = c_string(outdir);
    let data = s.fun.map(|fun| CbData { fun, log: log.clone(), wrong: Mutex::new(None) });
    let mut dist = data.as_ref().map(|d| CDistanceFn { fun: callback, data: d as *const CbData as *mut c_void });
    let opt = COpt {
        infiles: ptrs.as_mut_ptr(),
        n_infiles: ptrs.len(),
        outdir: outdir.as_ptr() as *mut c_char,
        distance: dist.as_mut().map_or(std::ptr::null_mut(), |d| d as *mut CDistanceFn),
        ptweight: s.ptweight,
        jet_def: CJetDefinition { algorithm: s.alg, radius: s.radius, min_pt: s.min_pt },
        neighbour_search: s.naive as i32,
        max_cell_size: s.max,
    };
    let status = unsafe { cres_run(&opt) };
    if let Some(w) = data.and_then(|d| d.wrong.into_inner().unwrap()) {
        return Err(w);
    }
    Ok(status)
}

fn run_lib(inputs: &[PathBuf], outdir: &Path, s: &Setup, log: &Log) -> Result<(), String> {
    std::fs::create_dir_all(outdir).map_err(|e| e.to_string())?;
    let files: Vec<(PathBuf, PathBuf)> =
        inputs.iter().map(|i| (i.clone(), outdir.join(i.file_name().unwrap()))).collect();
    let event_io = IOBuilder::default().build_from_files_iter(files).map_err(|e| e.to_string())?;
    use cres::cluster::JetAlgorithm::*;
    let clustering = DefaultClustering::new(cres::cluster::JetDefinition {
        algorithm: [AntiKt, CambridgeAachen, Kt][s.alg as usize],
        radius: s.radius,
        min_pt: s.min_pt,
    });
    macro_rules! go {
        ($d:expr, $n:ty) => {{
            let resampler = ResamplerBuilder::default()
                .max_cell_size(if s.max.is_infinite() { None } else { Some(s.max) })
                .distance($d)
                .neighbour_search::<$n>()
                .build();
            CresBuilder { event_io, converter: Converter::new(), clustering, resampler, unweighter: NO_UNWEIGHTING }
                .build()
                .run()
                .map_err(|e| e.to_string())
        }};
    }
    match (s.fun, s.naive) {
        (None, false) => go!(EuclWithScaledPt::new(n64(s.ptweight)), TreeSearch),
        (None, true) => go!(EuclWithScaledPt::new(n64(s.ptweight)), NaiveNeighbourSearch),
        (Some(fun), false) => go!(RustDist { fun, log: log.clone() }, TreeSearch),
        (Some(fun), true) => go!(RustDist { fun, log: log.clone() }, NaiveNeighbourSearch),
    }
}

/// the message, its buffer big enough
fn message() -> Option<String> {
    let mut buf = vec![0x55u8; 20_000];
    let rc = unsafe { cres_get_last_err(buf.as_mut_ptr() as *mut c_char, buf.len()) };
    if rc != 0 {
        return Some(format!("<status {rc} for a buffer of {} bytes>", buf.len()));
    }
    if buf[0] == 0x55 && buf[1] == 0x55 {
        return None;
    }
    let end = buf.iter().position(|b| *b == 0)?;
    Some(String::from_utf8_lossy(&buf[..end]).into_owned())
}

fn tree(dir: &Path) -> std::collections::BTreeMap<String, Vec<u8>> {
    crate::tools::tree(dir)
}

fn leak(x: f64) -> &'static str {
    Box::leak(format!("{x:?}").into_boxed_str())
}

/// events of which many share a type, with negative weights
fn events(n: usize) -> Vec<Ev> {
    let w = ["1.5", "-1", "2", "-0.25", "3", "-2.5", "0.5", "4", "-0.5"];
    let mom: [[&str; 4]; 9] = [
        ["50", "30", "40", "0"],
        ["50", "40", "30", "0"],
        ["65", "0", "63", "16"],
        ["13", "5", "12", "0"],
        ["40", "-40", "0", "0"],
        ["26", "24", "0", "10"],
        ["29", "20", "21", "0"],
        ["17", "-15", "8", "0"],
        ["61", "11", "-60", "0"],
    ];
    (0..n)
        .map(|i| {
            let mut parts = vec![(21, ["200", "0", "0", "200"], St::In), (1, mom[i % 9], St::Out)];
            // jets which depend on the algorithm
            if i % 4 >= 2 {
                let (pt, phi) = [([50., 30., 30.], [0., 1.6, 1.9]), ([15., 50., 50.], [0., 1.6, 2.5])][i % 4 - 2];
                parts.truncate(1);
                for (pt, phi) in pt.into_iter().zip(phi) {
                    let phi = phi + i as f64 / 8.;
                    parts.push((1, [leak(pt), leak(pt * f64::cos(phi)), leak(pt * f64::sin(phi)), "0"], St::Out))
                }
            }
            if i % 3 == 1 {
                parts.push((21, mom[(i + 4) % 9], St::Out))
            }
            if i % 2 == 0 {
                parts.push((-11, mom[(i + 2) % 9], St::Out))
            } else {
                parts.push((11, mom[(i + 5) % 9], St::Out))
            }
            Ev { w: vec![w[i % 9].into()], parts }
        })
        .collect()
}

fn inputs(fmt: Fmt, n: usize, split: bool, dir: &Path) -> Vec<PathBuf> {
    std::fs::create_dir_all(dir).unwrap();
    let style = vec![0; dims(fmt).len()];
    let evs = events(n);
    let mut res = vec![];
    let k = if split { n / 2 } else { n };
    for (i, part) in [&evs[..k], &evs[k..]].iter().enumerate() {
        if i == 1 && !split {
            break;
        }
        let p = dir.join(format!("in{i}.dat"));
        std::fs::write(&p, make(fmt, part, &style).text()).unwrap();
        res.push(p);
    }
    if fmt == Fmt::Xml {
        res.push(write_norm(dir, "4.5"));
    }
    res
}

/// the same run from C and from the library
fn same_result(ctx: &Ctx, ins: &[PathBuf], s: &Setup, d: &Path, what: &str) -> Result<u64, String> {
    // directories that do not exist so far
    let (cd, ld) = (d.join("c/out"), d.join("lib/out"));
    for x in [d.join("c"), d.join("lib")] {
        if x.exists() {
            std::fs::remove_dir_all(&x).map_err(|e| e.to_string())?
        }
    }
    let (clog, llog) = (Log::default(), Log::default());
    let status = guarded(|| run_c(ins, &cd, s, &clog))??;
    let lib = guarded(|| run_lib(ins, &ld, s, &llog))?;
    if let Err(e) = lib {
        return Err(format!("the library refuses: {e}; status {status} from C"));
    }
    if status != 0 {
        return Err(format!("status {status}: {:?}", message()));
    }
    let (a, b) = (tree(&cd), tree(&ld));
    if a.keys().collect::<Vec<_>>() != b.keys().collect::<Vec<_>>() {
        return Err(format!("output files {:?} instead of {:?}", a.keys(), b.keys()));
    }
    for (k, v) in &a {
        if *v != b[k] {
            let at = v.iter().zip(&b[k]).take_while(|x| x.0 == x.1).count();
            return Err(format!("{k} differs from that of the library at byte {at}"));
        }
    }
    let (a2, b2) = (clog.lock().unwrap(), llog.lock().unwrap());
    for (i, (x, y)) in a2.iter().zip(b2.iter()).enumerate() {
        if x != y {
            return Err(format!("call {i} of the distance function sees {x:?} instead of {y:?}"));
        }
    }
    if a2.len() != b2.len() {
        return Err(format!("{} calls of the distance function instead of {}", a2.len(), b2.len()));
    }
    ctx.count("calls_of_distance_functions", a2.len() as u64);
    Ok(hash_of(&format!("{:?}{what}", a)))
}

/// Events with many particles of a type, with many types, and without any particles
fn odd_events(n: usize) -> Vec<Ev> {
    (0..n)
        .map(|i| {
            let mut parts = vec![(21, ["200", "0", "0", "200"], St::In)];
            let m = [0, 1, 40, 3, 100, 2, 17][i % 7];
            for k in 0..m {
                let phi = 0.3 + (k * 5 + i) as f64 * 0.7;
                let pt = 30. + (k * 3 % 11) as f64;
                let p = [leak(1.5 * pt), leak(pt * phi.cos()), leak(pt * phi.sin()), leak((k % 5) as f64)];
                let id = match i % 3 {
                    0 => 11,
                    1 => [24, -24, 23, 25, 11, -11, 13, -13, 15, -15, 6, -6, 35, 36, 37, -37][k % 16] + 100_000 * (k as i32 / 16 * 10),
                    _ => [11, 24, 21][k % 3],
                };
                parts.push((id, p, St::Out))
            }
            let w = [1.5, -1., 2., 0.25, -3.5, 1., 0.75, 4.][i % 8] * (1. + 0.01 * (i / 8) as f64);
            Ev { w: vec![leak(w).into()], parts }
        })
        .collect()
}

/// events and inputs that are unusually large or many
fn large_runs(ctx: &Ctx) {
    let dir = scratch("c18large");
    let mut cases = vec![];
    for fmt in [Fmt::Hep, Fmt::Lhef, Fmt::Xml] {
        for (n, files) in [(1usize, 1usize), (14, 1), (30, 1), (14, 14), (42, 40), (400, 3)] {
            for fun in [None, Some(Fun::Momenta), Some(Fun::Ids), Some(Fun::Const)] {
                for naive in [false, true] {
                    cases.push((fmt, n, files, fun, naive))
                }
            }
        }
    }
    par_for(&cases, |(fmt, n, files, fun, naive)| {
        let name = format!("large/{fmt:?}/{n}/{files}/{fun:?}/{naive}");
        if !ctx.want(&name) || ctx.stop() {
            return;
        }
        ctx.eval();
        let d = thread_dir();
        let src = dir.join(&name);
        std::fs::create_dir_all(&src).unwrap();
        let evs = odd_events(*n);
        let mut ins = vec![];
        for (i, part) in evs.chunks(n.div_ceil(*files)).enumerate() {
            let p = src.join(format!("in{i}.dat"));
            std::fs::write(&p, make(*fmt, part, &vec![0; dims(*fmt).len()]).text()).unwrap();
            ins.push(p)
        }
        if *fmt == Fmt::Xml {
            ins.push(write_norm(&src, "4.5"))
        }
        let s = Setup { naive: *naive, fun: *fun, ptweight: 12.5, ..plain() };
        match ctx.within(&name, || same_result(ctx, &ins, &s, &d, &name)) {
            Ok(h) => ctx.nontrivial(h),
            Err(e) => ctx.fail(&name, e.chars().take(600).collect::<String>(), json!({})),
        }
    });
}

fn same_results(ctx: &Ctx) {
    let algs = [0, 1, 2];
    let radii = [0.4, 1.7];
    let min_pts = [10., 45.];
    let maxs = [f64::INFINITY, 0., 30., 200.];
    let ptws = [0., 0.7, 4.];
    let funs = [None, Some(Fun::Momenta), Some(Fun::Ids), Some(Fun::Const)];
    let mut cases = vec![];
    for (fi, fmt) in [Fmt::Hep, Fmt::Lhef, Fmt::Xml].into_iter().enumerate() {
        for split in [false, true] {
            for o in Odometer::new(vec![3, 2, 2, 2, maxs.len(), ptws.len(), funs.len()]) {
                // the format has nothing to do with the rest
                let dev = o.iter().filter(|x| **x > 0).count();
                if (fi > 0 || split) && dev > ctx.by(4, 7) {
                    continue;
                }
                if o[6] > 0 && o[5] > 1 {
                    continue;
                }
                let s = Setup {
                    alg: algs[o[0]],
                    radius: radii[o[1]],
                    min_pt: min_pts[o[2]],
                    naive: o[3] == 1,
                    max: maxs[o[4]],
                    ptweight: ptws[o[5]],
                    fun: funs[o[6]],
                };
                cases.push((fmt, split, o, s));
            }
        }
    }
    let dirs = Mutex::new(BTreeSet::new());
    par_for(&cases, |(fmt, split, o, s)| {
        let name = format!("run/{fmt:?}/{split}/{o:?}").replace(' ', "");
        if !ctx.want(&name) || ctx.stop() {
            return;
        }
        ctx.eval();
        let d = thread_dir();
        let src = scratch("c18").join(format!("{fmt:?}{split}{:?}", std::thread::current().id()).replace(['(', ')'], ""));
        let ins = if dirs.lock().unwrap().insert(src.clone()) {
            inputs(*fmt, 9, *split, &src)
        } else {
            let mut v = vec![src.join("in0.dat")];
            if *split {
                v.push(src.join("in1.dat"))
            }
            if *fmt == Fmt::Xml {
                v.push(src.join("norm.xml"))
            }
            v
        };
        let run = || same_result(ctx, &ins, s, &d, &format!("{fmt:?}{split}"));
        match ctx.within(&name, run) {
            Ok(h) => ctx.nontrivial(h),
            Err(e) => ctx.fail(&name, e, json!({"setup": format!("{s:?}")})),
        }
    });
}

/// all schedules: callbacks see what a distance of the library can see
fn schedules(ctx: &Ctx) {
    let cases: Vec<(usize, Fun, bool)> = vec![
        (2, Fun::Ids, false),
        (2, Fun::Ids, true),
        (3, Fun::Momenta, true),
        (3, Fun::Ids, false),
        (4, Fun::Ids, true),
        (4, Fun::Const, false),
        (4, Fun::Momenta, false),
        (5, Fun::Ids, true),
        (5, Fun::Momenta, false),
    ];
    let cases = &cases[..ctx.by(7, 9)];
    par_for(cases, |(n, fun, naive)| {
        let name = format!("schedules/{n}/{fun:?}/{naive}");
        if !ctx.want(&name) || ctx.stop() {
            return;
        }
        let dir = scratch(&format!("sched{n}{fun:?}{naive}"));
        // leptons only: all events of one type
        let evs: Vec<Ev> = (0..*n)
            .map(|i| Ev {
                w: vec![["-2", "1.5", "-0.25", "4", "-1"][i].into()],
                parts: vec![(11, [["5", "3", "4", "0"], ["13", "5", "12", "0"], ["17", "8", "15", "0"], ["25", "7", "24", "0"], ["10", "6", "8", "0"]][i], St::Out)],
            })
            .collect();
        let input = dir.join("in.lhe");
        std::fs::write(&input, make(Fmt::Lhef, &evs, &vec![0; dims(Fmt::Lhef).len()]).text()).unwrap();
        let s = Setup { alg: 0, radius: 0.4, min_pt: 10., naive: *naive, max: f64::INFINITY, ptweight: 0., fun: Some(*fun) };
        let ex = Explorer {
            max_executions: Some(ctx.by(30_000, 1_000_000)),
            deadline: Some(ctx.deadline),
            horizon: 8000,
            threads: 2,
            ..Default::default()
        };
        // results and views for the library and for C
        let mut sets: Vec<(BTreeSet<Vec<u8>>, BTreeSet<String>)> = vec![];
        for c in [false, true] {
            let (s, input, out) = (s.clone(), input.clone(), dir.join(if c { "c" } else { "lib" }));
            let out2 = out.clone();
            let body = move || -> Result<(Vec<u8>, Vec<(Seen, Seen)>), String> {
                let log = Log::default();
                if c {
                    let st = run_c(&[input.clone()], &out2, &s, &log)?;
                    if st != 0 {
                        return Err(format!("status {st}: {:?}", message()));
                    }
                } else {
                    run_lib(&[input.clone()], &out2, &s, &log)?
                }
                let v = std::fs::read(out2.join("in.lhe")).map_err(|e| e.to_string())?;
                let l = log.lock().unwrap().clone();
                Ok((v, l))
            };
            let mut res = BTreeSet::new();
            let mut views = BTreeSet::new();
            let r = ex.explore(body, |end| {
                ctx.eval();
                match end {
                    End::Ok(Ok((out, log))) => {
                        res.insert(out);
                        for (a, b) in log {
                            views.insert(a.key());
                            views.insert(b.key());
                        }
                        Ok(())
                    }
                    End::Ok(Err(e)) => Err(e),
                    End::Panic(p) => Err(format!("panic: {p}")),
                    End::Deadlock(w) => Err(format!("deadlock: {w}")),
                    End::Horizon => Err("does not end within 8000 scheduling steps".into()),
                }
            });
            match r {
                Err(e) => {
                    ctx.error(format!("{name}: {}", e.0));
                    return;
                }
                Ok((st, f)) => {
                    ctx.states.fetch_add(st.states, SeqCst);
                    ctx.transitions.fetch_add(st.transitions, SeqCst);
                    ctx.count(if c { "schedules_of_C_runs" } else { "schedules_of_library_runs" }, st.executions);
                    if let Some(f) = f {
                        ctx.fail(&name, f.what.clone(), json!({"schedule": f.schedule, "trace": f.trace, "c": c}));
                        return;
                    }
                    if st.capped {
                        ctx.cap("execution limit per sample");
                        return;
                    }
                }
            }
            sets.push((res, views));
        }
        if let Some(v) = sets[1].1.iter().find(|v| !sets[0].1.contains(*v)) {
            ctx.fail(&name, format!("a callback sees {v}, which no distance of the library sees under any schedule"), json!({}));
        }
        if let Some(v) = sets[1].0.iter().find(|v| !sets[0].0.contains(*v)) {
            ctx.fail(&name, "an output which the library gives under no schedule", json!({"output": String::from_utf8_lossy(v)}));
        }
        ctx.sample(format!("{name}: {} results, {} different views", sets[1].0.len(), sets[1].1.len()));
        ctx.nontrivial_many(sets[1].1.iter().map(|v| hash_of(&(&name, v))));
        ctx.nontrivial_many(sets[1].0.iter().map(|v| hash_of(&(&name, v))));
    });
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Act {
    /// a run, `errors[i]`
    Fail(usize),
    Good,
    Full,
    /// buffer of this many bytes
    Short(usize),
}

struct Bad {
    name: &'static str,
    inputs: Vec<PathBuf>,
    outdir: PathBuf,
}

fn bad_runs(dir: &Path) -> Vec<Bad> {
    std::fs::create_dir_all(dir.join("a")).unwrap();
    std::fs::create_dir_all(dir.join("b")).unwrap();
    let w = |n: &str, d: &[u8]| {
        let p = dir.join(n);
        std::fs::write(&p, d).unwrap();
        p
    };
    let text = make(Fmt::Lhef, &events(3), &vec![0; dims(Fmt::Lhef).len()]).text();
    let good = w("a/good.lhe", text.as_bytes());
    let good2 = w("b/good.lhe", text.as_bytes());
    let cut = w("a/cut.lhe", &text.as_bytes()[..text.len() / 2]);
    let word = w("a/word.lhe", text.replacen("5.0000000000", "fifty", 1).replacen(" 50 ", " fifty ", 1).as_bytes());
    let odd = w("a/Ünïcode.lhe", &text.as_bytes()[..text.len() / 2]);
    let out = dir.join("out");
    let mut v = vec![];
    let mut add = |name, inputs: &[&Path], outdir: &Path| {
        v.push(Bad { name, inputs: inputs.iter().map(|p| p.to_path_buf()).collect(), outdir: outdir.to_path_buf() })
    };
    add("missing", &[&dir.join("a/missing.lhe")], &out);
    let long = dir.join("x".repeat(200)).join("é".repeat(110));
    add("long name", &[&long], &out);
    add("longer name", &[&long.join("y".repeat(250)).join("z".repeat(250)).join("z".repeat(240))], &out);
    add("too long a name", &[&dir.join("a/b/".repeat(1200))], &out);
    add("second missing", &[&good, &dir.join("a/missing.lhe")], &out);
    add("cut", &[&cut], &out);
    add("word", &[&word], &out);
    add("unicode", &[&odd], &out);
    add("no file name", &[&dir.join("a/..")], &out);
    add("root", &[Path::new("/")], &out);
    add("empty", &[Path::new("")], &out);
    add("directory", &[&dir.join("a")], &out);
    add("same outputs", &[&good, &good2], &out);
    add("same outputs far away", &[&good, &good2], &out.join("x".repeat(200)).join("é".repeat(110)).join("y".repeat(120)));
    add("in place", &[&good], &dir.join("a"));
    add("output directory is a file", &[&good], &good2);
    add("output directory in a file", &[&good], &good2.join("x"));
    v
}

fn plain() -> Setup {
    Setup { alg: 0, radius: 0.4, min_pt: 10., naive: false, max: f64::INFINITY, ptweight: 0., fun: None }
}

/// in a thread of its own, since messages belong to threads
fn alone<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| s.spawn(f).join().unwrap())
}

fn failures(ctx: &Ctx) {
    let dir = scratch("c18bad");
    let bads = bad_runs(&dir);
    let good = dir.join("a/good.lhe");
    let mut msgs = vec![];
    for b in &bads {
        let name = format!("bad/{}", b.name).replace(' ', "-");
        ctx.eval();
        let r = alone(|| -> Result<String, String> {
            let st = guarded(|| run_c(&b.inputs, &b.outdir, &plain(), &Log::default()))??;
            if st == 0 {
                return Err("success".into());
            }
            match message() {
                Some(m) if !m.is_empty() && !m.starts_with("<status") => Ok(m),
                m => Err(format!("status {st}, but the message is {m:?}")),
            }
        });
        match r {
            Ok(m) => {
                ctx.nontrivial(hash_of(&(b.name, &m)));
                ctx.sample(format!("{}: {}", b.name, m.chars().take(100).collect::<String>()));
                msgs.push(Some(m))
            }
            Err(e) => {
                if ctx.want(&name) {
                    ctx.fail(&name, e, json!({}))
                }
                msgs.push(None)
            }
        }
    }
    if std::fs::read(&good).unwrap().is_empty() {
        ctx.fail("bad/in-place", "an input file was overwritten", json!({}));
    }
    ctx.note("longest_message", msgs.iter().flatten().map(|m| m.len()).max().unwrap_or(0) as u64);
    // all lengths of buffers
    for (b, m) in bads.iter().zip(&msgs) {
        let Some(m) = m else { continue };
        let name = format!("buffer/{}", b.name).replace(' ', "-");
        if !ctx.want(&name) {
            continue;
        }
        let r = alone(|| -> Result<(), String> {
            guarded(|| run_c(&b.inputs, &b.outdir, &plain(), &Log::default()))??;
            for len in (0..=m.len() + 3).chain([4096, 1 << 16]) {
                ctx.eval();
                read_buffer(m, len)?
            }
            for len in (0..=m.len() + 3).rev().step_by(1 + m.len() / 500) {
                read_buffer(m, len)?
            }
            Ok(())
        });
        if let Err(e) = r {
            ctx.fail(&name, e, json!({}))
        }
    }
    // histories
    let some: Vec<usize> = ["missing", "word", "no file name"]
        .iter()
        .filter_map(|n| bads.iter().position(|b| b.name == *n && msgs[bads.iter().position(|c| c.name == b.name).unwrap()].is_some()))
        .collect();
    let mut acts: Vec<Act> = some.iter().map(|i| Act::Fail(*i)).collect();
    acts.extend([Act::Good, Act::Full, Act::Short(0), Act::Short(1), Act::Short(9)]);
    let depth = ctx.by(4, 5);
    let mut seqs = vec![];
    for len in 1..=depth {
        seqs.extend(Odometer::pow(acts.len(), len));
    }
    par_for(&seqs, |o| {
        let seq: Vec<Act> = o.iter().map(|i| acts[*i]).collect();
        let name = format!("history/{o:?}").replace(' ', "");
        if !ctx.want(&name) || ctx.stop() {
            return;
        }
        ctx.eval();
        let out = thread_dir().join("hist");
        let r = alone(|| -> Result<u64, String> {
            let mut last: Option<usize> = None;
            let mut seen = vec![];
            for a in &seq {
                ctx.states.fetch_add(1, SeqCst);
                ctx.transitions.fetch_add(1, SeqCst);
                match a {
                    Act::Fail(i) => {
                        let b = &bads[*i];
                        // messages name the output directory
                        let st = guarded(|| run_c(&b.inputs, &b.outdir, &plain(), &Log::default()))??;
                        if st == 0 {
                            return Err(format!("success for {}", b.name));
                        }
                        last = Some(*i);
                    }
                    Act::Good => {
                        let st = guarded(|| run_c(&[good.clone()], &out, &plain(), &Log::default()))??;
                        if st != 0 {
                            return Err(format!("status {st} for a good run: {:?}", message()));
                        }
                    }
                    Act::Full | Act::Short(_) => match last {
                        None => {
                            if let Some(m) = message() {
                                if !m.is_empty() {
                                    return Err(format!("message {m:?} without any error"));
                                }
                            }
                        }
                        Some(i) => {
                            let m = msgs[i].as_ref().unwrap();
                            let len = match a {
                                Act::Short(n) => *n,
                                _ => m.len() + 1,
                            };
                            read_buffer(m, len)?
                        }
                    },
                }
                seen.push(last);
            }
            Ok(hash_of(&seen))
        });
        match r {
            Ok(h) => ctx.nontrivial(hash_of(&(h, o))),
            Err(e) => ctx.fail(&name, e, json!({"actions": format!("{seq:?}")})),
        }
    });
}

/// read the message `m` with a buffer of `len` bytes
fn read_buffer(m: &str, len: usize) -> Result<(), String> {
    const FENCE: u8 = 0xA7;
    let mut buf = vec![FENCE; len + 32];
    let rc = unsafe { cres_get_last_err(buf.as_mut_ptr().add(16) as *mut c_char, len) };
    if buf[..16].iter().chain(&buf[16 + len..]).any(|b| *b != FENCE) {
        return Err(format!("reading with a buffer of {len} bytes wrote outside of it"));
    }
    let b = &buf[16..16 + len];
    let want = if len > m.len() { 0 } else { m.len() as i32 + 1 };
    if rc != want {
        return Err(format!("status {rc} instead of {want} for a message of {} bytes and a buffer of {len} bytes", m.len()));
    }
    if len > 0 {
        let k = m.len().min(len - 1);
        if b[k] != 0 {
            return Err(format!("no terminator in a buffer of {len} bytes"));
        }
        if b[..k] != m.as_bytes()[..k] {
            return Err(format!("{:?} instead of the first {k} bytes of {m:?}", String::from_utf8_lossy(&b[..k])));
        }
    }
    Ok(())
}

/// what needs a process of its own; reports on the standard output
pub fn child(args: &[String]) -> i32 {
    let cs = |s: &str| CString::new(s).unwrap();
    let dir = PathBuf::from(&args[1]);
    let bads = bad_runs(&dir);
    for a in &args[2..] {
        match a.split_once('=') {
            Some(("logger", v)) => {
                println!("logger {}", unsafe { cres_logger_from_env(cs(v).as_ptr()) })
            }
            Some(("loggerbytes", _)) => {
                let c = CString::new(vec![b'A', 0xff, 0xfe]).unwrap();
                println!("logger {}", unsafe { cres_logger_from_env(c.as_ptr()) })
            }
            Some(("fail", n)) => {
                let b = bads.iter().find(|b| b.name == n).unwrap();
                println!("run {}", run_c(&b.inputs, &b.outdir, &plain(), &Log::default()).unwrap())
            }
            Some(("good", _)) => {
                println!("run {}", run_c(&[dir.join("a/good.lhe")], &dir.join("out"), &plain(), &Log::default()).unwrap())
            }
            Some(("print", _)) => {
                eprintln!("<<");
                unsafe { cres_print_last_err() };
                eprintln!(">>");
            }
            Some(("message", _)) => println!("message {:?}", message()),
            _ => panic!("unknown action {a}"),
        }
    }
    0
}

fn processes(ctx: &Ctx) {
    let dir = scratch("c18child");
    let exe = std::env::current_exe().unwrap();
    // actions, environment, statuses, printed messages (index of the failure), log lines
    #[allow(clippy::type_complexity)]
    let cases: Vec<(&[&str], &[(&str, &str)], &[&str], &[Option<usize>], Option<(&str, bool)>)> = vec![
        (&["print=", "good=", "print="], &[], &["run 0"], &[None, None], None),
        (
            &["fail=missing", "print=", "print=", "good=", "print=", "fail=word", "print=", "message=", "print="],
            &[],
            &["run 1", "run 0", "run 1"],
            &[Some(0), Some(0), Some(0), Some(1), Some(1)],
            None,
        ),
        (&["logger=CRES_LOG", "good="], &[], &["logger 0", "run 0"], &[], Some(("Reading events", true))),
        (&["logger=CRES_LOG", "good="], &[("CRES_LOG", "error")], &["logger 0", "run 0"], &[], Some(("Reading events", false))),
        (&["logger=CRES_LOG", "good="], &[("CRES_LOG", "debug")], &["logger 0", "run 0"], &[], Some(("DEBUG", true))),
        (&["logger=OTHER", "good="], &[("CRES_LOG", "debug"), ("OTHER", "error")], &["logger 0", "run 0"], &[], Some(("INFO", false))),
        (&["good="], &[("CRES_LOG", "debug")], &["run 0"], &[], Some(("INFO", false))),
        // a second logger is an error
        (&["logger=CRES_LOG", "logger=CRES_LOG", "print="], &[("CRES_LOG", "error")], &["logger 0", "logger -1"], &[Some(99)], None),
        (&["loggerbytes=", "print=", "logger=CRES_LOG", "good="], &[("CRES_LOG", "error")], &["logger -1", "logger 0", "run 0"], &[Some(99)], None),
    ];
    // messages
    let alone_msg: Vec<String> = ["missing", "word"]
        .iter()
        .map(|n| {
            let b = bad_runs(&dir).into_iter().find(|b| b.name == *n).unwrap();
            alone(|| {
                let _ = run_c(&b.inputs, &b.outdir, &plain(), &Log::default());
                message().unwrap_or_default()
            })
        })
        .collect();
    for (acts, env, status, printed, logged) in cases {
        let name = format!("process/{}/{env:?}", acts.join(",")).replace(' ', "");
        if !ctx.want(&name) {
            continue;
        }
        ctx.eval();
        let mut cmd = std::process::Command::new(&exe);
        cmd.arg("c18-child").arg(&dir).args(acts).env_remove("CRES_LOG").env_remove("RUST_LOG");
        for (k, v) in env {
            cmd.env(k, v);
        }
        let out = cmd.output().unwrap();
        let stdout = String::from_utf8_lossy(&out.stdout).into_owned();
        let stderr = String::from_utf8_lossy(&out.stderr).into_owned();
        let check = || -> Result<(), String> {
            if !out.status.success() {
                return Err(format!("the process ends with {:?}: {stderr}", out.status));
            }
            let got: Vec<&str> = stdout.lines().filter(|l| l.starts_with("run") || l.starts_with("logger")).collect();
            let fine = got.len() == status.len()
                && got.iter().zip(status).all(|(g, s)| {
                    // any other number than zero means failure
                    g == s || (g.split(' ').next() == s.split(' ').next() && !g.ends_with(" 0") && !s.ends_with(" 0"))
                });
            if !fine {
                return Err(format!("statuses {got:?} instead of {status:?}"));
            }
            let blocks: Vec<&str> = stderr.split("<<\n").skip(1).filter_map(|b| b.split(">>\n").next()).collect();
            if blocks.len() != printed.len() {
                return Err(format!("{} messages printed: {stderr}", blocks.len()));
            }
            for (b, p) in blocks.iter().zip(printed) {
                let ok = match p {
                    None => b.is_empty(),
                    Some(99) => !b.trim().is_empty(),
                    Some(i) => b.trim_end() == alone_msg[*i].trim_end(),
                };
                if !ok {
                    return Err(format!("printed {b:?} instead of {:?}", p.and_then(|i| alone_msg.get(i))));
                }
            }
            if let Some((what, there)) = logged {
                if stderr.contains(what) != there {
                    return Err(format!("{what:?} is{} in the log: {stderr}", if there { " not" } else { "" }));
                }
            }
            Ok(())
        };
        match check() {
            Ok(()) => ctx.nontrivial(hash_of(&(&name, &stdout))),
            Err(e) => ctx.fail(&name, e, json!({})),
        }
    }
}

pub fn run(ctx: &Ctx) {
    ctx.assume("the layout of the structures of cres.h is written down once more in the harness, as a C compiler would see it");
    failures(ctx);
    processes(ctx);
    same_results(ctx);
    large_runs(ctx);
    schedules(ctx);
}
