//! C15: a failed write (or read) is never reported as success
use crate::c12::{higgs, style0};
use crate::ctx::*;
use crate::fmt::*;
use crate::tools::{self, args, Opt, Ran};
use serde_json::json;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::Mutex;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Tool {
    Cres,
    Partition,
    Classify,
}
pub const TOOLS: [Tool; 3] = [Tool::Cres, Tool::Partition, Tool::Classify];
impl Tool {
    pub fn bin(self) -> &'static str {
        match self {
            Tool::Cres => "cres",
            Tool::Partition => "cres-partition",
            Tool::Classify => "cres-classify-events",
        }
    }
}

/// What is run
#[derive(Clone, Debug)]
pub struct Setup {
    pub tool: Tool,
    pub fmt: Fmt,
    pub algo: Algo,
    /// compression of the input
    pub input: Algo,
    /// events in the first and the second file
    pub events: [usize; 2],
}
impl Setup {
    fn name(&self) -> String {
        format!("{:?}:{:?}:{:?}<{:?}:{}+{}", self.tool, self.fmt, self.algo, self.input, self.events[0], self.events[1])
    }
    fn write(&self, dir: &Path) {
        let mut k = 0;
        for (n, name) in self.events.iter().zip(["a.dat", "b.dat"]) {
            let evs: Vec<Ev> = (0..*n).map(|i| higgs((7 * (k + i) % 1009) as f64, [-1.5, 2., -0.25][(k + i) % 3])).collect();
            k += n;
            let text = make(self.fmt, &evs, &style0(self.fmt)).text();
            std::fs::write(dir.join(name), self.input.compress(text.as_bytes())).unwrap();
        }
        std::fs::write(dir.join("norm.xml"), self.input.compress(normalization("Bm", "2").as_bytes())).unwrap();
        if self.tool == Tool::Classify {
            crate::c13::write_partition(dir, 2);
            let p = dir.join("part.yaml");
            let text = std::fs::read(&p).unwrap();
            std::fs::write(p, self.input.compress(&text)).unwrap();
        }
        std::fs::create_dir(dir.join("out")).unwrap();
    }
    fn args(&self, algo: Algo) -> Vec<String> {
        let mut a = args(match self.tool {
            Tool::Cres => &["-a", "anti-kt", "-R", "0.4", "-p", "30", "--threads", "1", "--outdir", "out/new"],
            Tool::Partition => &["-a", "anti-kt", "-R", "0.4", "-p", "30", "--regions", "2", "--threads", "1", "--outfile", "out/p.yaml"],
            Tool::Classify => &["--partition", "part.yaml", "--outdir", "out/new"],
        });
        match algo {
            Algo::None => {}
            Algo::Bzip2 => a.extend(args(&["--compression", "bzip2"])),
            Algo::Gzip(n) => a.extend(["--compression".into(), format!("gzip_{n}")]),
            Algo::Lz4(n) => a.extend(["--compression".into(), format!("lz4_{n}")]),
            Algo::Zstd(n) => a.extend(["--compression".into(), format!("zstd_{n}")]),
        }
        a.extend(args(&["a.dat", "b.dat"]));
        if self.tool == Tool::Cres && self.fmt == Fmt::Xml {
            a.push("norm.xml".into())
        }
        a
    }
}

type Tree = BTreeMap<String, Vec<u8>>;

/// Which call fails, and how
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Fault {
    /// no file can be larger than this
    Limit(u64),
    /// class, number, errno, mode
    Call(&'static str, u64, i32, &'static str),
    /// the output with this name is a link to a full device
    Full(String),
}

const ENOSPC: i32 = 28;
const EIO: i32 = 5;
const EINTR: i32 = 4;
const EACCES: i32 = 13;

fn env(dir: &Path, log: &Path, f: Option<(&str, u64, i32, &str)>) -> Vec<(&'static str, String)> {
    let mut e = vec![
        ("LD_PRELOAD", tools::bin("fault.so").display().to_string()),
        ("FAULT_DIR", dir.display().to_string()),
        ("FAULT_LOG", log.display().to_string()),
    ];
    if let Some((op, n, err, mode)) = f {
        e.push(("FAULT_OP", op.into()));
        e.push(("FAULT_N", n.to_string()));
        e.push(("FAULT_ERR", err.to_string()));
        e.push(("FAULT_MODE", mode.into()));
    }
    e
}

fn world(s: &Setup, name: &str) -> PathBuf {
    let dir = tools::fresh(name).canonicalize().unwrap();
    s.write(&dir);
    dir
}

/// The outputs without faults, and the number of system calls of each class
fn undisturbed(ctx: &Ctx, s: &Setup, algo: Algo) -> Option<(Tree, BTreeMap<String, u64>)> {
    let dir = world(s, "c15");
    let log = thread_dir().join("c15.log");
    let _ = std::fs::remove_file(&log);
    let r = tools::run(s.tool.bin(), &s.args(algo), &dir, Opt { env: env(&dir, &log, None), ..Default::default() });
    let case = format!("{}:undisturbed", s.name());
    if !r.ok() {
        if s.tool == Tool::Partition && s.events.iter().sum::<usize>() < 3 && r.refused() {
            return None; // too few events
        }
        ctx.fail(&case, format!("fails without any fault: {}", r.describe()), json!({"args": s.args(algo)}));
        return None;
    }
    let log = match std::fs::read_to_string(&log) {
        Ok(l) => l,
        Err(e) => {
            ctx.error(format!("{case}: no log of the system calls: {e}"));
            return None;
        }
    };
    let counts = log
        .lines()
        .map(|l| {
            let (a, b) = l.split_once(' ').unwrap();
            (a.to_string(), b.parse().unwrap())
        })
        .collect();
    Some((tools::tree(&dir.join("out")), counts))
}

fn run_case(ctx: &Ctx, s: &Setup, good: &Tree, f: &Fault) {
    let name = format!("{}/{:?}", s.name(), f).replace(' ', "");
    if !ctx.want(&name) || ctx.stop() {
        return;
    }
    ctx.eval();
    let dir = world(s, "c15");
    let log = thread_dir().join("c15.log");
    let before = tools::tree(&dir);
    let mut o = Opt::default();
    match f {
        Fault::Limit(n) => o.fsize = Some(*n),
        Fault::Call(op, n, err, mode) => o.env = env(&dir, &log, Some((op, *n, *err, mode))),
        Fault::Full(p) => {
            let p = dir.join("out").join(p);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::os::unix::fs::symlink("/dev/full", p).unwrap()
        }
    }
    let r: Ran = tools::run(s.tool.bin(), &s.args(s.algo), &dir, o);
    let out = tools::tree(&dir.join("out"));
    let res = (|| -> Result<(), String> {
        if r.panicked() || r.timeout || r.signal.is_some() {
            return Err(r.describe());
        }
        for (k, v) in &before {
            if std::fs::read(dir.join(k)).ok().as_ref() != Some(v) {
                return Err(format!("input {k} is changed"));
            }
        }
        if !r.ok() {
            ctx.count("reported", 1);
            ctx.nontrivial(hash_of(&name));
            return Ok(());
        }
        for (k, v) in good {
            match out.get(k) {
                None => return Err(format!("success is reported, but {k} is missing")),
                Some(w) if w != v => {
                    return Err(format!("success is reported, but {k} has {} bytes, not the {} of an undisturbed run, or others", w.len(), v.len()))
                }
                _ => {}
            }
        }
        ctx.count("no_effect", 1);
        Ok(())
    })();
    if let Err(e) = res {
        ctx.fail(&name, e, json!({"args": s.args(s.algo), "tool": s.tool.bin(), "fault": format!("{f:?}"), "stderr": r.stderr}))
    }
}

fn faults(s: &Setup, good: &Tree, counts: &BTreeMap<String, u64>, every: u64) -> Vec<Fault> {
    let mut v = vec![];
    let max = good.values().map(|v| v.len() as u64).max().unwrap_or(0);
    let mut limits: Vec<u64> = (0..=max).step_by(every as usize).collect();
    // around the end of each file and the sizes of buffers
    for l in good.values().map(|v| v.len() as u64).chain((1..=max / 8192).map(|k| k * 8192)) {
        for d in 0..5 {
            limits.push((l + d).saturating_sub(2));
        }
    }
    limits.retain(|l| *l <= max + 1);
    limits.sort();
    limits.dedup();
    v.extend(limits.into_iter().map(Fault::Limit));
    let mut call = |op: &'static str, kinds: &[(i32, &'static str)]| {
        let n = counts[op];
        // a few calls more, for those that only take place after others have failed
        for k in 0..=n {
            for (e, m) in kinds {
                v.push(Fault::Call(op, k, *e, m))
            }
        }
    };
    call("write", &[(ENOSPC, "once"), (ENOSPC, "forever"), (EIO, "once"), (0, "once"), (0, "forever"), (EINTR, "once")]);
    // regular files are never read in part, and the recognition of
    // compressed files relies on that
    if s.input == Algo::None {
        call("read", &[(0, "once")])
    }
    call("read", &[(EIO, "once"), (EIO, "forever"), (EINTR, "once")]);
    call("create", &[(ENOSPC, "once"), (EACCES, "forever"), (EINTR, "once")]);
    call("open", &[(EACCES, "once"), (EACCES, "forever"), (EIO, "once"), (EINTR, "once")]);
    call("mkdir", &[(ENOSPC, "once"), (EACCES, "forever")]);
    call("seek", &[(EIO, "once"), (EIO, "forever")]);
    for k in good.keys() {
        v.push(Fault::Full(k.clone()))
    }
    v
}

fn setups(ctx: &Ctx) -> Vec<(Setup, u64)> {
    let mut v = vec![];
    let algos: &[Algo] = ctx.by(
        &[Algo::None, Algo::Bzip2, Algo::Gzip(5), Algo::Lz4(0), Algo::Zstd(0)],
        &[
            Algo::None,
            Algo::Bzip2,
            Algo::Gzip(0),
            Algo::Gzip(5),
            Algo::Gzip(9),
            Algo::Lz4(0),
            Algo::Lz4(9),
            Algo::Lz4(16),
            Algo::Zstd(0),
            Algo::Zstd(1),
            Algo::Zstd(19),
        ],
    );
    for tool in TOOLS {
        for fmt in FMTS {
            for &algo in algos {
                let mut add = |input, events, every| v.push((Setup { tool, fmt, algo, input, events }, every));
                add(Algo::None, [3, 2], ctx.by(7, 1));
                add(algo, [0, 3], ctx.by(997, 16));
                add(Algo::None, [2, 1], ctx.by(997, 1));
                // several buffers
                add(algo, [30, 120], ctx.by(100_000, 512));
                if ctx.thorough {
                    add(algo, [1200, 10], 1_000_000);
                }
            }
        }
    }
    v
}

pub fn run(ctx: &Ctx) {
    let list = setups(ctx);
    ctx.note("setups", list.len());
    let jobs: Mutex<Vec<(usize, Fault)>> = Mutex::new(vec![]);
    let goods: Vec<Mutex<Tree>> = list.iter().map(|_| Default::default()).collect();
    let ids: Vec<usize> = (0..list.len()).collect();
    par_for(&ids, |&i| {
        let (s, every) = &list[i];
        let Some((good, counts)) = undisturbed(ctx, s, s.algo) else { return };
        let Some((plain, _)) = undisturbed(ctx, s, Algo::None) else { return };
        // the outputs of an undisturbed run are complete
        for (k, v) in &good {
            match s.algo.decompress(v) {
                Ok(t) if t == plain[k] => {}
                Ok(_) => ctx.fail(&format!("{}:undisturbed", s.name()), format!("{k} differs from the uncompressed output"), json!({})),
                Err(e) => ctx.fail(&format!("{}:undisturbed", s.name()), format!("{k} cannot be decompressed: {e}"), json!({})),
            }
        }
        ctx.count("system_calls", counts.values().sum());
        jobs.lock().unwrap().extend(faults(s, &good, &counts, *every).into_iter().map(|f| (i, f)));
        *goods[i].lock().unwrap() = good;
    });
    let mut jobs = jobs.into_inner().unwrap();
    jobs.sort_by_key(|j| j.0);
    ctx.note("faults", jobs.len());
    let goods: Vec<Tree> = goods.into_iter().map(|g| g.into_inner().unwrap()).collect();
    par_for(&jobs, |(i, f)| run_case(ctx, &list[*i].0, &goods[*i], f));
    ctx.assume("Faults are injected at the system call interface (file size limit, LD_PRELOAD stand-in, /dev/full)");
    ctx.sample(format!("{:?} with {:?}", list[0].0, jobs.first()));
    ctx.sample(format!("{:?} with {:?}", list[jobs[jobs.len() / 2].0].0, jobs[jobs.len() / 2].1));
}
