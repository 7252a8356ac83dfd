//! Running the command-line tools
use std::io::Read;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Ran {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub timeout: bool,
    pub stderr: String,
    pub stdout: String,
}
impl Ran {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    /// ended in an orderly way with an error
    pub fn refused(&self) -> bool {
        matches!(self.code, Some(c) if c != 0) && !self.panicked()
    }
    pub fn panicked(&self) -> bool {
        self.code == Some(101) || self.stderr.contains("panicked at")
    }
    pub fn describe(&self) -> String {
        let err: String = {
            let v: Vec<char> = self.stderr.chars().collect();
            v[v.len().saturating_sub(500)..].iter().collect()
        };
        match (self.timeout, self.signal, self.code) {
            (true, ..) => "does not end".into(),
            (_, Some(s), _) => format!("killed by signal {s}: {err}"),
            (_, _, c) => format!("exit status {c:?}: {err}"),
        }
    }
}

pub fn bin(tool: &str) -> PathBuf {
    let d = std::env::var_os("VERIF_DIR").expect("run through run.sh");
    Path::new(&d).join("target/bin").join(tool)
}

extern "C" {
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
}
const RLIMIT_FSIZE: i32 = 1;
const RLIMIT_AS: i32 = 9;
const SIGXFSZ: i32 = 25;

#[derive(Default)]
pub struct Opt<'a> {
    /// no file may become larger
    pub fsize: Option<u64>,
    pub stdin: Option<&'a [u8]>,
    pub env: Vec<(&'a str, String)>,
    pub timeout: Option<u64>,
}

pub fn run(tool: &str, args: &[String], dir: &Path, o: Opt) -> Ran {
    let a: Vec<std::ffi::OsString> = args.iter().map(|x| x.into()).collect();
    run_os(tool, &a, dir, o)
}

pub fn run_os(tool: &str, args: &[std::ffi::OsString], dir: &Path, o: Opt) -> Ran {
    let mut c = Command::new(bin(tool));
    c.args(args)
        .current_dir(dir)
        .env_remove("RUST_LOG")
        .env_remove("CRES_LOG")
        .env("RUST_BACKTRACE", "0")
        .env("RAYON_NUM_THREADS", "2")
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    for (k, v) in &o.env {
        c.env(k, v);
    }
    let fsize = o.fsize;
    unsafe {
        c.pre_exec(move || {
            // 8 GB are more than enough for any of the samples
            let lim = [8u64 << 30; 2];
            setrlimit(RLIMIT_AS, &lim);
            if let Some(n) = fsize {
                signal(SIGXFSZ, 1);
                setrlimit(RLIMIT_FSIZE, &[n, n]);
            }
            Ok(())
        });
    }
    let mut ch = c.spawn().expect("cannot start tool");
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let t1 = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = so.read_to_end(&mut v);
        v
    });
    let t2 = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = se.read_to_end(&mut v);
        v
    });
    let end = Instant::now() + Duration::from_secs(o.timeout.unwrap_or(60));
    let mut timeout = false;
    let mut nap = 1;
    let st = loop {
        if let Some(st) = ch.try_wait().expect("wait") {
            break st;
        }
        if Instant::now() > end {
            timeout = true;
            let _ = ch.kill();
            break ch.wait().expect("wait");
        }
        std::thread::sleep(Duration::from_micros(200 * nap));
        nap = (nap + 1).min(50);
    };
    Ran {
        code: st.code(),
        signal: st.signal(),
        timeout,
        stdout: String::from_utf8_lossy(&t1.join().unwrap()).into_owned(),
        stderr: String::from_utf8_lossy(&t2.join().unwrap()).into_owned(),
    }
}

pub fn args(a: &[&str]) -> Vec<String> {
    a.iter().map(|s| s.to_string()).collect()
}

/// a fresh, empty directory of the current thread
pub fn fresh(name: &str) -> PathBuf {
    let d = crate::fmt::thread_dir().join(name);
    if d.exists() {
        std::fs::remove_dir_all(&d).unwrap();
    }
    std::fs::create_dir_all(&d).unwrap();
    d
}

/// contents of all files below `dir`, by relative path
pub fn tree(dir: &Path) -> std::collections::BTreeMap<String, Vec<u8>> {
    let mut m = Default::default();
    fn go(base: &Path, d: &Path, m: &mut std::collections::BTreeMap<String, Vec<u8>>) {
        for e in std::fs::read_dir(d).unwrap() {
            let p = e.unwrap().path();
            let t = std::fs::symlink_metadata(&p).unwrap();
            let rel = p.strip_prefix(base).unwrap().to_string_lossy().into_owned();
            if t.is_dir() {
                go(base, &p, m)
            } else if t.file_type().is_symlink() {
                m.insert(rel, format!("-> {}", std::fs::read_link(&p).unwrap().display()).into_bytes());
            } else if t.is_file() {
                m.insert(rel, std::fs::read(&p).unwrap());
            }
        }
    }
    go(dir, dir, &mut m);
    m
}
