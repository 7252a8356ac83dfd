//! C16: compression and recognition of formats
use crate::ctx::*;
use crate::fmt::*;
use cres::compression::compress_writer;
use cres::formats::FileFormat;
use cres::io::{detect_event_file_format, EventFileReader, FileReader, IOBuilder};
use cres::traits::*;
use serde_json::json;
use std::io::Write;
use std::path::Path;
use std::sync::{Arc, Mutex};

fn algos() -> Vec<Algo> {
    let mut v = vec![Algo::None, Algo::Bzip2];
    v.extend((0..=9).map(Algo::Gzip));
    v.extend((0..=16).map(Algo::Lz4));
    v.extend((0..=19).map(Algo::Zstd));
    v
}
/// one level of each
const KINDS: [Algo; 5] = [Algo::None, Algo::Bzip2, Algo::Gzip(6), Algo::Lz4(1), Algo::Zstd(3)];

/// Takes at most `max` bytes at once, and is interrupted before each second write
#[derive(Clone)]
struct Sink {
    data: Arc<Mutex<(Vec<u8>, usize)>>,
    max: usize,
    interrupt: bool,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mut d = self.data.lock().unwrap();
        d.1 += 1;
        if self.interrupt && d.1 % 2 == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = b.len().min(self.max);
        d.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn payload(kind: usize, n: usize) -> Vec<u8> {
    let mut x = 88172645463325252u64;
    (0..n)
        .map(|i| match kind {
            0 => b'a',
            1 => b"E 0 -1 -1.0000000000000000e+00 1.5e-3\nP 10001 21 "[i % 49],
            _ => {
                // incompressible, always the same
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                (x >> 24) as u8
            }
        })
        .collect()
}

fn writes(n: usize, chunk: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut i = 0;
    while i < n {
        let e = (i + chunk).min(n);
        v.push((i, e));
        i = e;
    }
    v
}

#[derive(Clone, Copy, Debug)]
struct Wr {
    algo: Algo,
    kind: usize,
    n: usize,
    chunk: usize,
    flush: bool,
    end: End,
    max: usize,
    interrupt: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Finish,
    Drop,
    FlushFinish,
}

fn run_write(ctx: &Ctx, w: &Wr) {
    let name = format!("write/{w:?}").replace(' ', "");
    if !ctx.want(&name) {
        return;
    }
    ctx.eval();
    let data = payload(w.kind, w.n);
    let sink = Sink { data: Default::default(), max: w.max, interrupt: w.interrupt };
    let shared = sink.data.clone();
    let res = guarded(|| -> std::io::Result<()> {
        let mut c = compress_writer(sink, w.algo.real())?;
        for (a, b) in writes(data.len(), w.chunk) {
            c.write_all(&data[a..b])?;
            if w.flush {
                c.flush()?
            }
        }
        match w.end {
            End::Finish => c.finish()?,
            End::FlushFinish => {
                c.flush()?;
                c.finish()?
            }
            End::Drop => (),
        }
        Ok(())
    });
    let out = shared.lock().unwrap().0.clone();
    let fail = |e: String| ctx.fail(&name, e, json!({"written": out.len()}));
    match res {
        Err(e) => return fail(e),
        // not every encoder tries again
        Ok(Err(e)) if w.interrupt && e.kind() == std::io::ErrorKind::Interrupted => {
            ctx.count("interrupted_writes_reported", 1);
            return;
        }
        Ok(Err(e)) => return fail(format!("error without reason: {e}")),
        Ok(Ok(())) => (),
    }
    if w.interrupt && w.end == End::Drop {
        return;
    }
    match w.algo.decompress(&out) {
        Err(e) => fail(format!("{} bytes written cannot be decompressed: {e}", out.len())),
        Ok(d) if d != data => fail(format!("decompresses to {} bytes instead of {}", d.len(), data.len())),
        Ok(_) => ctx.nontrivial(hash_of(&(w.algo, w.kind, w.n, w.chunk, w.flush, w.max))),
    }
}

/// How the file was compressed
#[derive(Clone, Copy, Debug, PartialEq)]
enum Part {
    Whole,
    /// flushed after each `n` bytes
    Every(usize),
    /// flushed once, after `n` bytes
    At(usize),
    /// two complete streams, the second one beginning after `n` bytes
    Multi(usize),
}

fn compress_parts(algo: Algo, data: &[u8], part: Part) -> Vec<u8> {
    let cuts: Vec<(usize, usize)> = match part {
        Part::Whole => return algo.compress(data),
        Part::Every(n) => writes(data.len(), n),
        Part::At(n) => vec![(0, n), (n, data.len())],
        Part::Multi(n) => {
            let mut v = algo.compress(&data[..n]);
            v.extend(algo.compress(&data[n..]));
            return v;
        }
    };
    fn go<W: Write>(mut w: W, data: &[u8], cuts: &[(usize, usize)]) -> W {
        for (a, b) in cuts {
            w.write_all(&data[*a..*b]).unwrap();
            w.flush().unwrap();
        }
        w
    }
    match algo {
        Algo::None => data.to_vec(),
        Algo::Bzip2 => go(bzip2::write::BzEncoder::new(vec![], bzip2::Compression::best()), data, &cuts).finish().unwrap(),
        Algo::Gzip(l) => go(flate2::write::GzEncoder::new(vec![], flate2::Compression::new(l.into())), data, &cuts).finish().unwrap(),
        Algo::Lz4(l) => go(lz4::EncoderBuilder::new().level(l.into()).build(vec![]).unwrap(), data, &cuts).finish().0,
        Algo::Zstd(l) => go(zstd::Encoder::new(vec![], l.into()).unwrap(), data, &cuts).finish().unwrap(),
    }
}

fn format_of(f: Fmt) -> FileFormat {
    match f {
        Fmt::Hep => FileFormat::HepMC2,
        Fmt::Lhef => FileFormat::Lhef,
        Fmt::Xml => FileFormat::StripperXml,
    }
}

fn read_all(p: &Path) -> Result<Vec<String>, String> {
    let r = FileReader::try_new(p.to_path_buf()).map_err(|e| chain(&e))?;
    let mut v = vec![format!("{:?}", String::from_utf8_lossy(r.header()))];
    for rec in r {
        v.push(format!("{:?}", rec.map_err(|e| chain(&e))?));
        if v.len() > 1000 {
            return Err("endless".into());
        }
    }
    Ok(v)
}

/// `text` with `pad` bytes of blanks in a new second line of the header
fn padded(text: &str, pad: usize) -> String {
    if pad == 0 {
        return text.to_string();
    }
    let nl = text.find('\n').unwrap() + 1;
    format!("{}{}\n{}", &text[..nl], " ".repeat(pad - 1), &text[nl..])
}

struct Rd<'a> {
    fmt: Fmt,
    style: &'a str,
    text: &'a str,
    nev: usize,
    pad: usize,
    algo: Algo,
    part: Part,
    /// misleading name of the file
    fname: &'a str,
}

fn run_read(ctx: &Ctx, r: &Rd) {
    let name = format!("read/{:?}:{}:pad{}:{:?}:{:?}:{}", r.fmt, r.style, r.pad, r.algo, r.part, r.fname);
    if !ctx.want(&name) {
        return;
    }
    ctx.eval();
    let dir = thread_dir();
    let text = padded(r.text, r.pad);
    let plain = dir.join("plain");
    let file = dir.join(r.fname);
    std::fs::write(&plain, &text).unwrap();
    let packed = compress_parts(r.algo, text.as_bytes(), r.part);
    std::fs::write(&file, &packed).unwrap();
    let res = guarded(|| -> Result<(), String> {
        for (p, what) in [(&plain, "plain"), (&file, "compressed")] {
            let f = detect_event_file_format(p).map_err(|e| chain(&e))?;
            if f != format_of(r.fmt) {
                return Err(format!("{what} file recognised as {f:?}"));
            }
        }
        let a = read_all(&plain)?;
        if a.len() != r.nev + 1 {
            return Err(format!("{} events in the plain file instead of {}", a.len() - 1, r.nev));
        }
        let b = read_all(&file)?;
        if a != b {
            let i = a.iter().zip(&b).position(|(a, b)| a != b).unwrap_or(a.len().min(b.len()));
            return Err(format!(
                "{} events instead of {}, first difference in item {i}: {:.80?} instead of {:.80?}",
                b.len() as i64 - 1,
                a.len() - 1,
                b.get(i),
                a.get(i)
            ));
        }
        Ok(())
    });
    std::fs::remove_file(&file).unwrap();
    match res {
        Ok(Ok(())) => ctx.nontrivial(hash_of(&(packed, r.fname))),
        Ok(Err(e)) | Err(e) => ctx.fail(&name, e, json!({"file_hex_start": format!("{:02x?}", &packed[..packed.len().min(64)])})),
    }
}

fn run_rewrite(ctx: &Ctx, fmt: Fmt, nev: usize, algo: Algo, input: Algo, part: Part) {
    let name = format!("rewrite/{fmt:?}:{nev}:{algo:?}:{input:?}:{part:?}");
    if !ctx.want(&name) {
        return;
    }
    ctx.eval();
    let dir = thread_dir();
    let pool = sample_events(1);
    let evs: Vec<Ev> = (0..nev).map(|i| pool[i % pool.len()].clone()).collect();
    let st = vec![0; dims(fmt).len()];
    let f = make(fmt, &evs, &st);
    let text = f.text();
    std::fs::write(dir.join("in"), compress_parts(input, text.as_bytes(), part)).unwrap();
    std::fs::write(dir.join("in-plain"), &text).unwrap();
    let groups = text.matches("<e").count();
    let norm = write_norm(&dir, &groups.max(1).to_string());
    let norm_packed = dir.join("norm-packed");
    std::fs::write(&norm_packed, compress_parts(input, &std::fs::read(&norm).unwrap(), part)).unwrap();
    let w: Vec<_> = (0..nev).map(|i| mkweights(&[i as f64 * 0.37 - 2.])).collect();
    let go = |inp: &str, out: &str, a: Algo| -> Result<(), String> {
        let mut files = vec![(dir.join(inp), dir.join(out))];
        if fmt == Fmt::Xml {
            let norm = if a == Algo::None && inp == "in-plain" { &norm } else { &norm_packed };
            files.push((norm.clone(), dir.join("unused")))
        }
        let mut b = IOBuilder::default();
        b.compression(a.real());
        let mut io = b.build_from_files_iter(files).map_err(|e| chain(&e))?;
        let n = io.update_all_weights(&w).map_err(|e| chain(&e))?;
        if n != nev {
            return Err(format!("{n} events instead of {nev}"));
        }
        Ok(())
    };
    let res = guarded(|| {
        go("in-plain", "out-plain", Algo::None)?;
        go("in", "out", algo)?;
        let want = std::fs::read(dir.join("out-plain")).unwrap();
        let got = algo.decompress(&std::fs::read(dir.join("out")).unwrap())?;
        if want != got {
            return Err(format!("{} bytes instead of the {} without compression", got.len(), want.len()));
        }
        Ok(())
    });
    match res {
        Ok(Ok(())) => ctx.nontrivial(hash_of(&name)),
        Ok(Err(e)) | Err(e) => ctx.fail(&name, e, json!({})),
    }
}

/// A text and where to cut it so that the first part compressed ends `back` bytes before the
/// boundary of a buffer
fn edge(fmt: Fmt, algo: Algo, back: usize) -> Option<(String, usize)> {
    let mut st = vec![0; dims(fmt).len()];
    let at = match fmt {
        Fmt::Hep => {
            st[0] = 1;
            "Example"
        }
        Fmt::Lhef => "A comment",
        Fmt::Xml => {
            st[1] = 2;
            "Record"
        }
    };
    let f = make(fmt, &sample_events(1)[..3], &st);
    let text = f.text();
    let pos = text.find(at)?;
    let cut = f.range(1).1;
    let mut x = 88172645463325252u64;
    let noise: String = (0..40_000)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            b"abcdfghijklmnopqrstuvwxyz0123456789 "[(x >> 33) as usize % 36] as char
        })
        .collect();
    // part
    (0..100).find_map(|k| {
        let make = |m: usize| format!("{}{}{}", &text[..pos], &noise[k * 199..k * 199 + m], &text[pos..]);
        let size = |m: usize| algo.compress(&make(m).as_bytes()[..cut + m]).len();
        // bisect, then look around
        let (mut lo, mut hi) = (0, 19_000);
        while hi - lo > 1 {
            let mid = (lo + hi) / 2;
            if size(mid) + back < 8192 {
                lo = mid
            } else {
                hi = mid
            }
        }
        (lo.saturating_sub(8)..lo + 8).find(|m| size(*m) + back == 8192).map(|m| (make(m), cut + m))
    })
}

pub fn run(ctx: &Ctx) {
    // writing
    let small = [0usize, 1, 2, 3, 17, 64, 255, 256, 257, 1000];
    let big: &[usize] = ctx.by(
        &[4095, 8191, 8192, 8193, 65535, 65536, 65537, 200_001],
        &[4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 131071, 131072, 131073, 262145, 899_999, 900_001, 1_048_577, 4_194_305],
    );
    let mut jobs = vec![];
    let base = Wr { algo: Algo::None, kind: 0, n: 0, chunk: usize::MAX >> 1, flush: false, end: End::Finish, max: usize::MAX, interrupt: false };
    for algo in algos() {
        for kind in 0..3 {
            for n in small {
                for chunk in [1, 7, 1 << 30] {
                    for flush in [false, true] {
                        for end in [End::Finish, End::Drop, End::FlushFinish] {
                            for max in [1, 5, usize::MAX] {
                                for interrupt in [false, true] {
                                    let plain = !flush && max > 5 && !interrupt && chunk != 1;
                                    if !plain && !KINDS.contains(&algo) {
                                        continue;
                                    }
                                    jobs.push(Wr { algo, kind, n, chunk, flush, end, max, interrupt });
                                }
                            }
                        }
                    }
                }
            }
            for n in big.iter().copied() {
                for chunk in [1000, 8192, 65536, 1 << 30] {
                    for end in [End::Finish, End::Drop] {
                        if !KINDS.contains(&algo) && (n > 300_000 || chunk == 1000) || n > 300_000 && chunk == 1000 {
                            continue;
                        }
                        jobs.push(Wr { algo, kind, n, chunk, end, ..base });
                        if n < 100_000 && chunk == 8192 {
                            jobs.push(Wr { algo, kind, n, chunk, end, max: 4093, ..base });
                        }
                    }
                }
            }
        }
    }
    jobs.sort_by_key(|j| std::cmp::Reverse(j.n));
    ctx.note("compression_settings", algos().len() as u64);
    ctx.note("write_cases", jobs.len() as u64);
    par_for(&jobs, |w| {
        if !ctx.stop() {
            run_write(ctx, w)
        }
    });
    // reading
    let names = ["events", "events.hepmc", "events.lhe", "events.xml", "events.gz", "events.bz2", "events.zst", "events.lz4", "events.root"];
    let mut files = vec![];
    for fmt in FMTS {
        for st in styles(fmt, 1) {
            let f = make(fmt, &sample_events(1)[..3], &st);
            let s: String = st.iter().map(|c| c.to_string()).collect();
            let std = st.iter().all(|x| *x == 0);
            if std && fmt != Fmt::Hep {
                for (i, lead) in ["\n", "  ", "\r\n\t", &" ".repeat(4000)].into_iter().enumerate() {
                    files.push((fmt, format!("lead{i}"), format!("{lead}{}", f.text()), 3, false));
                }
            }
            files.push((fmt, s, f.text(), 3, std));
        }
        for n in [0, 1] {
            let st = vec![0; dims(fmt).len()];
            let f = make(fmt, &sample_events(1)[..n], &st);
            files.push((fmt, format!("n{n}"), f.text(), n, false));
        }
    }
    let mut reads = vec![];
    // the second stream starts next to the boundary of a buffer
    let mut edges = vec![];
    for fmt in FMTS {
        for algo in &KINDS[1..] {
            for back in 0..ctx.by(12, 70) {
                edges.push((fmt, *algo, back))
            }
        }
    }
    let noisy: Vec<_> = {
        let out = std::sync::Mutex::new(vec![]);
        par_for(&edges, |e| {
            let v = edge(e.0, e.1, e.2);
            out.lock().unwrap().push((*e, v))
        });
        out.into_inner().unwrap()
    };
    for ((fmt, algo, back), found) in &noisy {
        match found {
            Some((text, cut)) => reads.push(Rd { fmt: *fmt, style: "edge", text, nev: 3, pad: 0, algo: *algo, part: Part::Multi(*cut), fname: "events" }),
            None => ctx.count("sizes_not_reached", 1),
        }
    }
    for (fmt, s, text, nev, std) in &files {
        let base = |algo, part, pad, fname| Rd { fmt: *fmt, style: s, text, nev: *nev, pad, algo, part, fname };
        for algo in algos() {
            for fname in names {
                if *std || KINDS.contains(&algo) {
                    reads.push(base(algo, Part::Whole, 0, fname));
                }
            }
        }
        if *std {
            for algo in KINDS {
                // every byte of the text at the boundary of a buffer
                for bound in ctx.by(vec![8192], vec![8192, 16384, 32768, 65536]) {
                    for at in 0..text.len() {
                        reads.push(base(algo, Part::Whole, bound - at, "events"));
                    }
                }
                if algo == Algo::None {
                    continue;
                }
                for n in 1..=ctx.by(40, 400) {
                    reads.push(base(algo, Part::Every(n), 0, "events"));
                }
                for n in 1..text.len() {
                    reads.push(base(algo, Part::At(n), 0, "events"));
                }
            }
        }
        if *std || nev < &2 {
            for algo in &KINDS[1..] {
                let half = text.len() / 2;
                let cuts = [half, 1, text.len() - 1];
                for n in cuts {
                    reads.push(base(*algo, Part::Multi(n), 0, "events"));
                }
            }
        }
    }
    ctx.note("read_cases", reads.len() as u64);
    par_for(&reads, |r| {
        if !ctx.stop() {
            run_read(ctx, r)
        }
    });
    // rewriting
    let mut rw = vec![];
    for fmt in FMTS {
        for algo in algos() {
            for input in KINDS {
                for nev in [0, 1, 4, ctx.by(40, 3000)] {
                    if nev < 1000 || KINDS.contains(&algo) {
                        rw.push((fmt, nev, algo, input, Part::Whole));
                    }
                    if KINDS.contains(&algo) && input != Algo::None && nev < 1000 {
                        for n in [1, 4, 5, 16, 17, 18, 100] {
                            rw.push((fmt, nev, algo, input, Part::Every(n)));
                        }
                    }
                }
            }
        }
    }
    ctx.note("rewrite_cases", rw.len() as u64);
    par_for(&rw, |(f, n, a, i, p)| {
        if !ctx.stop() {
            run_rewrite(ctx, *f, *n, *a, *i, *p)
        }
    });
    ctx.assume("the decoders used as oracle are those of the bzip2, flate2, lz4 and zstd crates");
    ctx.sample(format!("{:?}", jobs[0]));
    ctx.sample(format!("{:?}", jobs[jobs.len() / 2]));
}
