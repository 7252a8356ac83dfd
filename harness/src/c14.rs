//! C14: damaged input
use crate::ctx::*;
use crate::fmt::*;
use crate::tools::{self, args, Opt};
use cres::event::{Event, Weights};
use cres::io::{EventFileReader, FileReader, IOBuilder};
use cres::traits::*;
use serde_json::json;
use std::path::{Path, PathBuf};

/// The bytes `from..to` are replaced
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Damage {
    from: usize,
    to: usize,
    with: Vec<u8>,
}
impl Damage {
    fn apply(&self, t: &[u8]) -> Vec<u8> {
        [&t[..self.from], &self.with, &t[self.to..]].concat()
    }
    fn name(&self) -> String {
        let w: String = self.with.iter().take(40).flat_map(|b| std::ascii::escape_default(*b)).map(char::from).collect();
        format!("{}-{}:{}", self.from, self.to, w.replace(' ', "\\x20"))
    }
}

#[derive(Clone, Debug)]
struct Base {
    file: File,
    style: Vec<usize>,
    text: Vec<u8>,
}
impl Base {
    fn new(fmt: Fmt, style: &[usize], evs: &[Ev]) -> Self {
        let file = make(fmt, evs, style);
        let text = file.text().into_bytes();
        Self { file, style: style.to_vec(), text }
    }
    fn name(&self) -> String {
        format!("{:?}{}", self.file.fmt, self.style.iter().map(|c| c.to_string()).collect::<String>())
    }
    /// how many events at the beginning and at the end must be left alone by damage there
    fn spared(&self, d: &Damage) -> (usize, usize) {
        let n = self.file.evs.len();
        // without the event just before the damage, which may swallow what is damaged
        let pre = (0..n).filter(|i| self.file.range(*i).1 < d.from).count().saturating_sub(1);
        let post = (0..n).filter(|i| self.file.range(*i).0 > d.to).count();
        (pre, post)
    }
    fn in_header(&self, d: &Damage) -> bool {
        d.from < self.file.range(0).0
    }
}

const NASTY: [&str; 30] = [
    "", "0", "-1", "1", "2", "4294967295", "4294967296", "-2147483649", "18446744073709551615", "99999999999999999999999",
    "1e999", "-1e999", "1e200", "-1e154", "1e-160", "1e-310", "1e-999", "nan", "inf", "-inf", "1.5.5", "\"", "\u{e9}", "E", "N", "U", "P", "<event>", "</event>", "0x10",
];
const BYTES: &[u8] = b"09-.eE\"<>/ \n\0\xffxPNVUsp=,\t\rH#";

/// All damages of a kind
fn truncations(t: &[u8]) -> Vec<Damage> {
    (0..t.len()).map(|i| Damage { from: i, to: t.len(), with: vec![] }).collect()
}
fn removals(t: &[u8]) -> Vec<Damage> {
    (0..t.len()).map(|i| Damage { from: i, to: i + 1, with: vec![] }).collect()
}
fn replacements(t: &[u8], by: &[u8]) -> Vec<Damage> {
    (0..t.len())
        .flat_map(|i| by.iter().filter(move |b| **b != t[i]).map(move |b| Damage { from: i, to: i + 1, with: vec![*b] }))
        .collect()
}
fn flips(t: &[u8]) -> Vec<Damage> {
    (0..t.len()).flat_map(|i| (0..8).map(move |b| Damage { from: i, to: i + 1, with: vec![t[i] ^ (1 << b)] })).collect()
}
fn insertions(t: &[u8], by: &[u8]) -> Vec<Damage> {
    (0..=t.len()).flat_map(|i| by.iter().map(move |b| Damage { from: i, to: i, with: vec![*b] })).collect()
}
/// words and what to do with them
fn words(t: &[u8], by: &[&str]) -> Vec<Damage> {
    let mut v = vec![];
    let sep = |b: u8| b.is_ascii_whitespace() || b"\"<>=,".contains(&b);
    let mut i = 0;
    while i < t.len() {
        if sep(t[i]) {
            i += 1;
            continue;
        }
        let mut j = i;
        while j < t.len() && !sep(t[j]) {
            j += 1
        }
        for w in by {
            if t[i..j] != *w.as_bytes() {
                v.push(Damage { from: i, to: j, with: w.as_bytes().to_vec() })
            }
        }
        // twice, and a very long one
        v.push(Damage { from: i, to: i, with: [&t[i..j], b" "].concat() });
        v.push(Damage { from: i, to: j, with: t[i..j].repeat(400) });
        // up to the next word
        let mut k = j;
        while k < t.len() && t[k].is_ascii_whitespace() {
            k += 1
        }
        v.push(Damage { from: i, to: k, with: vec![] });
        i = j;
    }
    v
}
fn line_starts(t: &[u8]) -> Vec<usize> {
    let mut v = vec![0];
    v.extend(t.iter().enumerate().filter(|x| *x.1 == b'\n').map(|x| x.0 + 1));
    if *v.last().unwrap() < t.len() {
        v.push(t.len())
    }
    v
}
/// remove, repeat, exchange lines; remove `block` consecutive ones
fn lines(t: &[u8], block: usize) -> Vec<Damage> {
    let s = line_starts(t);
    let mut v = vec![];
    for i in 0..s.len() - 1 {
        for b in 1..=block {
            if i + b < s.len() {
                v.push(Damage { from: s[i], to: s[i + b], with: vec![] });
                v.push(Damage { from: s[i + b], to: s[i + b], with: t[s[i]..s[i + b]].to_vec() });
            }
        }
        if i + 2 < s.len() {
            v.push(Damage { from: s[i], to: s[i + 2], with: [&t[s[i + 1]..s[i + 2]], &t[s[i]..s[i + 1]]].concat() })
        }
        if i + 3 < s.len() {
            v.push(Damage { from: s[i], to: s[i + 3], with: [&t[s[i + 2]..s[i + 3]], &t[s[i]..s[i + 2]]].concat() })
        }
    }
    v
}

/// Where the intact part of the sample is
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum With {
    Alone,
    Before,
    After,
}

fn same(ev: &Event, want: &Ev, nw: usize, mev: bool, scaled: bool) -> bool {
    let w = weights(ev);
    let scale = if mev { 1e-3 } else { 1. };
    w.len() == nw && (scaled || w[0] == want.w[0].parse::<f64>().unwrap()) && same_outgoing(&outgoing(ev), &expected_outgoing(want, scale))
}

/// the length of `out` that corresponds to the pieces
fn match_pieces(f: &File, from: usize, to: usize, out: &[u8], want: &dyn Fn(usize, usize) -> Option<f64>) -> Result<usize, String> {
    let mut at = 0;
    let skip = |mut at: usize| {
        while at < out.len() && (out[at] == b' ' || out[at] == b'\t') {
            at += 1
        }
        at
    };
    for p in &f.pieces[from..to] {
        match p {
            Piece::L(s) => {
                if !out[at..].starts_with(s.as_bytes()) {
                    let n = (at + 80).min(out.len());
                    return Err(format!("byte {at}: {:?} instead of {s:?}", String::from_utf8_lossy(&out[at..n])));
                }
                at += s.len();
            }
            Piece::Blank(_) => at = skip(at),
            Piece::W(i, j, old) => {
                at = skip(at);
                let n = out[at..].iter().position(|c| c.is_ascii_whitespace() || *c == b'"').unwrap_or(out.len() - at);
                let got = String::from_utf8_lossy(&out[at..at + n]).into_owned();
                let ok = match want(*i, *j) {
                    Some(x) if x.is_nan() => got.parse::<f64>().is_ok(),
                    Some(x) => got.parse::<f64>() == Ok(x),
                    None => got == *old,
                };
                if !ok {
                    return Err(format!("weight {j} of event {i}: {got:?}, should be {:?}", want(*i, *j)));
                }
                at += n;
            }
        }
    }
    Ok(at)
}

/// Are the first `pre` events at the beginning of `out`, and the last `post` ones at its end?
fn match_output(f: &File, out: &[u8], pre: usize, post: usize, header: bool, n: usize, want: &dyn Fn(usize, usize) -> Option<f64>) -> Result<(), String> {
    let nev = f.evs.len();
    if pre > 0 {
        if header {
            // only the events: the header is damaged
            let e = find_pieces(f, f.starts[0], f.starts[pre], out, false, want);
            e.map_err(|e| format!("first {pre} events: {e}"))?;
        } else {
            match_pieces(f, 0, f.starts[pre], out, want).map_err(|e| format!("first {pre} events: {e}"))?;
        }
    }
    if post > 0 {
        let shifted = |i: usize, j: usize| want(n + i - nev, j);
        find_pieces(f, f.starts[nev - post], f.pieces.len(), out, true, &shifted).map_err(|e| format!("last {post} events: {e}"))?;
    }
    Ok(())
}

fn find_pieces(f: &File, from: usize, to: usize, out: &[u8], at_end: bool, want: &dyn Fn(usize, usize) -> Option<f64>) -> Result<(), String> {
    let mut first = "";
    for p in &f.pieces[from..] {
        match p {
            Piece::L(s) if s.is_empty() => {}
            Piece::L(s) => {
                first = s;
                break;
            }
            _ => break,
        }
    }
    let mut why = format!("{first:?} not found");
    for p in 0..out.len() {
        if out[p..].starts_with(first.as_bytes()) {
            match match_pieces(f, from, to, &out[p..], want) {
                Ok(n) if !at_end || p + n == out.len() => return Ok(()),
                Ok(n) => why = format!("{} bytes more", out.len() - p - n),
                Err(e) => why = e,
            }
        }
    }
    Err(why)
}

/// Read everything there is; the error, if any
fn read(it: &mut dyn Iterator<Item = Result<cres::io::EventRecord, String>>) -> (Vec<cres::io::EventRecord>, Option<String>) {
    let mut v = vec![];
    let mut err = None;
    for r in it {
        match r {
            Ok(r) => v.push(r),
            Err(e) => {
                err = Some(e);
                break;
            }
        }
        if v.len() > 100_000 {
            err = Some("ENDLESS".into());
            break;
        }
    }
    // nobody reads on after an error, but it should not do harm
    (v, err)
}

#[derive(Default)]
struct Seen {
    refused: bool,
}

/// All that can be done to a damaged file with the library; the error says what is wrong
fn judge(b: &Base, d: &Damage, with: With, names: &[String], dir: &Path) -> Result<Seen, String> {
    let data = d.apply(&b.text);
    let inp = dir.join("in");
    let outp = dir.join("out");
    std::fs::write(&inp, &data).unwrap();
    let f = &b.file;
    let nev = f.evs.len();
    let nw = 1 + names.len();
    let (pre, post) = b.spared(d);
    let exempt = nev - pre - post;
    let check = |evs: &[Event], scaled: bool| -> Result<(), String> {
        if evs.len() < nev - exempt {
            return Err(format!("{} events instead of at least {}", evs.len(), nev - exempt));
        }
        for i in 0..pre {
            if !same(&evs[i], &f.evs[i], nw, f.mev, scaled) {
                return Err(format!("event {i} changed: {:?}", evs[i]));
            }
        }
        for i in nev - post..nev {
            let e = &evs[evs.len() + i - nev];
            if !same(e, &f.evs[i], nw, f.mev, scaled) {
                return Err(format!("event {i} changed: {e:?}"));
            }
        }
        Ok(())
    };
    let mut seen = Seen::default();
    // reading
    let mut read_err = None;
    let mut from_reader = None;
    match FileReader::try_new(inp.clone()) {
        Err(e) => {
            chain(&e);
            read_err = Some("create")
        }
        Ok(mut r) => {
            let _ = r.header();
            let (recs, err) = read(&mut (&mut r).map(|x| x.map_err(|e| chain(&e))));
            for _ in 0..20 {
                // whatever comes
                let _ = r.next();
            }
            match r.rewind() {
                Ok(()) => {
                    let (again, err2) = read(&mut (&mut r).map(|x| x.map_err(|e| chain(&e))));
                    if again != recs || err2 != err {
                        return Err(format!("{} records and {err:?}, after rewinding {} and {err2:?}", recs.len(), again.len()));
                    }
                }
                Err(e) => return Err(format!("rewinding: {}", chain(&e))),
            }
            let evs: Result<Vec<Event>, String> = recs.iter().map(|r| convert(names, r.clone())).collect();
            match (err.is_some(), evs) {
                (true, _) => read_err = Some("read"),
                (_, Err(_)) => read_err = Some("convert"),
                (_, Ok(evs)) => {
                    check(&evs, false).map_err(|e| format!("reading: {e}"))?;
                }
            }
            from_reader = Some(recs.len());
        }
    }
    seen.refused = read_err.is_some();
    // reading and writing
    let mut io_files: Vec<(PathBuf, PathBuf)> = vec![(inp, outp.clone())];
    // the same events without damage
    let other = (dir.join("in2"), dir.join("out2"));
    let mut nother = 0;
    if with != With::Alone {
        std::fs::write(&other.0, &b.text).unwrap();
        nother = nev;
        io_files.insert((with == With::After) as usize, other.clone());
    }
    if f.fmt == Fmt::Xml {
        // scale one
        let n = f.text().matches("<e").count() * io_files.len();
        io_files.push((write_norm(dir, &n.max(1).to_string()), dir.join("unused")))
    }
    let mut bld = IOBuilder::default();
    bld.weight_names(names.to_vec());
    let mut io = match bld.build_from_files_iter(io_files) {
        Ok(io) => io,
        Err(e) => {
            chain(&e);
            return if read_err.is_none() && f.fmt != Fmt::Xml {
                Err(format!("read without complaint, but refused for rewriting: {}", chain(&e)))
            } else {
                Ok(seen)
            };
        }
    };
    let (hint, _) = io.size_hint();
    let _ = hint;
    let (recs, err) = read(&mut (&mut io).map(|x| x.map_err(|e| chain(&e))));
    for _ in 0..20 {
        let _ = io.next();
    }
    io.rewind().map_err(|e| format!("rewinding: {}", chain(&e)))?;
    let (again, err2) = read(&mut (&mut io).map(|x| x.map_err(|e| chain(&e))));
    if again != recs || err2 != err {
        return Err(format!("{} records and {err:?}, after rewinding {} and {err2:?}", recs.len(), again.len()));
    }
    let evs: Result<Vec<Event>, String> = recs.iter().map(|r| convert(names, r.clone())).collect();
    let n = recs.len();
    if let (None, Ok(evs)) = (&err, &evs) {
        if read_err.is_some() {
            return Err(format!("an error for reading ({read_err:?}), but read for rewriting"));
        }
        if Some(n - nother) != from_reader {
            return Err(format!("{} records when rewriting instead of {from_reader:?}", n - nother));
        }
        let (own, others) = match with {
            With::Alone => (&evs[..], &evs[..0]),
            With::Before => (&evs[nother..], &evs[..nother]),
            With::After => (&evs[..n - nother], &evs[n - nother..]),
        };
        let scaled = f.fmt == Fmt::Xml && b.in_header(d);
        check(own, scaled).map_err(|e| format!("reading for rewriting: {e}"))?;
        for (i, e) in others.iter().enumerate() {
            if !same(e, &f.evs[i], nw, f.mev, scaled) {
                return Err(format!("event {i} of the intact file changed: {e:?}"));
            }
        }
    }
    // nothing to change
    let empty = vec![Weights::default(); n];
    if err.is_none() {
        match io.update_all_weights(&empty) {
            Ok(k) if k == n => {
                let out = std::fs::read(&outp).unwrap();
                // the first letters of an event alone are no record
                let whole = match f.fmt {
                    Fmt::Hep => data.strip_suffix(b"E").filter(|d| d.ends_with(b"\n")),
                    Fmt::Xml => data.strip_suffix(b"<se"),
                    _ => None,
                };
                if out != data && Some(&out[..]) != whole {
                    let at = out.iter().zip(&data).take_while(|x| x.0 == x.1).count();
                    return Err(format!("rewritten with unchanged weights, but differs at byte {at}"));
                }
                if nother > 0 && std::fs::read(&other.1).unwrap() != b.text {
                    return Err("rewritten with unchanged weights, but the intact file differs".into());
                }
            }
            Ok(k) => return Err(format!("{k} of {n} records rewritten")),
            Err(e) => return Err(format!("unchanged weights cannot be written: {}", chain(&e))),
        }
    }
    // new weights
    let new = |i: usize| -> Vec<f64> { (0..nw).map(|j| 1000. + i as f64 + 0.25 * j as f64).collect() };
    let ws: Vec<Weights> = (0..n + nev + 1).map(|i| mkweights(&new(i))).collect();
    match io.update_all_weights(&ws) {
        Err(e) => {
            chain(&e);
        }
        Ok(_) if err.is_some() => return Err(format!("an error for reading ({err:?}), but rewritten")),
        Ok(k) => {
            if k != n {
                return Err(format!("{k} of {n} records updated"));
            }
            let skip = if with == With::Before { nother } else { 0 };
            let scaled = f.fmt == Fmt::Xml && b.in_header(d);
            // the position of the weight among the ones asked for
            let pos = |j: usize| -> Option<usize> {
                positions(&f.names, names).iter().position(|x| *x == j)
            };
            let want = |i: usize, j: usize| -> Option<f64> {
                let w = new(i + skip);
                let w = match (pos(j), j) {
                    _ if scaled => Some(f64::NAN),
                    (Some(p), _) => Some(w[1 + p]),
                    (None, 0) => Some(w[0]),
                    _ => None,
                };
                w
            };
            let out = std::fs::read(&outp).unwrap();
            if evs.is_ok() {
                match_output(f, &out, pre, post, b.in_header(d), n - nother, &want).map_err(|e| format!("rewriting: {e}"))?;
            }
            if nother > 0 {
                let skip = if with == With::After { n - nother } else { 0 };
                let out = std::fs::read(&other.1).unwrap();
                let want = |i: usize, j: usize| want(i + skip, j);
                let len = match_pieces(f, 0, f.pieces.len(), &out, &|i, j| {
                    if with == With::Before {
                        // `want` skips the events of the intact file
                        let w = new(i);
                        match (pos(j), j) {
                            _ if scaled => Some(f64::NAN),
                            (Some(p), _) => Some(w[1 + p]),
                            (None, 0) => Some(w[0]),
                            _ => None,
                        }
                    } else {
                        want(i, j)
                    }
                })
                .map_err(|e| format!("rewriting the intact file: {e}"))?;
                if len != out.len() {
                    return Err("rewriting the intact file: more bytes at the end".into());
                }
            }
        }
    }
    // once more after all that
    io.rewind().map_err(|e| format!("rewinding at the end: {}", chain(&e)))?;
    let (last, err2) = read(&mut (&mut io).map(|x| x.map_err(|e| chain(&e))));
    if last != recs || err2 != err {
        return Err(format!("{} records and {err:?}, after rewriting {} and {err2:?}", recs.len(), last.len()));
    }
    Ok(seen)
}

/// Damage to compressed files
fn judge_compressed(b: &Base, algo: Algo, d: &Damage, packed: &[u8], dir: &Path) -> Result<Seen, String> {
    let data = d.apply(packed);
    let inp = dir.join("in");
    std::fs::write(&inp, &data).unwrap();
    let f = &b.file;
    let cut = d.to == packed.len() && d.with.is_empty();
    let mut seen = Seen { refused: true };
    let look = |recs: &[cres::io::EventRecord]| -> Result<(), String> {
        let evs: Result<Vec<Event>, String> = recs.iter().map(|r| convert(&[], r.clone())).collect();
        let Ok(evs) = evs else { return Ok(()) };
        // without checksum any byte may have changed
        let checked = matches!(algo, Algo::Gzip(_) | Algo::Bzip2) && !cut;
        let n = evs.len();
        if checked && n != f.evs.len() {
            return Err(format!("{n} events"));
        }
        // (an empty file is one without events)
        if cut && d.from > 0 && n < f.evs.len() {
            return Err(format!("{n} events of a truncated stream"));
        }
        if cut || checked {
            for i in 0..n.saturating_sub(cut as usize) {
                if !same(&evs[i], &f.evs[i], 1, f.mev, false) {
                    return Err(format!("event {i} changed: {:?}", evs[i]));
                }
            }
        }
        Ok(())
    };
    if let Ok(mut r) = FileReader::try_new(inp.clone()) {
        let (recs, err) = read(&mut (&mut r).map(|x| x.map_err(|e| chain(&e))));
        for _ in 0..20 {
            let _ = r.next();
        }
        if let Ok(()) = r.rewind() {
            let (again, err2) = read(&mut (&mut r).map(|x| x.map_err(|e| chain(&e))));
            if again != recs || err2.is_some() != err.is_some() {
                return Err(format!("{} records and {err:?}, after rewinding {} and {err2:?}", recs.len(), again.len()));
            }
        }
        if err.is_none() {
            seen.refused = false;
            look(&recs)?;
        }
    }
    let mut io_files = vec![(inp, dir.join("out"))];
    if f.fmt == Fmt::Xml {
        io_files.push((write_norm(dir, &f.text().matches("<e").count().to_string()), dir.join("unused")))
    }
    if let Ok(mut io) = IOBuilder::default().build_from_files_iter(io_files) {
        let (recs, err) = read(&mut (&mut io).map(|x| x.map_err(|e| chain(&e))));
        if err.is_none() && seen.refused {
            return Err("an error for reading, but read for rewriting".into());
        }
        let _ = io.update_all_weights(&vec![mkweights(&[1.]); recs.len()]);
    }
    Ok(seen)
}

/// A complete run of a tool
fn judge_tool(b: &Base, d: &Damage, tool: &str, input: Algo, dir: &Path) -> Result<bool, String> {
    let data = d.apply(&b.text);
    std::fs::write(dir.join("in.dat"), input.compress(&data)).unwrap();
    std::fs::write(dir.join("in2.dat"), &b.text).unwrap();
    let mut a = match tool {
        "cres" => args(&["-a", "anti-kt", "-R", "0.4", "-p", "3", "--threads", "1", "--outdir", "out", "in.dat"]),
        "cres-partition" => args(&["-a", "anti-kt", "-R", "0.4", "-p", "3", "--regions", "2", "--outfile", "out/p.yaml", "in.dat", "in2.dat"]),
        _ => args(&["--partition", "part.yaml", "--outdir", "out", "in.dat"]),
    };
    if b.file.fmt == Fmt::Xml && tool == "cres" {
        write_norm(dir, "1");
        a.push("norm.xml".into())
    }
    let outdir = dir.join("out");
    if outdir.exists() {
        std::fs::remove_dir_all(&outdir).unwrap();
    }
    std::fs::create_dir(&outdir).unwrap();
    let r = tools::run(tool, &a, dir, Opt { timeout: Some(30), ..Default::default() });
    if r.panicked() || r.timeout || r.signal.is_some() {
        return Err(r.describe());
    }
    if !r.ok() {
        return Ok(true);
    }
    let f = &b.file;
    let (pre, post) = b.spared(d);
    match tool {
        "cres" => {
            let out = std::fs::read(outdir.join("in.dat")).map_err(|e| format!("no output: {e}"))?;
            match_output(f, &out, pre, post, b.in_header(d), f.evs.len(), &|_, j| (j == 0).then_some(f64::NAN))?;
        }
        "cres-partition" => {
            if !outdir.join("p.yaml").exists() {
                return Err("no output".into());
            }
        }
        _ => {
            // every spared event has to be in one of the outputs
            let t = tools::tree(&outdir);
            for i in (0..pre).chain(f.evs.len() - post..f.evs.len()) {
                let ok = t.values().any(|out| {
                    let to = f.starts[i + 1];
                    find_pieces(f, f.starts[i], to, out, false, &|_, _| None).is_ok() || f.fmt == Fmt::Xml && find_record(f, i, out)
                });
                if !ok {
                    return Err(format!("event {i} is in no output"));
                }
            }
        }
    }
    Ok(false)
}

/// the sub-event without the tags of its group
fn find_record(f: &File, i: usize, out: &[u8]) -> bool {
    let t = f.text_of(f.starts[i], f.starts[i + 1]);
    let end = t.find("</se>").map_or(t.len(), |e| e + 5);
    let t = t[..end].as_bytes();
    out.windows(t.len()).any(|w| w == t)
}

struct Job {
    base: usize,
    kind: &'static str,
    damage: Damage,
    /// the way the file is used
    with: With,
    names: bool,
    tool: Option<&'static str>,
    algo: Algo,
}

pub fn run(ctx: &Ctx) {
    let mut bases = vec![];
    for (fmt, plain, rich) in [
        (Fmt::Hep, vec![0; 9], vec![1, 1, 1, 2, 4, 1, 0, 0, 0]),
        (Fmt::Lhef, vec![0; 8], vec![0, 1, 0, 0, 3, 1, 0, 2]),
        (Fmt::Xml, vec![0; 7], vec![0, 2, 1, 0, 0, 1, 2]),
    ] {
        bases.push(Base::new(fmt, &plain, &sample_events(1)));
        bases.push(Base::new(fmt, &rich, &sample_events(if fmt == Fmt::Hep { 3 } else { 1 })));
    }
    // what the undamaged files give, to be sure of the oracle
    let mut jobs = vec![];
    for (base, b) in bases.iter().enumerate() {
        let t = &b.text;
        let named = b.file.names.len() > 1;
        let mut add = |kind: &'static str, v: Vec<Damage>, multi: bool, every: usize| {
            for (i, damage) in v.into_iter().enumerate() {
                if i % every != 0 {
                    continue;
                }
                for with in [With::Alone, With::Before, With::After] {
                    if with != With::Alone && !multi {
                        continue;
                    }
                    jobs.push(Job { base, kind, damage: damage.clone(), with, names: named && i / every % 2 == 1, tool: None, algo: Algo::None })
                }
            }
        };
        let q = !ctx.thorough;
        add("none", vec![Damage { from: 0, to: 0, with: vec![] }], true, 1);
        add("cut", truncations(t), true, 1);
        add("remove", removals(t), true, 1);
        add("replace", replacements(t, BYTES), !q, 1);
        add("flip", flips(t), !q, 1);
        add("insert", insertions(t, if q { b"\n E<\"0\xff" } else { BYTES }), !q, 1);
        add("word", words(t, &NASTY), true, 1);
        add("line", lines(t, if q { 6 } else { 40 }), true, 1);
        // runs of the tools
        let mut add = |kind: &'static str, v: Vec<Damage>, every: usize, algo: Algo| {
            for (i, damage) in v.into_iter().enumerate() {
                for (k, tool) in ["cres", "cres-classify-events", "cres-partition"].into_iter().enumerate() {
                    if i % (every * [1, 3, 9][k]) == 0 {
                        jobs.push(Job { base, kind, damage: damage.clone(), with: With::Alone, names: false, tool: Some(tool), algo })
                    }
                }
            }
        };
        let every = |q: usize, t: usize| ctx.by(q, t) * if base % 2 == 1 { ctx.by(2, 1) } else { 1 };
        add("none", vec![Damage { from: 0, to: 0, with: vec![] }], 1, Algo::None);
        add("cut", truncations(t), every(4, 1), Algo::None);
        add("remove", removals(t), every(4, 1), Algo::None);
        add("replace", replacements(t, BYTES), every(50, 5), Algo::None);
        add("flip", flips(t), every(24, 2), Algo::None);
        add("word", words(t, &NASTY), every(5, 1), Algo::None);
        add("line", lines(t, ctx.by(3, 12)), every(2, 1), Algo::None);
    }
    for (base, b) in bases.iter().enumerate().step_by(2) {
        for algo in [Algo::Bzip2, Algo::Gzip(0), Algo::Gzip(6), Algo::Lz4(1), Algo::Zstd(3)] {
            let packed = algo.compress(&b.text);
            let mut add = |kind: &'static str, v: Vec<Damage>| {
                for damage in v {
                    jobs.push(Job { base, kind, damage, with: With::Alone, names: false, tool: None, algo })
                }
            };
            add("cut", truncations(&packed));
            add("remove", removals(&packed));
            add("flip", flips(&packed));
            add("replace", replacements(&packed, b"\0\xff"));
        }
    }
    let count = |t: bool| jobs.iter().filter(|j| j.tool.is_some() == t).count() as u64;
    ctx.note("damaged_files_in_the_library", count(false));
    ctx.note("damaged_files_in_the_tools", count(true));
    let refused = std::sync::atomic::AtomicU64::new(0);
    // the partition for the classification
    par_for(&jobs, |j| {
        let b = &bases[j.base];
        let mut case = format!("{}:{}:{}", b.name(), j.kind, j.damage.name());
        if j.with != With::Alone {
            case += &format!(":{:?}", j.with)
        }
        if j.names {
            case += ":names"
        }
        if j.algo != Algo::None {
            case += &format!(":{:?}", j.algo)
        }
        if let Some(t) = j.tool {
            case += &format!(":{t}")
        }
        if !ctx.want(&case) || ctx.stop() {
            return;
        }
        ctx.eval();
        let dir = thread_dir();
        let names: Vec<String> = if j.names { vec![b.file.names[1].clone(), b.file.names[2].clone()] } else { vec![] };
        let res = match j.tool {
            Some(t) => {
                let dir = dir.join("tool");
                std::fs::create_dir_all(&dir).unwrap();
                if t == "cres-classify-events" && !dir.join("part.yaml").exists() {
                    crate::c13::write_partition(&dir, 2);
                }
                judge_tool(b, &j.damage, t, j.algo, &dir).map(|refused| Seen { refused })
            }
            None => ctx.within(&case, || {
                guarded(|| match j.algo {
                    Algo::None => judge(b, &j.damage, j.with, &names, &dir),
                    algo => judge_compressed(b, algo, &j.damage, &algo.compress(&b.text), &dir),
                })
                .and_then(|r| r)
            }),
        };
        match res {
            Ok(s) => {
                if s.refused {
                    refused.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if j.kind == "none" {
                        ctx.fail(&case, "an intact file is refused", json!({}))
                    }
                }
                ctx.nontrivial(hash_of(&(j.base, &j.damage, j.tool, j.algo)));
            }
            Err(e) => ctx.fail(&case, e, json!({"damage": j.damage.name(), "kind": j.kind})),
        }
    });
    ctx.note("reported_as_errors", refused.into_inner());
}
