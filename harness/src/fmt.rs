//! Event files in all formats, generated from abstract events
use cres::event::Event;
use cres::io::{Converter, EventRecord};
use cres::traits::TryConvert;
use std::path::{Path, PathBuf};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fmt {
    Hep,
    Lhef,
    Xml,
}
pub const FMTS: [Fmt; 3] = [Fmt::Hep, Fmt::Lhef, Fmt::Xml];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum St {
    Out,
    Inter,
    In,
}

/// particle id, E px py pz, status
pub type Part = (i32, [&'static str; 4], St);

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct Ev {
    /// central weight and further ones
    pub w: Vec<String>,
    pub parts: Vec<Part>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Piece {
    L(String),
    /// blanks next to a weight, not significant
    Blank(String),
    /// number of the event, number of the weight
    W(usize, usize, String),
}

#[derive(Clone, Debug)]
pub struct File {
    pub fmt: Fmt,
    pub pieces: Vec<Piece>,
    pub evs: Vec<Ev>,
    /// momenta are in MeV
    pub mev: bool,
    pub names: Vec<String>,
    /// index of the first piece of each event, and of the footer
    pub starts: Vec<usize>,
}

impl File {
    pub fn text(&self) -> String {
        self.text_of(0, self.pieces.len())
    }
    pub fn text_of(&self, from: usize, to: usize) -> String {
        self.pieces[from..to]
            .iter()
            .map(|p| match p {
                Piece::L(s) | Piece::Blank(s) | Piece::W(_, _, s) => s.as_str(),
            })
            .collect()
    }
    /// byte range of event `i`
    pub fn range(&self, i: usize) -> (usize, usize) {
        (
            self.text_of(0, self.starts[i]).len(),
            self.text_of(0, self.starts[i + 1]).len(),
        )
    }
}

/// number of variants of each aspect of the way a file is written
pub fn dims(f: Fmt) -> Vec<usize> {
    match f {
        // header, random states, names, units, extra lines, vertices, blanks, line ends, footer
        Fmt::Hep => vec![5, 3, 4, 4, 5, 3, 4, 2, 6],
        // header, event tag, indentation, blanks, after the particles, between events, line ends, footer
        Fmt::Lhef => vec![3, 2, 3, 2, 4, 2, 2, 4],
        // declaration (or line ends), attributes, grouping, attributes of sub-events, momenta, reweights, footer
        Fmt::Xml => vec![4, 3, 5, 3, 3, 2, 4],
    }
}

/// All ways of writing a file with at most `dev` deviations from the standard one
pub fn styles(f: Fmt, dev: usize) -> Vec<Vec<usize>> {
    crate::ctx::Odometer::new(dims(f))
        .filter(|s| {
            let n = s.iter().filter(|x| **x > 0).count();
            // long files only without other deviations
            let long = match f {
                Fmt::Hep => s[5] == 2 || s[8] == 5,
                Fmt::Lhef => s[7] == 3,
                Fmt::Xml => s[6] == 3,
            };
            n <= if long { 1.min(dev) } else { dev }
        })
        .collect()
}

struct Out {
    pieces: Vec<Piece>,
    nl: &'static str,
}
impl Out {
    fn l(&mut self, s: &str) {
        let s = s.replace('\n', self.nl);
        match self.pieces.last_mut() {
            Some(Piece::L(t)) => t.push_str(&s),
            _ => self.pieces.push(Piece::L(s)),
        }
    }
    fn b(&mut self, s: &str) {
        if !s.is_empty() {
            self.pieces.push(Piece::Blank(s.into()))
        }
    }
    fn cut(&mut self) -> usize {
        self.pieces.push(Piece::L(String::new()));
        self.pieces.len() - 1
    }
}

/// a comment far beyond the size of any buffer
pub fn long_note() -> String {
    let lines: String = (0..600).map(|i| format!("line {i} of many after the events\n")).collect();
    format!("<!--\n{lines}-->")
}

pub fn wnames(style: usize, n: usize) -> Vec<String> {
    match style {
        0 => vec![],
        1 => (0..n).map(|i| format!("w{i}")).collect(),
        // blanks next to the name, and the same name again
        3 => (0..n)
            .map(|i| match i % 3 {
                0 => "Weight".into(),
                1 => format!(" w {i}  "),
                _ => ["Weight ", "Weight"][i % 2].into(),
            })
            .collect(),
        _ => (0..n)
            .map(|i| match i {
                0 => "Weight".into(),
                1 => "mu R=2 E".into(),
                i => format!("PDF set={i}:E"),
            })
            .collect(),
    }
}

pub fn make(fmt: Fmt, evs: &[Ev], st: &[usize]) -> File {
    let mut starts = vec![];
    let mut names = vec![];
    let mut mev = false;
    let mut o = Out { pieces: vec![], nl: "\n" };
    let long = long_note();
    let long_foot = match fmt {
        Fmt::Hep => format!("HepMC::IO_GenEvent-END_EVENT_LISTING\n{}", "\n".repeat(9000)),
        Fmt::Lhef => format!("\n{long}\n</LesHouchesEvents>\n"),
        Fmt::Xml => format!("{long}\n</Eventrecord>\n"),
    };
    match fmt {
        Fmt::Hep => {
            let &[head, rnd, nm, unit, extra, vert, blank, crlf, foot] = st else { panic!() };
            if crlf == 1 {
                o.nl = "\r\n"
            }
            mev = unit == 2;
            let nw = evs.first().map_or(1, |e| e.w.len());
            names = wnames(nm, nw);
            o.l(match head {
                0 => "\nHepMC::Version 2.06.09\nHepMC::IO_GenEvent-START_EVENT_LISTING\n",
                2 => "HepMC::Version 2.06.09\nHepMC::IO_GenEvent-START_EVENT_LISTING\n",
                3 => "",
                4 => "HepMC::Version 2.06.09\nHepMC::IO_GenEvent-START_EVENT_LISTING\n\n\n\n",
                _ => "\n\nHepMC::Version 2.06.09 EE\n# E e Example\n\nHepMC::IO_GenEvent-START_EVENT_LISTING\n",
            });
            for (i, ev) in evs.iter().enumerate() {
                starts.push(o.cut());
                o.l(&format!(
                    "E {i} -1 1.5E+02 -1.0000000000000000e+00 7.5e-03 0 -1 {} 10001 10002 {}{} {}",
                    [1, 2, 131][vert],
                    ["0", "2 17 18", "7 17 18 1 0 5 4294967295 3"][rnd],
                    "",
                    ev.w.len(),
                ));
                for (j, w) in ev.w.iter().enumerate() {
                    o.b(match blank {
                        1 if j == 0 => "  ",
                        2 => "  ",
                        _ => " ",
                    });
                    o.pieces.push(Piece::W(i, j, w.clone()));
                }
                if blank == 3 {
                    o.b(" ")
                }
                o.l("\n");
                if nm > 0 {
                    o.l(&format!("N {}", names.len()));
                    for n in &names {
                        o.l(&format!(" \"{n}\""))
                    }
                    o.l("\n")
                }
                o.l(match unit {
                    0 => "",
                    1 => "U GEV MM\n",
                    2 => "U MEV MM\n",
                    _ => "U GEV CM\n",
                });
                if extra == 1 || extra == 4 {
                    o.l("C 2.6e+04 1.4e+02\n")
                }
                if extra == 2 || extra == 4 {
                    o.l("H 1 2 3 4 5 6 7 8 9 1.0 2.0 3.0 4.0\n")
                }
                if extra == 3 || extra == 4 {
                    o.l("F 21 21 2.3e-03 1.1e-01 9.1E+01 1.0 2.0 0 0\n")
                }
                let n = ev.parts.len();
                let first = if vert >= 1 { n / 2 } else { n };
                o.l(&format!("V -1 0 0 0 0 0 0 {first} 0\n"));
                for (j, (id, p, s)) in ev.parts.iter().enumerate() {
                    if vert >= 1 && j == first {
                        // some without particles
                        for k in 2..[2, 2, 131][vert] {
                            o.l(&format!("V -{k} 0 1.0 2.0 3.0 4.0 1 0 0\n"))
                        }
                        o.l(&format!("V -{} 0 1.0 2.0 3.0 4.0 1 {} 2 0.5 0.25\n", [2, 2, 131][vert], n - first))
                    }
                    let s = match s {
                        St::Out => 1,
                        St::Inter => [2, 3, 11, 62, 101, 257, 0, -1, 201][(i + j) % 9],
                        St::In => 4,
                    };
                    o.l(&format!(
                        "P {} {id} {} {} {} {} 1.25e-01 {s} 0 0 -1 {}\n",
                        10001 + j,
                        p[1],
                        p[2],
                        p[3],
                        p[0],
                        if j % 2 == 1 { "1 1 501" } else { "0" }
                    ))
                }
            }
            if foot == 4 && !evs.is_empty() {
                // without any end
                if let Some(Piece::L(t)) = o.pieces.last_mut() {
                    let n = t.trim_end_matches(['\r', '\n']).len();
                    t.truncate(n)
                }
            }
            starts.push(o.cut());
            o.l(match foot {
                4 => "",
                5 => long_foot.as_str(),
                0 => "HepMC::IO_GenEvent-END_EVENT_LISTING\n",
                1 => "",
                2 => "HepMC::IO_GenEvent-END_EVENT_LISTING",
                _ => "HepMC::IO_GenEvent-END_EVENT_LISTING\n\n\n",
            });
        }
        Fmt::Lhef => {
            let &[head, tag, ind, blank, after, between, crlf, foot] = st else { panic!() };
            if crlf == 1 {
                o.nl = "\r\n"
            }
            let init = "<init>\n 2212 2212 6.5e+03 6.5e+03 0 0 10042 10042 3 1\n 1.0 0.1 1.0 1\n</init>";
            o.l(&match head {
                0 => format!("<LesHouchesEvents version=\"1.0\">\n<!--\nA comment > with <b>\n-->\n{init}"),
                1 => format!("<LesHouchesEvents version=\"3.0\">\n<header>\n<slha>\n# 1 > 2\n</slha>\n</header>\n{init}"),
                _ => format!("<LesHouchesEvents version=\"3.0\">\n{init}"),
            });
            for (i, ev) in evs.iter().enumerate() {
                starts.push(o.cut());
                o.l("\n");
                if between == 1 {
                    o.l("\n \n")
                }
                o.l(["<event>\n", "<event npLO=\" 1 \" npNLO=\" 2 \">\n"][tag]);
                o.l(&format!("{}{} 1", [" ", "", "      "][ind], ev.parts.len()));
                let b = [" ", "  "][blank];
                o.b(b);
                o.pieces.push(Piece::W(i, 0, ev.w[0].clone()));
                o.l(&format!("{b}9.1188e+01{b}7.8E-03{b}1.2E-01\n"));
                for (j, (id, p, s)) in ev.parts.iter().enumerate() {
                    let s = match s {
                        St::Out => 1,
                        St::Inter => [2, 3, -2, -9, 0, 11][(i + j) % 6],
                        St::In => -1,
                    };
                    o.l(&format!(
                        "{}{id}{b}{s}{b}1{b}2{b}501{b}0{b}{}{b}{}{b}{}{b}{}{b}0.0{b}0.{b}9.\n",
                        [" ", "", "      "][ind],
                        p[1],
                        p[2],
                        p[3],
                        p[0]
                    ))
                }
                if after == 1 || after == 3 {
                    o.l("# a comment > with 1 2 3\n")
                }
                if after == 2 || after == 3 {
                    o.l("<rwgt>\n<wgt id='1001'> 1.0e+00 </wgt>\n<wgt id='1002'> -2.0e+00 </wgt>\n</rwgt>\n<scales pt='1' />\n")
                }
                o.l("</event>");
            }
            starts.push(o.cut());
            o.l(match foot {
                0 => "\n</LesHouchesEvents>\n",
                3 => long_foot.as_str(),
                1 => "\n</LesHouchesEvents>",
                _ => "\n<!-- the end > -->\n\n</LesHouchesEvents>\n\n",
            });
        }
        Fmt::Xml => {
            let &[decl, attr, group, se, mom, rw, foot] = st else { panic!() };
            if decl == 3 {
                o.nl = "\r\n"
            }
            let groups: Vec<Vec<usize>> = match group {
                0 => (0..evs.len()).map(|i| vec![i]).collect(),
                1 | 4 => (0..evs.len()).collect::<Vec<_>>().chunks(2).map(|c| c.to_vec()).collect(),
                _ if evs.is_empty() => vec![],
                3 => (0..evs.len()).map(|i| vec![i]).collect(),
                _ => vec![(0..evs.len()).collect()],
            };
            let (ne, ns) = (groups.len(), evs.len());
            o.l(["<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", " \n<?xml version=\"1.0\"?>\n\n", "<?xml version=\"1.0\" ?>", "<?xml version=\"1.0\"?>\n"][decl]);
            o.l(&match attr {
                0 => format!("<Eventrecord nevents=\"{ne}\" nsubevents=\"{ns}\" nreweights=\"0\" as=\"2\" name=\"Bm\">\n"),
                1 => format!("<Eventrecord name=\"Bm\" as=\"2\"\n nsubevents=\"{ns}\"  nevents=\"{ne}\">\n"),
                _ => format!("<Eventrecord nevents=\"{ne}\" nsubevents=\"{ns}\" nreweights=\"0\" as=\"2\" name=\"Bm\">\n<!--\nRecord generated with s > 1 e\n-->\n"),
            });
            for g in &groups {
                let open = ["<e>\n", "<e>\n", "<e>\n", "<e >\n", "<e\n\t>\n"][group];
                for (k, &i) in g.iter().enumerate() {
                    if k == 0 {
                        o.l(open);
                    }
                    starts.push(o.cut());
                    let ev = &evs[i];
                    o.l(["<se w=\"", "<se w=\"", "<se  w=\""][se]);
                    o.pieces.push(Piece::W(i, 0, ev.w[0].clone()));
                    o.l(["\" muR=\"91.16\" muF=\"91.16\">\n", "\">\n", "\"\tmuR=\"1\" muF=\"2e+01\" >"][se]);
                    for (j, (id, p, s)) in ev.parts.iter().enumerate() {
                        let s = if *s == St::Out { 0 } else { [1, 2, -1, 256][(i + j) % 4] };
                        let [e, x, y, z] = p;
                        o.l(&match mom {
                            0 => format!("<p id=\"{s},{id}\"> {e},{x},{y},{z} </p>\n"),
                            1 => format!("<p id=\"{s},{id}\">{e},{x},{y},{z}</p>"),
                            _ => format!("  <p id=\"{s},{id}\">  {e},{x},{y},{z}</p>\n\n"),
                        })
                    }
                    if rw == 1 {
                        o.l("<rw ch=\"12\"> 0.889,0.0514,-0.000236 </rw>\n<rw ch=\"3\"> 1,2 </rw>\n")
                    }
                    o.l("</se>\n");
                    if k + 1 == g.len() {
                        o.l(if group == 4 { "</e >\n" } else { "</e>\n" });
                    }
                }
            }
            starts.push(o.cut());
            o.l(["</Eventrecord>\n", "</Eventrecord>", "<!-- the end -->\n</Eventrecord>\n\n", &long_foot][foot]);
        }
    }
    File { fmt, pieces: o.pieces, evs: evs.to_vec(), mev, names, starts }
}

/// Normalisation file of a STRIPPER channel
pub fn normalization(name: &str, xs: &str) -> String {
    format!(
        "<?xml version=\"1.0\" encoding=\"UTF-8\"?>
<Normalization name=\"{name}\">
<!--
File generated with STRIPPER v0.1 for online data base
-->
<XSection>
 <XSPos> 687.103,0.978277 </XSPos>
 <MaxWeightPos> 796475 </MaxWeightPos>
 <TotalEventsPos> 488338734 </TotalEventsPos>
 <AcceptedEventsPos> 493310 </AcceptedEventsPos>
 <FactorPos> 803.98,1.14468 </FactorPos>
</XSection>
<Contribution name=\"{name}\">
  <xsection> {xs},0.978277</xsection>
  <rw>
    <rwentry> x1 </rwentry>
  </rw>
</Contribution>
<NumberOfRejectedEvents> 0 , 100</NumberOfRejectedEvents>
</Normalization>
"
    )
}

/// The momenta of the outgoing particles, sorted
pub fn outgoing(ev: &Event) -> Vec<(i32, [f64; 4])> {
    let mut v: Vec<_> = ev
        .outgoing()
        .iter()
        .flat_map(|(id, ps)| ps.iter().map(|p| (id.id(), [0, 1, 2, 3].map(|i| f64::from(p[i])))))
        .collect();
    sort(&mut v);
    v
}
fn sort(v: &mut [(i32, [f64; 4])]) {
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
}
pub fn expected_outgoing(ev: &Ev, scale: f64) -> Vec<(i32, [f64; 4])> {
    let mut v: Vec<_> = ev
        .parts
        .iter()
        .filter(|p| p.2 == St::Out)
        .map(|(id, p, _)| (*id, p.map(|x| x.parse::<f64>().unwrap() * scale)))
        .collect();
    sort(&mut v);
    v
}
pub fn same_outgoing(a: &[(i32, [f64; 4])], b: &[(i32, [f64; 4])]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(a, b)| {
            a.0 == b.0 && a.1.iter().zip(b.1).all(|(x, y)| *x == y || (x - y).abs() <= 1e-12 * y.abs())
        })
}

pub fn weights(ev: &Event) -> Vec<f64> {
    ev.weights.read().iter().map(|w| f64::from(*w)).collect()
}

pub fn convert(names: &[String], r: EventRecord) -> Result<Event, String> {
    #[cfg(feature = "multi")]
    let c = Converter::with_weights(names.to_vec());
    #[cfg(not(feature = "multi"))]
    let c = {
        let _ = names;
        Converter::new()
    };
    c.try_convert(r).map_err(|e| chain(&e))
}

pub fn chain(e: &dyn std::error::Error) -> String {
    let mut s = e.to_string();
    let mut e = e.source();
    while let Some(x) = e {
        s += &format!(": {x}");
        e = x.source()
    }
    s.truncate((0..=s.len().min(400)).rev().find(|i| s.is_char_boundary(*i)).unwrap());
    s
}

/// A directory of this check's own
pub fn scratch(name: &str) -> PathBuf {
    let base = std::env::var_os("VERIF_SCRATCH").expect("run through run.sh");
    let d = Path::new(&base).join(name);
    std::fs::create_dir_all(&d).unwrap();
    d
}

/// Directory of the current thread
pub fn thread_dir() -> PathBuf {
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    static N: AtomicUsize = AtomicUsize::new(0);
    thread_local! {
        static ID: PathBuf = scratch(&format!("t{}", N.fetch_add(1, SeqCst)));
    }
    ID.with(|i| i.clone())
}

/// Run without letting panics out
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    mcsched::quiet(f).map_err(|e| format!("panic: {e}"))
}

/// Does `out` equal the file up to its weights? `Err` says where not.
/// Returns the texts of the weights of each event.
pub fn match_output(f: &File, out: &str) -> Result<Vec<Vec<String>>, String> {
    let mut res: Vec<Vec<String>> = vec![vec![]; f.evs.len()];
    let mut rest = out;
    let at = |rest: &str| out.len() - rest.len();
    for p in &f.pieces {
        match p {
            Piece::L(s) => {
                // blanks before a literal belong to a weight
                match rest.strip_prefix(s.as_str()) {
                    Some(r) => rest = r,
                    None => {
                        let a: String = rest.chars().take(60).collect();
                        let b: String = s.chars().take(60).collect();
                        return Err(format!("byte {}: {a:?} instead of {b:?}", at(rest)));
                    }
                }
            }
            Piece::Blank(_) => rest = rest.trim_start_matches([' ', '\t']),
            Piece::W(i, _, _) => {
                let r = rest.trim_start_matches([' ', '\t']);
                let end = r
                    .find(|c: char| c.is_ascii_whitespace() || c == '"')
                    .unwrap_or(r.len());
                if end == 0 {
                    return Err(format!("byte {}: weight missing", at(r)));
                }
                res[*i].push(r[..end].to_string());
                rest = &r[end..];
            }
        }
    }
    if !rest.is_empty() {
        return Err(format!("byte {}: trailing {:?}", at(rest), rest.chars().take(60).collect::<String>()));
    }
    Ok(res)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Algo {
    None,
    Bzip2,
    Gzip(u8),
    Lz4(u8),
    Zstd(u8),
}
impl Algo {
    pub fn real(self) -> Option<cres::compression::Compression> {
        use cres::compression::Compression as C;
        match self {
            Algo::None => None,
            Algo::Bzip2 => Some(C::Bzip2),
            Algo::Gzip(l) => Some(C::Gzip(l)),
            Algo::Lz4(l) => Some(C::Lz4(l)),
            Algo::Zstd(l) => Some(C::Zstd(l)),
        }
    }
    pub fn magic(self) -> &'static [u8] {
        match self {
            Algo::None => &[],
            Algo::Bzip2 => b"BZh",
            Algo::Gzip(_) => &[0x1f, 0x8b],
            Algo::Lz4(_) => &[0x04, 0x22, 0x4d, 0x18],
            Algo::Zstd(_) => &[0x28, 0xb5, 0x2f, 0xfd],
        }
    }
    /// Decompress a complete stream, refusing incomplete ones
    pub fn decompress(self, data: &[u8]) -> Result<Vec<u8>, String> {
        use std::io::Read;
        if !data.starts_with(self.magic()) {
            return Err(format!("does not start like {self:?}"));
        }
        let mut out = vec![];
        let mut rest = data;
        match self {
            Algo::None => out = data.to_vec(),
            Algo::Bzip2 => {
                bzip2::bufread::BzDecoder::new(&mut rest).read_to_end(&mut out).map_err(|e| e.to_string())?;
            }
            Algo::Gzip(_) => {
                flate2::bufread::GzDecoder::new(&mut rest).read_to_end(&mut out).map_err(|e| e.to_string())?;
            }
            Algo::Lz4(_) => {
                let mut d = lz4::Decoder::new(&mut rest).map_err(|e| e.to_string())?;
                d.read_to_end(&mut out).map_err(|e| e.to_string())?;
                // fails unless the end mark has been seen
                d.finish().1.map_err(|e| e.to_string())?;
                // the decoder reads ahead
                rest = &[];
            }
            Algo::Zstd(_) => {
                zstd::stream::read::Decoder::with_buffer(&mut rest)
                    .map_err(|e| e.to_string())?
                    .single_frame()
                    .read_to_end(&mut out)
                    .map_err(|e| e.to_string())?;
            }
        }
        if self != Algo::None && !rest.is_empty() {
            return Err(format!("{} bytes after the end of the stream", rest.len()));
        }
        Ok(out)
    }
    /// Compress with the libraries' own encoders
    pub fn compress(self, data: &[u8]) -> Vec<u8> {
        use std::io::Write;
        match self {
            Algo::None => data.to_vec(),
            Algo::Bzip2 => {
                let mut e = bzip2::write::BzEncoder::new(vec![], bzip2::Compression::best());
                e.write_all(data).unwrap();
                e.finish().unwrap()
            }
            Algo::Gzip(l) => {
                let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::new(l.into()));
                e.write_all(data).unwrap();
                e.finish().unwrap()
            }
            Algo::Lz4(l) => {
                let mut e = lz4::EncoderBuilder::new().level(l.into()).build(vec![]).unwrap();
                e.write_all(data).unwrap();
                let (v, r) = e.finish();
                r.unwrap();
                v
            }
            Algo::Zstd(l) => zstd::encode_all(data, l.into()).unwrap(),
        }
    }
}

#[cfg(feature = "multi")]
pub fn mkweights(w: &[f64]) -> cres::event::Weights {
    let mut b = cres::event::EventBuilder::new();
    for w in w {
        b.add_weight(noisy_float::prelude::n64(*w));
    }
    b.build().weights.into_inner()
}

/// Events to be put into files
pub fn sample_events(nw: usize) -> Vec<Ev> {
    let w = |v: &[&str]| v.iter().cycle().take(nw).map(|s| s.to_string()).collect::<Vec<_>>();
    vec![
        Ev {
            w: w(&["1.5000000000000000e+00", "2", "-7E-3"]),
            parts: vec![
                (21, ["65.", "0", "0", "65."], St::In),
                (-11, ["50.25", "-3.0e+01", "4.0e+01", "0.5"], St::Out),
                (2212, ["1.25E+02", "3", "-4", "1.25e+02"], St::Inter),
                (1, ["20", "+1.2e+01", "16.0", "-0.0"], St::Out),
            ],
        },
        Ev {
            w: w(&["-2.5E-01", "0.0", "1e-310"]),
            parts: vec![
                (1, ["30", "18", "-24", "0"], St::Out),
                (1, ["5.0", "3.", "4.", "0"], St::Out),
                (-11, ["13", "5", "12", "0"], St::Out),
                (22, ["1e1", "6", "8", "0e0"], St::Out),
            ],
        },
        Ev { w: w(&["0", "-1", "3"]), parts: vec![] },
        Ev {
            w: w(&["7", "1e22", "-0.0"]),
            parts: vec![(25, ["125", "0", "0", "0"], St::Out), (2, ["7", "0", "0", "7"], St::Out)],
        },
    ]
}

pub const WNAMES: [&[usize]; 6] = [&[], &[1], &[2], &[2, 1], &[0], &[2, 0, 2]];
/// for more than 40 weights
pub const WNAMES_MANY: [&[usize]; 3] = [&[5, 39], &[17], &[38, 1, 30, 9, 0]];

/// Positions of the weights with the given names; the first one counts if there are several
pub fn positions(names: &[String], asked: &[String]) -> Vec<usize> {
    (0..names.len()).filter(|&j| asked.contains(&names[j]) && !names[..j].contains(&names[j])).collect()
}

/// Events with long records
pub fn big_events(nw: usize) -> Vec<Ev> {
    let num = |x: f64| -> &'static str {
        let s: String = format!("{x:e}");
        use std::sync::Mutex;
        static SEEN: Mutex<std::collections::BTreeSet<&'static str>> = Mutex::new(std::collections::BTreeSet::new());
        let mut seen = SEEN.lock().unwrap();
        match seen.get(s.as_str()) {
            Some(s) => s,
            None => {
                let s: &'static str = Box::leak(s.into_boxed_str());
                seen.insert(s);
                s
            }
        }
    };
    let ids = [1, -11, 22, 0, 211, -1000022, 21, 21];
    let w = |i: usize| (0..nw).map(|j| format!("{:e}", (i * 300 + j) as f64 / 7. - 30.)).collect::<Vec<_>>();
    [99, 0, 100, 101, 129, 256, 257, 1000, 3000]
        .iter()
        .enumerate()
        .map(|(i, n)| Ev {
            w: w(i),
            parts: (0..*n)
                .map(|k| {
                    let x = (k % 977) as f64;
                    let (px, py, pz) = (x / 3., 5. - x / 11., (k % 89) as f64 - 40.);
                    let e = (px * px + py * py + pz * pz).sqrt();
                    (ids[k % 8], [num(e), num(px), num(py), num(pz)], [St::Out, St::Out, St::Out, St::Inter, St::Out, St::In, St::Out][k % 7])
                })
                .collect(),
        })
        .collect()
}

/// XML files need a normalisation file
pub fn write_norm(dir: &Path, xs: &str) -> PathBuf {
    let p = dir.join("norm.xml");
    std::fs::write(&p, normalization("Bm", xs)).unwrap();
    p
}
