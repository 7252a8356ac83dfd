//! C25: input files survive, and outputs do not overwrite one another
use crate::ctx::*;
use crate::c12::style0;
use crate::fmt::*;
use crate::tools::{self, args, Opt, Ran};
use serde_json::json;
use std::collections::BTreeMap;
use std::os::unix::fs::{symlink, MetadataExt};
use std::path::{Path, PathBuf};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Tool {
    Cres,
    Partition,
    Classify,
}

/// what is at a path before the run
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Pre {
    Nothing,
    Stale,
    Sym(&'static str),
    Hard(&'static str),
    Dir,
}

#[derive(Clone, Debug)]
struct Case {
    tool: Tool,
    fmt: Fmt,
    inputs: Vec<&'static str>,
    /// directory, or file for the partitions
    out: &'static str,
    /// in the output directory, or the output file
    pre: Pre,
    /// name of the file in the output directory to which `pre` applies
    pre_name: &'static str,
    damage: Option<usize>,
    fsize: Option<u64>,
    /// path of the partition
    part: &'static str,
}

fn events(k: usize) -> Vec<Ev> {
    (0..3).map(|i| crate::c12::higgs((5 * k + i) as f64, [-1.5, 2., -0.25][i])).collect()
}

/// who is this file?
#[derive(PartialEq, Eq, Debug, Clone, Hash, PartialOrd, Ord)]
enum Id {
    Node(u64, u64),
    Path(PathBuf),
}
fn id(p: &Path) -> Id {
    if let Ok(m) = std::fs::metadata(p) {
        return Id::Node(m.dev(), m.ino());
    }
    // a link to nothing
    if let Ok(t) = std::fs::read_link(p) {
        return id(&p.parent().unwrap().join(t));
    }
    let dir = p.parent().unwrap();
    // `..` only appears after existing directories
    Id::Path(dir.canonicalize().unwrap_or(dir.to_path_buf()).join(p.file_name().unwrap()))
}

const REGIONS: usize = 2;

fn run_case(ctx: &Ctx, c: &Case) {
    let name = format!(
        "{:?}:{:?}:{}:to:{}:{:?}@{}:{:?}:{:?}{}",
        c.tool,
        c.fmt,
        c.inputs.join("+"),
        c.out,
        c.pre,
        c.pre_name,
        c.damage,
        c.fsize,
        if c.part == "part.yaml" { String::new() } else { format!(":{}", c.part) }
    )
    .replace(' ', "");
    if !ctx.want(&name) || ctx.stop() {
        return;
    }
    ctx.eval();
    let dir = tools::fresh("c25");
    let at = |p: &str| dir.join(p);
    // the world
    for d in ["d0", "d1", "d1/sub"] {
        std::fs::create_dir_all(at(d)).unwrap();
    }
    let mut texts = BTreeMap::new();
    for (k, p) in ["d0/a.dat", "d1/a.dat", "d0/b.dat", "d0/a.0.dat", "d1/b", "c.dat"].iter().enumerate() {
        let f = make(c.fmt, &events(k), &style0(c.fmt));
        let mut text = f.text();
        if let Some(n) = c.damage {
            if c.inputs.last() == Some(p) {
                text.truncate(text.len() * n / 10);
            }
        }
        std::fs::write(at(p), &text).unwrap();
        texts.insert(*p, events(k));
    }
    symlink("d0/a.dat", at("link.dat")).unwrap();
    std::fs::hard_link(at("d0/b.dat"), at("hard.dat")).unwrap();
    symlink("d0", at("dlink")).unwrap();
    std::fs::write(at("norm.xml"), normalization("Bm", "2")).unwrap();
    std::fs::write(at("d0/norm.xml"), normalization("Bm", "2")).unwrap();
    let mut aux = vec![];
    if c.tool == Tool::Classify {
        crate::c13::write_partition(&dir, REGIONS);
        aux.push(c.part);
        std::fs::rename(at("part.yaml"), at("d0/p.0.yaml")).unwrap();
        symlink("d0/p.0.yaml", at("part.yaml")).unwrap();
        std::fs::write(at("d1/p.yaml"), make(c.fmt, &events(9), &style0(c.fmt)).text()).unwrap();
    }
    let is_dir_out = c.tool != Tool::Partition;
    let pre_at = if is_dir_out { at(c.out).join(c.pre_name) } else { at(c.out) };
    if c.pre != Pre::Nothing {
        std::fs::create_dir_all(pre_at.parent().unwrap()).unwrap();
        if pre_at.exists() {
            // only where nothing else is
            return;
        }
        match c.pre {
            Pre::Stale => std::fs::write(&pre_at, "old").unwrap(),
            Pre::Sym(t) => symlink(at(t), &pre_at).unwrap(),
            Pre::Hard(t) => std::fs::hard_link(at(t), &pre_at).unwrap(),
            Pre::Dir => std::fs::create_dir(&pre_at).unwrap(),
            Pre::Nothing => {}
        }
    }
    // what may not be touched, and where the outputs go
    let is_norm = |p: &str| p.ends_with("norm.xml");
    let mut protected: Vec<PathBuf> = c.inputs.iter().chain(&aux).map(|p| at(p)).collect();
    protected.retain(|p| p.is_file());
    let mut outs: Vec<(PathBuf, Option<usize>)> = vec![];
    match c.tool {
        Tool::Cres => {
            for (k, i) in c.inputs.iter().enumerate() {
                if !is_norm(i) {
                    outs.push((at(c.out).join(Path::new(i).file_name().unwrap()), Some(k)))
                }
            }
        }
        Tool::Partition => outs.push((at(c.out), None)),
        Tool::Classify => {
            for (k, i) in c.inputs.iter().enumerate() {
                let n = Path::new(i).file_name().unwrap().to_str().unwrap();
                let (a, b) = n.split_once('.').unwrap_or((n, ""));
                for r in 0..REGIONS {
                    outs.push((at(c.out).join(format!("{a}.{r}.{b}")), Some(k)))
                }
            }
        }
    }
    let mut ids: Vec<Id> = outs.iter().filter(|o| !o.0.is_dir()).map(|o| id(&o.0)).collect();
    let prot_ids: Vec<Id> = protected.iter().map(|p| id(p)).collect();
    let mut conflict = ids.iter().any(|i| prot_ids.contains(i));
    ids.sort();
    conflict |= ids.windows(2).any(|w| w[0] == w[1]);
    let bad_place = c.pre == Pre::Dir && outs.iter().any(|o| o.0 == pre_at) || at(c.out).is_file() && is_dir_out || !is_dir_out && at(c.out).is_dir();
    let no_parent = !is_dir_out && !at(c.out).parent().unwrap().exists();
    let missing = c.inputs.iter().any(|i| !at(i).exists() || at(i).is_dir());
    let before = tools::tree(&dir);
    let contents: Vec<Vec<u8>> = protected.iter().map(|p| std::fs::read(p).unwrap_or_default()).collect();
    let nodes: Vec<Id> = prot_ids.clone();
    let classify = ["--partition", c.part, "--outdir"];
    let mut a = args(match c.tool {
        Tool::Cres => &["-a", "anti-kt", "-R", "0.4", "-p", "30", "--outdir"],
        Tool::Partition => &["-a", "anti-kt", "-R", "0.4", "-p", "30", "--regions", "1", "--outfile"],
        Tool::Classify => &classify,
    });
    a.push(c.out.into());
    a.extend(c.inputs.iter().map(|s| s.to_string()));
    let tool = match c.tool {
        Tool::Cres => "cres",
        Tool::Partition => "cres-partition",
        Tool::Classify => "cres-classify-events",
    };
    let r: Ran = tools::run(tool, &a, &dir, Opt { fsize: c.fsize, ..Default::default() });
    let res = (|| -> Result<(), String> {
        for ((p, data), node) in protected.iter().zip(&contents).zip(&nodes) {
            let now = std::fs::read(p).unwrap_or_else(|_| if p.is_dir() { vec![] } else { b"gone".to_vec() });
            if now != *data || id(p) != *node {
                return Err(format!(
                    "input {:?} is changed from {} to {} bytes ({})",
                    p.strip_prefix(&dir).unwrap(),
                    data.len(),
                    now.len(),
                    r.describe()
                ));
            }
        }
        if r.panicked() || r.timeout || r.signal.is_some() {
            return Err(r.describe());
        }
        let after = tools::tree(&dir);
        if conflict {
            if r.ok() {
                return Err("conflicting paths are accepted".into());
            }
            if after != before {
                let d: Vec<_> = after.iter().filter(|(k, v)| before.get(*k) != Some(v)).map(|x| x.0).collect();
                return Err(format!("files are written in spite of conflicting paths: {d:?}"));
            }
            return Ok(());
        }
        // nothing but the outputs changes
        let out_ids: Vec<Id> = outs.iter().map(|o| id(&o.0)).collect();
        for (k, v) in &before {
            let same = after.get(k) == Some(v);
            if !same && !out_ids.contains(&id(&at(k))) {
                return Err(format!("{k} is changed"));
            }
        }
        for k in after.keys() {
            if !before.contains_key(k) && !out_ids.contains(&id(&at(k))) {
                return Err(format!("{k} is created"));
            }
        }
        let damaged = c.damage.is_some();
        if missing || bad_place {
            return if r.ok() { Err("accepted".into()) } else { Ok(()) };
        }
        if no_parent && r.refused() {
            return Ok(());
        }
        if damaged || c.fsize.is_some() {
            return Ok(());
        }
        if !r.ok() {
            return Err(format!("refused without reason: {}", r.describe()));
        }
        // the outputs are all there
        if c.tool == Tool::Partition {
            let s = std::fs::read(at(c.out)).map_err(|e| e.to_string())?;
            let _: crate::c12::Stored = serde_yaml::from_slice(&s).map_err(|e| format!("output: {e}"))?;
            return Ok(());
        }
        for (k, i) in c.inputs.iter().enumerate() {
            let mut got = vec![];
            for (o, n) in &outs {
                if *n == Some(k) {
                    got.extend(crate::c12::read_positions(o).map_err(|e| format!("{o:?}: {e}"))?)
                }
            }
            got.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let Ok(real) = at(i).canonicalize() else { continue };
            let rel = real.strip_prefix(dir.canonicalize().unwrap()).unwrap().to_str().unwrap().to_string();
            let rel = match rel.as_str() {
                "hard.dat" => "d0/b.dat",
                x => x,
            };
            let Some(evs) = texts.get(rel) else { continue };
            let want: Vec<f64> = evs.iter().map(|e| e.parts[1].1[1].parse().unwrap()).collect();
            if got != want {
                return Err(format!("output for {i}: events at {got:?} instead of {want:?}"));
            }
        }
        Ok(())
    })();
    match res {
        Ok(()) => {
            if conflict || c.pre != Pre::Nothing {
                ctx.nontrivial(hash_of(&name))
            }
            ctx.count(if conflict { "conflicts" } else { "other_cases" }, 1)
        }
        Err(e) => ctx.fail(&name, e, json!({"args": a, "tool": tool, "stderr": r.stderr})),
    }
}

/// Pairs of inputs and outputs given to the library
fn library(ctx: &Ctx) {
    use cres::io::IOBuilder;
    use cres::traits::UpdateWeights;
    let ins = ["d0/a.dat", "d0/b.dat", "c.dat", "link.dat", "hard.dat"];
    // relative to the directory, which is given as an absolute path or by way of a link
    let outs = ["new/x", "new/../new/x", "./new//x", "lnew/x", "new/y", "new/dangling", "new/stale", "new/hstale", "d0/a.dat", "d0/../c.dat", "hard.dat", "none/x"];
    let mut jobs = vec![];
    for fmt in FMTS {
        for i in Odometer::pow(ins.len(), 2) {
            for o in Odometer::pow(outs.len(), 2) {
                jobs.push((fmt, vec![(ins[i[0]], outs[o[0]]), (ins[i[1]], outs[o[1]])]))
            }
        }
        for i in ins {
            for o in outs {
                jobs.push((fmt, vec![(i, o)]))
            }
        }
    }
    par_for(&jobs, |(fmt, pairs)| {
        let name = format!("library/{fmt:?}/{}", pairs.iter().map(|p| format!("{}>{}", p.0, p.1)).collect::<Vec<_>>().join("+"));
        if !ctx.want(&name) || ctx.stop() {
            return;
        }
        ctx.eval();
        let dir = tools::fresh("c25l");
        let at = |p: &str| dir.join(p);
        for d in ["d0", "new"] {
            std::fs::create_dir_all(at(d)).unwrap();
        }
        for (k, p) in ["d0/a.dat", "d0/b.dat", "c.dat"].iter().enumerate() {
            std::fs::write(at(p), make(*fmt, &events(k), &style0(*fmt)).text()).unwrap();
        }
        symlink("d0/a.dat", at("link.dat")).unwrap();
        std::fs::hard_link(at("d0/b.dat"), at("hard.dat")).unwrap();
        symlink("new", at("lnew")).unwrap();
        symlink("x", at("new/dangling")).unwrap();
        std::fs::write(at("new/stale"), "old").unwrap();
        std::fs::hard_link(at("new/stale"), at("new/hstale")).unwrap();
        std::fs::write(at("norm.xml"), normalization("Bm", "2")).unwrap();
        let mut files: Vec<(PathBuf, PathBuf)> = pairs.iter().map(|(i, o)| (at(i), at(o))).collect();
        let mut ids: Vec<Id> = pairs.iter().map(|p| id(&at(p.1))).collect();
        let mut conflict = ins.iter().any(|i| ids.contains(&id(&at(i))) && pairs.iter().any(|p| id(&at(p.0)) == id(&at(i))));
        ids.sort();
        conflict |= ids.windows(2).any(|w| w[0] == w[1]);
        let nowhere = pairs.iter().any(|p| p.1.starts_with("none"));
        if *fmt == Fmt::Xml {
            files.push((at("norm.xml"), at("unused")))
        }
        let before = tools::tree(&dir);
        let res = guarded(|| -> Result<(), String> {
            let io = IOBuilder::default().build_from_files_iter(files.clone());
            if conflict || nowhere {
                if io.is_ok() {
                    return Err("conflicting paths are accepted".into());
                }
                if conflict && tools::tree(&dir) != before {
                    return Err("files are written in spite of conflicting paths".into());
                }
                return Ok(());
            }
            let mut io = io.map_err(|e| format!("refused: {}", chain(&e)))?;
            let n = io.update_all_weights(&vec![mkweights(&[1.5]); 3 * pairs.len()]).map_err(|e| chain(&e))?;
            if n != 3 * pairs.len() {
                return Err(format!("{n} events updated"));
            }
            drop(io);
            for ((i, _), (_, o)) in pairs.iter().zip(&files) {
                let got = crate::c12::read_positions(o).map_err(|e| format!("{o:?}: {e}"))?;
                if got != crate::c12::read_positions(&at(i))? {
                    return Err(format!("output for {i} has the events {got:?}"));
                }
            }
            let after = tools::tree(&dir);
            for (k, v) in &before {
                if after.get(k) != Some(v) && !ids.contains(&id(&at(k))) {
                    return Err(format!("{k} is changed"));
                }
            }
            Ok(())
        })
        .and_then(|x| x);
        match res {
            Ok(()) => {
                ctx.count(if conflict { "conflicts" } else { "other_cases" }, 1);
                ctx.nontrivial(hash_of(&name))
            }
            Err(e) => ctx.fail(&name, e, json!({})),
        }
    });
    ctx.note("arrangements_for_the_library", jobs.len());
}

pub fn run(ctx: &Ctx) {
    let mut cases = vec![];
    let ins = ["d0/a.dat", "d1/a.dat", "d0/b.dat", "link.dat", "hard.dat", "dlink/a.dat", "d0/a.0.dat", "c.dat", "d1/b", "d1/../d0/a.dat", "none.dat", "d1/sub"];
    let mut lists: Vec<Vec<&'static str>> = ins.iter().map(|i| vec![*i]).collect();
    for a in ins {
        for b in ins {
            lists.push(vec![a, b])
        }
    }
    if ctx.thorough {
        for a in &ins[..8] {
            for b in &ins[..8] {
                for c in &ins[..8] {
                    lists.push(vec![a, b, c])
                }
            }
        }
    }
    let outdirs = ["d0", "d1", "new", "new/deep", "dlink", "d1/../d0", ".", "./d0/.", "c.dat"];
    let outfiles = ["d0/a.dat", "d1/a.dat", "new.yaml", "d0/new.yaml", "none/new.yaml", "link.dat", "hard.dat", "dlink/a.dat", "d1/../d0/b.dat", "./d0//a.dat", "d1/sub"];
    let pres = [
        (Pre::Nothing, ""),
        (Pre::Stale, "a.dat"),
        (Pre::Sym("d0/a.dat"), "a.dat"),
        (Pre::Hard("d0/a.dat"), "a.dat"),
        (Pre::Sym("d0/b.dat"), "a.dat"),
        (Pre::Hard("d0/b.dat"), "a.dat"),
        (Pre::Sym("d0/a.dat"), "b.dat"),
        (Pre::Sym("link.dat"), "a.dat"),
        (Pre::Dir, "a.dat"),
    ];
    let pres2 = [
        (Pre::Nothing, ""),
        (Pre::Stale, "a.0.dat"),
        (Pre::Sym("d0/a.dat"), "a.1.dat"),
        (Pre::Hard("d0/a.dat"), "a.0.dat"),
        (Pre::Hard("d0/b.dat"), "a.1.dat"),
        (Pre::Sym("d0/p.0.yaml"), "b.1.dat"),
        (Pre::Dir, "a.1.dat"),
    ];
    let mut k = 0;
    let case = |tool, fmt, inputs: &Vec<&'static str>, out, pre: (Pre, &'static str)| Case {
        tool,
        fmt,
        inputs: inputs.clone(),
        out,
        pre: pre.0,
        pre_name: pre.1,
        damage: None,
        fsize: None,
        part: "part.yaml",
    };
    for l in &lists {
        for out in outdirs {
            for pre in pres {
                if pre.0 != Pre::Nothing && (out == "c.dat" || l.len() > 2) {
                    continue;
                }
                let fmt = FMTS[k % 3];
                k += 1;
                let mut l = l.clone();
                if fmt == Fmt::Xml {
                    // the normalisation file is an input, too
                    l.insert(k % (l.len() + 1), if k % 2 == 0 { "norm.xml" } else { "d0/norm.xml" })
                }
                cases.push(case(Tool::Cres, fmt, &l, out, pre));
            }
            for pre in pres2 {
                if pre.0 != Pre::Nothing && (out == "c.dat" || l.len() > 2) {
                    continue;
                }
                k += 1;
                cases.push(case(Tool::Classify, FMTS[k % 3], l, out, pre));
            }
        }
        for out in outfiles {
            k += 1;
            cases.push(case(Tool::Partition, FMTS[k % 3], l, out, (Pre::Nothing, "")));
        }
        for pre in [Pre::Stale, Pre::Sym("d0/a.dat"), Pre::Hard("d0/a.dat"), Pre::Dir, Pre::Sym("none.x")] {
            k += 1;
            cases.push(case(Tool::Partition, FMTS[k % 3], l, "new.yaml", (pre, "")));
        }
    }
    // other names of the partition, and outputs in its place
    for fmt in FMTS {
        for part in ["./part.yaml", "d0/p.0.yaml", "dlink/p.0.yaml", "d1/../d0/p.0.yaml", "d0/../part.yaml"] {
            for out in ["d0", "new", ".", "dlink"] {
                for l in [vec!["d1/p.yaml"], vec!["c.dat"], vec!["d0/a.dat", "d1/p.yaml"]] {
                    let mut c = case(Tool::Classify, fmt, &l, out, (Pre::Nothing, ""));
                    c.part = part;
                    cases.push(c)
                }
                for pre in [(Pre::Sym("d0/p.0.yaml"), "c.0.dat"), (Pre::Hard("d0/p.0.yaml"), "c.1.dat"), (Pre::Sym("part.yaml"), "c.1.dat")] {
                    let mut c = case(Tool::Classify, fmt, &vec!["c.dat"], out, pre);
                    c.part = part;
                    cases.push(c)
                }
            }
        }
    }
    // the partition itself
    for fmt in FMTS {
        for out in ["d0", "new"] {
            cases.push(case(Tool::Classify, fmt, &vec!["d1/p.yaml"], out, (Pre::Nothing, "")));
            cases.push(case(Tool::Classify, fmt, &vec!["d0/a.dat", "d1/p.yaml"], out, (Pre::Nothing, "")));
        }
    }
    // normalisation files where outputs go
    for (a, b) in [("d0/norm.xml", "d0"), ("norm.xml", "."), ("norm.xml", "d0"), ("d0/norm.xml", "new")] {
        for i in ["d1/a.dat", "c.dat", "d0/a.dat"] {
            cases.push(case(Tool::Cres, Fmt::Xml, &vec![i, a], b, (Pre::Nothing, "")));
            for p in [Pre::Sym(a), Pre::Hard(a)] {
                cases.push(case(Tool::Cres, Fmt::Xml, &vec![a, i], "new", (p, Path::new(i).file_name().unwrap().to_str().unwrap())));
            }
        }
    }
    // errors on the way
    for fmt in FMTS {
        for tool in [Tool::Cres, Tool::Partition, Tool::Classify] {
            for l in [vec!["d0/a.dat"], vec!["c.dat", "d0/b.dat"]] {
                let mut l = l.clone();
                if fmt == Fmt::Xml && tool == Tool::Cres {
                    l.insert(0, "norm.xml")
                }
                for damage in 0..10 {
                    let mut c = case(tool, fmt, &l, "new", (Pre::Nothing, ""));
                    c.damage = Some(damage);
                    cases.push(c)
                }
                for fsize in [0, 1, 50, 200, 500, 1000] {
                    let mut c = case(tool, fmt, &l, "new", (Pre::Nothing, ""));
                    c.fsize = Some(fsize);
                    cases.push(c);
                }
            }
        }
    }
    ctx.note("arrangements", cases.len());
    library(ctx);
    par_for(&cases, |c| run_case(ctx, c));
}
