//! Runs the library with one thread and the settings given as JSON: the reference for the tools
use cres::cluster::{DefaultClustering, JetAlgorithm, JetDefinition, PhotonDefinition};
use cres::compression::Compression;
use cres::io::{Converter, IOBuilder};
use cres::neighbour_search::{NaiveNeighbourSearch, TreeSearch};
use cres::prelude::{CresBuilder, Unweighter};
use cres::resampler::DefaultResamplerBuilder;
use cres::seeds::Strategy;
use rand::SeedableRng;
use rand_xoshiro::Xoshiro256Plus;
use serde_yaml::Value;

fn f(v: &Value) -> f64 {
    // numbers are passed as strings, in full
    v.as_str().unwrap().parse().unwrap()
}
fn jet(v: &Value) -> JetDefinition {
    JetDefinition {
        algorithm: match v[0].as_str().unwrap() {
            "AntiKt" => JetAlgorithm::AntiKt,
            "Kt" => JetAlgorithm::Kt,
            "CambridgeAachen" => JetAlgorithm::CambridgeAachen,
            x => panic!("{x}"),
        },
        radius: f(&v[1]),
        min_pt: f(&v[2]),
    }
}

fn main() {
    let v: Value = serde_yaml::from_str(&std::env::args().nth(1).unwrap()).unwrap();
    rayon::ThreadPoolBuilder::new().num_threads(1).build_global().unwrap();
    if let Err(e) = run(&v) {
        eprintln!("{e:#}");
        std::process::exit(1)
    }
}

fn run(v: &Value) -> anyhow::Result<()> {
    let weights: Vec<String> = v["weights"].as_sequence().unwrap().iter().map(|s| s.as_str().unwrap().into()).collect();
    let level = v["level"].as_u64().unwrap() as u8;
    let compression = match v["algo"].as_str().unwrap() {
        "Bzip2" => Some(Compression::Bzip2),
        "Gzip" => Some(Compression::Gzip(level)),
        "Lz4" => Some(Compression::Lz4(level)),
        "Zstd" => Some(Compression::Zstd(level)),
        _ => None,
    };
    let path = |s: &str| -> std::path::PathBuf {
        use std::os::unix::ffi::OsStringExt;
        // bytes in hexadecimal
        let b = (0..s.len()).step_by(2).map(|i| u8::from_str_radix(&s[i..i + 2], 16).unwrap()).collect();
        std::ffi::OsString::from_vec(b).into()
    };
    let files: Vec<_> = v["files"]
        .as_sequence()
        .unwrap()
        .iter()
        .map(|p| (path(p[0].as_str().unwrap()), path(p[1].as_str().unwrap())))
        .collect();
    let mut b = IOBuilder::default();
    b.weight_names(weights.clone()).compression(compression);
    let event_io = b.build_from_files_iter(files)?;
    let mut clustering = DefaultClustering::new(jet(&v["jet"])).include_neutrinos(v["neutrinos"].as_bool().unwrap());
    if !v["lepton"].is_null() {
        clustering = clustering.with_lepton_def(jet(&v["lepton"]))
    }
    let p = &v["photon"];
    if !p.is_null() {
        clustering = clustering.with_photon_def(PhotonDefinition { min_e_fraction: f(&p[0]), radius: f(&p[1]), min_pt: f(&p[2]) })
    }
    let strategy = match v["strategy"].as_str().unwrap() {
        "MostNegative" => Strategy::MostNegative,
        "LeastNegative" => Strategy::LeastNegative,
        "Next" => Strategy::Next,
        x => panic!("{x}"),
    };
    let rs = DefaultResamplerBuilder::default()
        .max_cell_size(if v["max"].is_null() { None } else { Some(f(&v["max"])) })
        .ptweight(f(&v["ptweight"]))
        .strategy(strategy);
    let converter = Converter::with_weights(weights);
    let unweighter = Unweighter::new(
        f(&v["minweight"]),
        Xoshiro256Plus::seed_from_u64(v["seed"].as_str().unwrap().parse().unwrap()),
    );
    macro_rules! go {
        ($N:ty) => {
            CresBuilder { event_io, converter, clustering, resampler: rs.neighbour_search::<$N>().build(), unweighter }
                .build()
                .run()?
        };
    }
    if v["naive"].as_bool().unwrap() {
        go!(NaiveNeighbourSearch)
    } else {
        go!(TreeSearch)
    }
    Ok(())
}
