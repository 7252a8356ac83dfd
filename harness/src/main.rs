mod c010203;
mod c04;
mod c05;
mod c06;
#[cfg(feature = "multi")]
mod c07;
mod c08;
mod c09;
#[cfg(feature = "multi")]
mod c10;
#[cfg(feature = "multi")]
mod c11;
#[cfg(feature = "multi")]
mod c12;
#[cfg(feature = "multi")]
mod c13;
#[cfg(feature = "multi")]
mod c14;
#[cfg(feature = "multi")]
mod c15;
#[cfg(feature = "multi")]
mod c16;
#[cfg(feature = "multi")]
mod c21;
#[cfg(feature = "multi")]
mod c24;
#[cfg(feature = "multi")]
mod c25;
#[cfg(feature = "multi")]
mod c17;
#[cfg(feature = "multi")]
mod c18;
mod c19;
mod c20;
mod c22;
mod c26;
mod fmt;
mod memio;
mod ctx;
mod res;
mod selftest;
#[cfg(feature = "multi")]
mod tools;

use ctx::Ctx;

#[global_allocator]
static ALLOC: ctx::Limited = ctx::Limited;

pub const MULTI: bool = cfg!(feature = "multi");

fn main() {
    mcsched::install_panic_hook();
    let mut args = std::env::args().skip(1);
    let prop = args.next().expect("property");
    #[cfg(feature = "multi")]
    if prop == "c18-child" {
        let args: Vec<String> = std::env::args().skip(1).collect();
        std::process::exit(c18::child(&args));
    }
    let mut thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let mut only = None;
    while let Some(a) = args.next() {
        match a.as_str() {
            "quick" => thorough = false,
            "thorough" => thorough = true,
            "--replay" => {
                let f = args.next().expect("file");
                let v: serde_json::Value =
                    serde_json::from_str(&std::fs::read_to_string(f).expect("replay file")).expect("json");
                thorough = v["tier"] == "thorough";
                only = Some(v["case"].as_str().expect("case").to_string());
            }
            _ if prop == "c22-dump" => only = Some(a),
            _ => panic!("unknown argument {a}"),
        }
    }
    if prop == "c22-dump" {
        c22::dump(&Ctx::new("C22", thorough, None), only.unwrap().parse().unwrap());
        return;
    }
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx::new(&prop, thorough, only)));
    ctx.watch("exploration", "stopped early");
    let (level, rule) = match prop.as_str() {
        "C01" | "C02" | "C03" => {
            if prop == "C02" {
                selftest::run(ctx);
            }
            c010203::run(ctx);
            if prop == "C02" {
                c08::explore_runs(ctx);
            }
            ("model_checking", "all Mazurkiewicz traces of each sample")
        }
        "C08" => {
            c08::explore_runs(ctx);
            ("model_checking", "all Mazurkiewicz traces of each complete run")
        }
        "C09" => {
            c09::run(ctx);
            ("exploration", "every assignment of weights and every sequence of draws of the stated grids")
        }
        "C26" => {
            c26::run(ctx);
            ("model_checking", "every listed sample and setting in memory at every level of reporting, against the sums, categories and cells of the sample; all schedules of small samples")
        }
        "C20" => {
            c20::run(ctx);
            ("model_checking", "every sequence of operations of the stated alphabet up to the depth max_operations, compared with a list after each")
        }
        "C19" => {
            c19::run(ctx);
            ("model_checking", "every way to split the stated sequences of cells over collectors, combined and continued; all schedules of the resampler with a collector")
        }
        "C04" => {
            c04::run(ctx);
            ("exploration", "every sample of the stated alphabets, all tie resolutions of the reference algorithm")
        }
        "C05" => {
            c05::run(ctx);
            ("exploration", "every pseudometric over the stated distances, every query, every limit")
        }
        "C06" => {
            c06::run(ctx);
            ("exploration", "every pair of events of the stated alphabets against optimal matching by dynamic programming; all triples of a subset")
        }
        #[cfg(feature = "multi")]
        "C07" => {
            c07::run(ctx);
            ("exploration", "every listed way of writing a file (the standard one, each deviation, each pair of deviations) with every listed distribution of events over files and pattern of updates")
        }
        #[cfg(feature = "multi")]
        "C10" => {
            c10::run(ctx);
            ("exploration", "every list of up to three particles of the alphabet in each listed way of writing a file; every weight of the alphabet in every pair of ways")
        }
        #[cfg(feature = "multi")]
        "C11" => {
            c11::run(ctx);
            ("exploration", "every multiset of particles of the listed alphabets (all types and momenta for up to two, fewer for more) with every listed setting")
        }
        #[cfg(feature = "multi")]
        "C12" => {
            c12::run(ctx);
            ("exploration", "every listed sample (all pseudometrics and all positions of the stated grids), size and number of regions, with every listed query point; every listed run of the tools")
        }
        #[cfg(feature = "multi")]
        "C13" => {
            c13::run(ctx);
            ("exploration", "every assignment of the stated numbers of events to regions and input files in every format; every listed way of writing and compressing the files")
        }
        #[cfg(feature = "multi")]
        "C21" => {
            c21::run(ctx);
            ("exploration", "every combination of option values with up to the stated number of deviations from the defaults, and rows in which all combinations of the values of any three options occur, for every tool and format, against a run of the library; every listed arrangement of inputs and output directories")
        }
        #[cfg(feature = "multi")]
        "C18" => {
            c18::run(ctx);
            ("model_checking", "every combination of C options with up to the stated number of deviations against the library; all schedules of small runs with callbacks; every sequence of up to the stated number of runs and readings of messages; every buffer length")
        }
        #[cfg(feature = "multi")]
        "C22" => {
            c22::run(ctx);
            ("exploration", "every listed sample, complete run and spelling of a weight, through both builds; all schedules of small samples through both builds")
        }
        #[cfg(feature = "multi")]
        "C24" => {
            c24::run(ctx);
            ("exploration", "every listed option value: all documented names with all their near misses, all levels around the limits, all notations of numbers, all subsets of dependent options, for every tool")
        }
        #[cfg(feature = "multi")]
        "C25" => {
            c25::run(ctx);
            ("exploration", "every arrangement of the listed inputs, output places and files that are already there, for every tool")
        }
        #[cfg(feature = "multi")]
        "C14" => {
            c14::run(ctx);
            ("fault_enumeration", "every listed event file with every truncation, every replacement, removal and insertion of a single byte, word or line of the stated alphabets, read, read again, rewritten, and run through the tools")
        }
        #[cfg(feature = "multi")]
        "C15" => {
            c15::run(ctx);
            ("fault_enumeration", "every listed tool, format, compression and sample with a failure of every single system call and a limit at every listed size of the outputs")
        }
        #[cfg(feature = "multi")]
        "C16" => {
            c16::run(ctx);
            ("exploration", "every compression setting with every listed payload, sequence of writes and behaviour of the sink; every listed event file in every listed compressed form")
        }
        #[cfg(feature = "multi")]
        "C17" => {
            c17::run(ctx);
            ("model_checking", "every sequence of operations of the stated depth on every listed distribution of events over files, compared with a cursor after each operation")
        }
        #[cfg(feature = "multi")]
        "C23" => {
            c10::run_scaling(ctx);
            ("exploration", "every assignment of up to three event files with the listed contents to channels, with every listed position of the normalisation files")
        }
        _ => panic!("unknown property {prop}"),
    };
    std::process::exit(ctx.finish(level, rule))
}
