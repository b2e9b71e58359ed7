//! vmon: drives the library of /repo with generated workloads while oracles watch.
//!
//! vmon run --prop P --seed S --shard I --cases N --budget-ms T --dir SCRATCH --out FILE [--thorough]
//! vmon case --prop P --case-seed C --dir SCRATCH [--thorough]
#[macro_use]
mod util;
mod faults;
mod model;
mod oracle;
mod osm;
mod osm_tables;
mod props;

use std::{
    collections::{BTreeMap, HashSet},
    fmt::Write as _,
    io::Write as _,
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
    time::Instant,
};
use util::{Ctx, Rng};

fn arg(name: &str) -> Option<String> {
    let args: Vec<String> = std::env::args().collect();
    args.iter()
        .position(|a| a == name)
        .and_then(|i| args.get(i + 1).cloned())
}

enum Outcome {
    Held,
    Violated(String),
    HarnessError(String),
}

fn run_case(prop: &str, ctx: &mut Ctx, case_seed: u64) -> Outcome {
    util::clear_dir(&ctx.dir);
    ctx.case_seed = case_seed;
    ctx.case_sig = None;
    let mut rng = Rng::new(case_seed);
    util::mark_giant(case_seed);
    match catch_unwind(AssertUnwindSafe(|| props::run(prop, ctx, &mut rng))) {
        Ok(Ok(())) => Outcome::Held,
        Ok(Err(v)) => Outcome::Violated(v.0),
        Err(_) => {
            let text = util::last_panic();
            // every call is made with valid inputs, so a panic of the code under test refutes
            if text.contains("/repo/") {
                Outcome::Violated(text)
            } else if text.contains("scratch-") || text.contains("No space left") || text.contains("Too many open") {
                Outcome::HarnessError(text)
            } else {
                // the monitors rely on the form, which graphs and files have if the property holds
                Outcome::Violated(format!("the outcome is missing or not of the expected form: {}", text))
            }
        }
    }
}

fn main() {
    util::install_panic_hook();
    // writing over a limit of the file-size has to be an error and not a signal
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
    }
    let mode = std::env::args().nth(1).unwrap_or_default();
    let prop = arg("--prop").expect("--prop");
    let dir = PathBuf::from(arg("--dir").expect("--dir"));
    std::fs::create_dir_all(&dir).expect("scratch-dir");
    let dir = dir.canonicalize().expect("scratch-dir");
    let thorough = std::env::args().any(|a| a == "--thorough");
    let mut ctx = Ctx {
        dir,
        thorough,
        counters: BTreeMap::new(),
        distinct: HashSet::new(),
        samples: Vec::new(),
        want_sample: false,
        case_seed: 0,
        case_sig: None,
    };

    if mode == "case" {
        let seed: u64 = arg("--case-seed").expect("--case-seed").parse().expect("u64");
        let (code, text) = match run_case(&prop, &mut ctx, seed) {
            Outcome::Held => (0, "held".to_owned()),
            Outcome::Violated(v) => (1, v),
            Outcome::HarnessError(e) => (2, e),
        };
        println!("{}", text);
        std::process::exit(code);
    }

    let seed: u64 = arg("--seed").expect("--seed").parse().expect("u64");
    let shard: u64 = arg("--shard").expect("--shard").parse().expect("u64");
    let cases: u64 = arg("--cases").expect("--cases").parse().expect("u64");
    let budget_ms: u128 = arg("--budget-ms").expect("--budget-ms").parse().expect("u128");
    let out = PathBuf::from(arg("--out").expect("--out"));
    let progress_path = out.with_extension("progress");

    let start = Instant::now();
    let base = util::mix(util::mix(seed, util::hash_str(&prop)), shard + 1);
    let mut done = 0u64;
    let mut violation: Option<(u64, String)> = None;
    let mut error: Option<(u64, String)> = None;
    for i in 0..cases {
        if start.elapsed().as_millis() > budget_ms {
            break;
        }
        // few cases are giant, in different shards, and later ones follow from the thorough effort
        let is_giant = match (thorough, shard % 4) {
            (false, 3) => i == 2 || i == 12,
            (true, 3) => i % 400 == 2,
            _ => false,
        };
        let case_seed = util::giant_seed(util::mix(base, i), is_giant);
        {
            // so the supervisor knows the case, if this process gets stuck or dies
            let mut f = std::fs::File::create(&progress_path).expect("progress");
            let _ = write!(f, "{} {}", i, case_seed);
        }
        ctx.want_sample = shard == 0 && ctx.samples.len() < 3 && i >= 3;
        match run_case(&prop, &mut ctx, case_seed) {
            Outcome::Held => {
                if let Some(sig) = ctx.case_sig {
                    ctx.distinct.insert(sig);
                }
            }
            Outcome::Violated(v) => {
                violation = Some((case_seed, v));
                done += 1;
                break;
            }
            Outcome::HarnessError(e) => {
                error = Some((case_seed, e));
                done += 1;
                break;
            }
        }
        done += 1;
    }
    if violation.is_none() {
        util::clear_dir(&ctx.dir);
    }

    if util::giants() > 0 {
        ctx.count("maps_beyond_two_bytes", util::giants());
    }
    let mut s = String::from("{");
    let _ = write!(s, "\"cases\":{}", done);
    let _ = write!(s, ",\"wall_ms\":{}", start.elapsed().as_millis());
    s.push_str(",\"counters\":{");
    for (i, (k, v)) in ctx.counters.iter().enumerate() {
        let _ = write!(s, "{}{}:{}", if i > 0 { "," } else { "" }, util::json_str(k), v);
    }
    s.push_str("},\"distinct\":[");
    for (i, h) in ctx.distinct.iter().enumerate() {
        let _ = write!(s, "{}\"{:x}\"", if i > 0 { "," } else { "" }, h);
    }
    s.push_str("],\"samples\":[");
    for (i, x) in ctx.samples.iter().enumerate() {
        let _ = write!(s, "{}{}", if i > 0 { "," } else { "" }, util::json_str(x));
    }
    s.push(']');
    if let Some((c, v)) = &violation {
        let _ = write!(
            s,
            ",\"violation\":{{\"case_seed\":\"{}\",\"what\":{}}}",
            c,
            util::json_str(v)
        );
    }
    if let Some((c, v)) = &error {
        let _ = write!(
            s,
            ",\"error\":{{\"case_seed\":\"{}\",\"what\":{}}}",
            c,
            util::json_str(v)
        );
    }
    s.push('}');
    std::fs::write(&out, s).expect("out-file");
    std::process::exit(if violation.is_some() {
        1
    } else if error.is_some() {
        2
    } else {
        0
    });
}
