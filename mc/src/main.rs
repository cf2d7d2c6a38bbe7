mod alg;
mod conv;
mod cross;
mod ec;
mod engine;
mod hist;
mod mf;
mod num;
mod poly;
mod refm;
mod refuse;

use engine::*;
use std::path::{Path, PathBuf};

static PROPS: &[&Prop] = &[&ec::C01, &ec::C02, &ec::C03, &ec::C04, &ec::C05, &ec::C06, &ec::C22,
    &num::C07, &num::C08,
    &poly::C09, &poly::C10, &poly::C11, &poly::C12, &poly::C13,
    &mf::C14, &mf::C15, &mf::C16, &mf::C20, &mf::C21, &refuse::C26, &hist::C25,
    &alg::C17, &alg::C18, &alg::C19, &alg::C23, &alg::C24, &alg::C27, &alg::C28, &cross::C29,
];

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let tier = match get("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let find = |id: &str| PROPS.iter().find(|p| p.id == id).copied();
    let code = match cmd {
        "list" => {
            for p in PROPS {
                println!("{}", p.id);
            }
            0
        }
        "check" => match args.get(2).and_then(|i| find(i)) {
            Some(p) => supervise(p, tier, seed, Path::new(&get("--root").unwrap_or(String::from("/verif")))),
            None => 2,
        },
        "worker" => match args.get(2).and_then(|i| find(i)) {
            Some(p) => worker(
                p,
                tier,
                WorkerOpts {
                    only: get("--only").and_then(|s| s.parse().ok()),
                    upto: get("--upto").and_then(|s| s.parse().ok()),
                    threads: get("--threads").and_then(|s| s.parse().ok()).unwrap_or(1),
                    out: PathBuf::from(get("--out").unwrap()),
                    trace: get("--trace").map(PathBuf::from),
                },
            ),
            None => 2,
        },
        "hist-run" => hist::run(&args[2], &args[3]),
        "replay" => replay(args.get(2).map(|s| s.as_str()).unwrap_or(""), PROPS),
        _ => 2,
    };
    std::process::exit(code);
}
