#![allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions, dead_code)]
mod codec;
mod drive;
mod hashser;
mod model;
mod maps;
mod mpq;
mod props;
mod protos;
mod runner;
mod scenario;
mod sim;
mod tables;
mod world;
use sim::*;
#[global_allocator]
static A: Alloc = Alloc;

fn main() {
    install_panic_hook();
    init_map();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let flag = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let num = |n: &str| flag(n).and_then(|x| x.parse::<u64>().ok());
    let env = |n: &str| std::env::var(n).ok();
    let seed = num("--seed").or(env("VERIF_SEED").and_then(|s| s.parse().ok())).unwrap_or(1);
    let tier = flag("--tier").or(env("VERIF_TIER")).unwrap_or("quick".into());
    let thorough = tier == "thorough";
    let code = match (a.first().map(|s| s.as_str()), a.get(1)) {
        (Some("check"), Some(id)) => runner::check(
            id,
            &runner::Opt {
                thorough,
                seed,
                workers: num("--procs").unwrap_or(8) as usize,
                jobs: num("--jobs"),
                secs: num("--secs"),
                dry: a.iter().any(|x| x == "--dry"),
            },
        ),
        (Some("replay"), Some(f)) => runner::replay(f),
        (Some("job"), Some(id)) => runner::job(id, seed, num("--i").unwrap_or(0), thorough),
        (Some("determinism"), x) => {
            runner::determinism(num("--jobs").unwrap_or(20), seed, x.map(|s| s.as_str()).filter(|s| !s.starts_with('-')))
        }
        (Some("list"), _) => {
            for d in props::defs() {
                println!("{} {} {}", d.id, d.quick, d.level);
            }
            0
        }
        _ => {
            eprintln!("s2sim check ID [--tier quick|thorough] [--seed N] [--jobs N] [--secs N] | replay FILE | job ID --i N | determinism [ID] | list");
            2
        }
    };
    std::process::exit(code);
}
