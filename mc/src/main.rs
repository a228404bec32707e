//! Model checking of ruplicity: `mc <ID> [--tier quick|thorough] [--replay FILE] [--only HARNESS]`.
#[macro_use]
mod engine;
mod model;
mod props;
mod sys;
mod world;

use engine::{Ctx, Tier};
use std::path::PathBuf;

#[global_allocator]
static GUARD: sys::Guard = sys::Guard;

fn known_findings(root: &std::path::Path, property: &str) -> std::collections::BTreeMap<String, String> {
    // lines "KNOWN property=<id> key=<text of the violation that identifies it> :: <what fails>"
    let mut m = std::collections::BTreeMap::new();
    if let Ok(t) = std::fs::read_to_string(root.join("known_findings.txt")) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix(&format!("KNOWN property={} key=", property)) {
                if let Some((k, what)) = r.split_once(" :: ") {
                    m.insert(k.to_string(), what.to_string());
                }
            }
        }
    }
    m
}

fn parse_replay(path: &str) -> Option<(String, Vec<u32>)> {
    let t = std::fs::read_to_string(path).ok()?;
    let field = |k: &str| -> Option<String> {
        let i = t.find(&format!("\"{}\":", k))? + k.len() + 3;
        Some(t[i..].trim_start().to_string())
    };
    let h = field("harness")?;
    let h = h.trim_start_matches('"').split('"').next()?.to_string();
    let c = field("choices")?;
    let c = c.trim_start_matches('[').split(']').next()?;
    Some((h, c.split(',').filter_map(|x| x.trim().parse().ok()).collect()))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut id = None;
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut replay = None;
    let mut only = None;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => {
                i += 1;
                tier = if args[i] == "thorough" { Tier::Thorough } else { Tier::Quick };
            }
            "--replay" => {
                i += 1;
                replay = Some(parse_replay(&args[i]).unwrap_or_else(|| {
                    eprintln!("cannot read {}", args[i]);
                    std::process::exit(2)
                }));
            }
            "--only" => {
                i += 1;
                only = Some(args[i].clone());
            }
            a => id = Some(a.to_string()),
        }
        i += 1;
    }
    let id = id.unwrap_or_else(|| {
        eprintln!("usage: mc <ID> [--tier quick|thorough] [--replay FILE] [--only HARNESS]");
        std::process::exit(2)
    });
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let root = PathBuf::from(std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into()));
    unsafe {
        let lim = libc::rlimit { rlim_cur: 14 << 30, rlim_max: 14 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
    sys::set_tz("UTC");
    engine::install_panic_hook();
    engine::install_signal_handlers();
    let mut ctx = Ctx::new(&id, tier, seed, root.clone());
    ctx.known = known_findings(&root, &id);
    ctx.replay = replay;
    ctx.only = only;
    if !props::run(&id, &mut ctx) {
        eprintln!("unknown property {}", id);
        std::process::exit(2);
    }
    std::process::exit(ctx.finish());
}
