#![allow(dead_code)]
#![allow(unexpected_cfgs)]
mod common;
mod lits;
mod net;
mod odes;
mod tab;
mod p_fixed;
mod p_adapt;
mod p_walk;
mod p_net;
mod p_util;
mod gen;
mod p_macro;
mod p_py;
mod sim;

use common::*;
use std::path::PathBuf;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into()));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    if args.get(1).map(String::as_str) == Some("child-run") {
        return p_util::child_run(args.get(2).map(String::as_str) == Some("true"));
    }
    install_panic_hook();
    monitor::start();
    let id = args.get(1).cloned().unwrap_or_default();
    let replay = args.get(2).map(PathBuf::from);
    // watchdog: never a verdict, only an error exit
    let limit = match tier {
        Tier::Quick => 700,
        Tier::Thorough => 6 * 3600,
    };
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(limit));
        eprintln!("ERROR: time limit reached, inconclusive");
        std::process::exit(3);
    });
    let mut ctx = Ctx::new(&id, tier, seed, replay, verif);
    match id.as_str() {
        "C01" => p_fixed::c01(&mut ctx),
        "C02" => p_fixed::c02(&mut ctx),
        "C07" => p_fixed::c07(&mut ctx),
        "C03" => p_adapt::c03(&mut ctx),
        "C04" => p_adapt::c04(&mut ctx),
        "C05" => p_adapt::c05(&mut ctx),
        "C08" => p_adapt::c08(&mut ctx),
        "C06" => p_walk::c06(&mut ctx),
        "C13" => p_walk::c13(&mut ctx),
        "C14" => p_walk::c14(&mut ctx),
        "C16" => {
            p_walk::c16(&mut ctx);
            gen::run(&mut ctx)
        }
        "C09" => p_net::c09(&mut ctx),
        "C10" => p_net::c10(&mut ctx),
        "C11" => p_net::c11(&mut ctx),
        "C12" => p_net::c12(&mut ctx),
        "C23" => p_net::c23(&mut ctx),
        "C15" => p_util::c15(&mut ctx),
        "C17" => {
            p_util::c17(&mut ctx);
            gen::run(&mut ctx)
        }
        "C20" => p_macro::c20(&mut ctx),
        "C21" => {
            p_net::c21(&mut ctx);
            gen::run(&mut ctx)
        }
        "C18" | "C19" => gen::run(&mut ctx),
        "C24" => p_util::c24(&mut ctx),
        "C25" => p_util::c25(&mut ctx),
        "C26" => p_py::c26(&mut ctx),
        "C27" => p_py::c27(&mut ctx),
        "C28" => p_util::c28(&mut ctx),
        "C22" => p_adapt::c22(&mut ctx),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
    std::process::exit(ctx.finish());
}
