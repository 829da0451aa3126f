//! Runtime monitors for obsidian: runs one property's workload and judges what it observed.
mod alloc;
mod core;
mod h2;
mod http;
mod p_body;
mod p_chain;
mod p_conc;
mod p_cost;
mod p_ctx;
mod p_decode;
mod p_hostile;
mod p_indep;
mod p_leak;
mod p_logger;
mod p_resp;
mod p_routing;
mod p_sanit;
mod p_serve;
mod p_slow;
mod p_static;
mod p_stream;
mod spec;

use crate::core::*;
use std::fs::File;
use std::io::Write;
use std::os::fd::FromRawFd;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    let mut prop = String::new();
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_default();
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut only = None;
    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        match a.as_str() {
            "--tier" => tier = args.next().unwrap_or_default(),
            "--seed" => seed = args.next().and_then(|s| s.parse().ok()).expect("seed"),
            "--replay" => {
                let p = args.next().expect("replay file");
                let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&p).expect("replay file")).expect("replay json");
                seed = v["seed"].as_u64().unwrap();
                tier = v["tier"].as_str().unwrap_or("quick").into();
                only = Some((v["phase"].as_str().unwrap().to_string(), v["case"].as_u64().unwrap()));
            }
            p => prop = p.into(),
        }
    }
    if prop == "interpreted" {
        let scale = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        return p_sanit::interpreted(seed, scale);
    }
    if std::env::args().nth(1).map_or(false, |a| a == "starved") {
        install_panic_monitor();
        return p_serve::starved();
    }
    // The library prints a lot; keep the real stdout for the verdict.
    let mut out = unsafe {
        let o = libc::dup(1);
        let log = std::env::var("VERIF_LOG").unwrap_or_else(|_| "/dev/null".into());
        let f = std::fs::OpenOptions::new().append(true).create(true).open(&log).expect("log");
        use std::os::fd::AsRawFd;
        libc::dup2(f.as_raw_fd(), 1);
        if std::env::var("VERIF_STDERR").is_err() {
            libc::dup2(f.as_raw_fd(), 2);
        }
        libc::signal(libc::SIGPIPE, libc::SIG_IGN);
        let mut rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut rl);
        rl.rlim_cur = rl.rlim_max;
        libc::setrlimit(libc::RLIMIT_NOFILE, &rl);
        File::from_raw_fd(o)
    };
    install_panic_monitor();
    let cx = Cx::new(&prop, seed, tier == "thorough", only);
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let fin = Fin {
        evidence: format!("{root}/evidence/{prop}.json"),
        replay_dir: format!("{root}/replays"),
        known: Known::load(&format!("{root}/known_findings.txt")),
    };
    watchdog(cx.clone(), fin.clone(), out.try_clone().unwrap());
    let run: fn(&std::sync::Arc<Cx>) = match prop.as_str() {
        "C01" => p_routing::c01,
        "C02" => p_routing::c02,
        "C03" => p_routing::c03,
        "C04" => p_routing::c04,
        "C05" => p_routing::c05,
        "C06" => p_chain::c06,
        "C07" => p_routing::c07,
        "C08" => p_resp::c08,
        "C09" => p_resp::c09,
        "C10" => p_decode::c10,
        "C22" => p_decode::c22,
        "C13" => p_conc::c13,
        "C14" => p_conc::c14,
        "C17" => p_conc::c17,
        "C19" => p_conc::c19,
        "C24" => p_conc::c24,
        "C15" => p_static::c15,
        "C16" => p_static::c16,
        "C21" => p_logger::c21,
        "C12" => p_hostile::c12,
        "C23" => p_leak::c23,
        "C11" => p_body::c11,
        "C20" => p_body::c20,
        "C25" => p_ctx::c25,
        "C26" => p_indep::c26,
        "C27" => p_stream::c27,
        "C28" => p_cost::c28,
        "C29" => p_serve::c29,
        _ => {
            let _ = writeln!(out, "unknown property {prop}");
            std::process::exit(2);
        }
    };
    run(&cx);
    core::remove_scratch();
    let code = cx.finish(&mut out, &fin);
    let _ = out.flush();
    // Skip destructors: server threads may still be busy.
    unsafe { libc::_exit(code) }
}
