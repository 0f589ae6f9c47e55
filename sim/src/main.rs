//! Deterministic simulation of chopper. See /verif/DESIGN.md.
#![allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
mod args;
mod case;
mod codec;
mod cov;
mod gen;
mod libmain;
mod model;
mod oracle;
mod props;
mod rng;
mod run;
mod runner;
mod scen_cli;
mod scen_flow;
mod scen_graph;
mod scen_infi;
mod scen_jobs;
mod scen_dcgen;
mod simos;
mod usrc;

use oracle::Verdict;
use runner::{Ctx, Replay};
use std::time::Duration;

#[global_allocator]
static A: simos::CountingAlloc = simos::CountingAlloc;

fn arg(v: &[String], name: &str) -> Option<String> {
    v.iter().position(|a| a == name).and_then(|i| v.get(i + 1).cloned())
}

fn main() {
    let all: Vec<String> = std::env::args().collect();
    if !all.iter().any(|a| a == args::PAD) {
        use std::os::unix::process::CommandExt;
        let mut c = std::process::Command::new("/proc/self/exe");
        c.args(&all[1..]);
        for _ in 0..args::PAD_N {
            c.arg(args::PAD);
        }
        let e = c.exec();
        eprintln!("cannot start again: {}", e);
        std::process::exit(3);
    }
    let a: Vec<String> = all.into_iter().skip(1).filter(|x| x != args::PAD).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => check(&a),
        Some("replay") => replay(&a[1]),
        Some("one") => one(&a),
        Some("determinism") => determinism(&a),
        _ => {
            eprintln!("usage: chopsim check <ID> [--tier quick|thorough] [--seed N] [--count N] [--workers N] [--verif DIR] | replay <file> | one <ID> <seed> <index> | determinism");
            2
        }
    };
    std::process::exit(code);
}

fn seed_of(a: &[String]) -> u64 {
    arg(a, "--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn check(a: &[String]) -> i32 {
    let id = &a[1];
    let Some(p) = props::find(id) else {
        eprintln!("unknown property {}", id);
        return 2;
    };
    if (id == "C14" && !scen_dcgen::available()) || (id == "C20" && !scen_infi::available()) {
        eprintln!("the program this property is about does not build");
        return 2;
    }
    let tier = arg(a, "--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let thorough = tier == "thorough";
    let seed = seed_of(a);
    let verif = arg(a, "--verif").unwrap_or("/verif".into());
    let workers: u64 = arg(a, "--workers").and_then(|s| s.parse().ok()).unwrap_or(8);
    let count: u64 = arg(a, "--count").and_then(|s| s.parse().ok()).unwrap_or(if thorough { p.thorough } else { p.quick });
    let wall: u64 = arg(a, "--wall").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 7200 } else { 240 });
    let known = props::known_findings(&verif, id);
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", id, k);
    }
    // code under test reports its failures on stderr of the simulated process; the harness's own
    // panics (while shrinking) are not interesting
    std::panic::set_hook(Box::new(|i| {
        if !simos::is_active() {
            if std::env::var("SIM_DEBUG").is_ok() {
                eprintln!("harness panic: {}", i);
            }
        } else {
            simos::report_panic(&i.to_string());
        }
    }));
    cov::share();
    let s = runner::search(&p, seed, count, workers, thorough, Duration::from_secs(wall), &|c, cl, d| props::is_known(&known, c, cl, d));
    let mut replay_path = None;
    if let Some(f) = &s.found {
        simos::map_arena();
        let (m, evals) = runner::minimise(&p, f, 400, Duration::from_secs(60));
        let mut cx = Ctx { trace: Some(vec![]), ..Default::default() };
        let v = runner::evaluate(&p, &m.case, &mut cx);
        let (class, detail) = match v {
            Verdict::Violation { class, detail } => (class, detail),
            v => ("unstable".into(), format!("the minimised case did not repeat: {:?}", v)),
        };
        let rep = Replay { property: id.clone(), class, detail, seed, index: f.index, digest: cx.digest, trace: cx.trace.take().unwrap(), case: m.case };
        let dir = format!("{}/replays", verif);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}-{}.json", dir, id, seed, f.index);
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).expect("cannot write the replay file");
        println!("violation class={} seed={} case={} minimised in {} evaluations", rep.class, seed, f.index, evals);
        println!("  {}", rep.detail.replace('\n', "\n  "));
        replay_path = Some(path);
    }
    if let Err(e) = props::write_evidence(&verif, &p, &tier, seed, workers, &s, replay_path.as_deref()) {
        eprintln!("cannot write the evidence file: {}", e);
        return 3;
    }
    println!(
        "{}: {} cases, {} simulated runs, {} distinct event sequences, {:.1} s{}{}",
        id,
        s.stats.cases,
        s.stats.runs,
        s.stats.hashes.len(),
        s.wall.as_secs_f64(),
        if s.stats.inconclusive > 0 { format!(", {} without verdict", s.stats.inconclusive) } else { String::new() },
        if s.stats.capped { ", stopped by the time limit" } else { "" }
    );
    match replay_path {
        Some(p) => {
            println!("VIOLATION property={} replay={}", id, p);
            1
        }
        None => {
            if let Some(f) = arg(a, "--blocks") {
                let t: String = cov::blocks().iter().map(|(pc, seen)| format!("{:x} {}\n", pc, *seen as u8)).collect();
                let _ = std::fs::write(f, t);
            }
            0
        }
    }
}

fn replay(path: &str) -> i32 {
    let s = match std::fs::read_to_string(path) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return 2;
        }
    };
    let rep: Replay = match serde_json::from_str(&s) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return 2;
        }
    };
    let Some(p) = props::find(&rep.property) else { return 2 };
    std::panic::set_hook(Box::new(|i| {
        if simos::is_active() {
            simos::report_panic(&i.to_string());
        }
    }));
    simos::map_arena();
    let mut cx = Ctx { trace: Some(vec![]), ..Default::default() };
    let v = runner::evaluate(&p, &rep.case, &mut cx);
    for l in cx.trace.as_ref().unwrap() {
        println!("{}", l);
    }
    match v {
        Verdict::Violation { class, detail } => {
            println!("violation class={} {}", class, detail);
            println!("digest {:016x} ({})", cx.digest, if cx.digest == rep.digest && class == rep.class { "identical to the recorded execution" } else { "DIFFERS from the recorded execution" });
            println!("VIOLATION property={} replay={}", rep.property, path);
            1
        }
        v => {
            println!("no violation: {:?}", v);
            0
        }
    }
}

fn one(a: &[String]) -> i32 {
    let p = props::find(&a[1]).expect("property");
    let seed: u64 = a[2].parse().unwrap();
    let index: u64 = a[3].parse().unwrap();
    let thorough = a.iter().any(|x| x == "--thorough");
    std::panic::set_hook(Box::new(|i| {
        if simos::is_active() {
            simos::report_panic(&i.to_string());
        } else {
            eprintln!("harness panic: {}", i);
        }
    }));
    simos::map_arena();
    let c = runner::gen_case(&p, seed, index, thorough);
    if a.iter().any(|x| x == "--show") {
        println!("{}", serde_json::to_string_pretty(&c).unwrap());
    }
    let mut cx = Ctx { trace: Some(vec![]), ..Default::default() };
    let v = runner::evaluate(&p, &c, &mut cx);
    for l in cx.trace.as_ref().unwrap() {
        println!("{}", l);
    }
    println!("{:?} digest {:016x}", v, cx.digest);
    0
}

/// the same seeds executed twice, with different worker counts, must do exactly the same
fn determinism(a: &[String]) -> i32 {
    let seed = seed_of(a);
    let count: u64 = arg(a, "--count").and_then(|s| s.parse().ok()).unwrap_or(150);
    std::panic::set_hook(Box::new(|i| {
        if simos::is_active() {
            simos::report_panic(&i.to_string());
        }
    }));
    let mut rc = 0;
    for p in props::all() {
        let w = Duration::from_secs(600);
        let x = runner::search(&p, seed, count, 8, false, w, &|_, _, _| true);
        let y = runner::search(&p, seed, count, 3, false, w, &|_, _, _| true);
        let same = x.stats.world_fp == y.stats.world_fp && x.stats.runs == y.stats.runs && x.stats.hashes == y.stats.hashes;
        println!("{}: {} runs, fingerprint {:016x} / {:016x} {}", p.id, x.stats.runs, x.stats.world_fp, y.stats.world_fp, if same { "identical" } else { "DIFFERENT" });
        if !same {
            rc = 1;
        }
    }
    rc
}
