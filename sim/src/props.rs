//! The properties: how cases are made, how runs are judged, how many are run.
use crate::case::CliCase;
use crate::oracle::Verdict;
use crate::rng::Rng;
use crate::runner::{Ctx, Search};
use crate::scen_cli::{self, CrashCase};
use crate::scen_dcgen::{self, GenCase};
use crate::scen_flow::{self, EndlessCase, MemCase};
use crate::scen_graph::{self, GraphCase};
use crate::scen_infi;
use crate::scen_jobs;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Scen {
    /// one run, judged against the model
    Cli(CliCase),
    /// damaged containers: only truncation leaves a prefix to compare
    Damaged(CliCase),
    /// the same bytes delivered calmly and as described
    Delivery(CliCase),
    /// the same data as plain local files and as described; unpack = containers and routes too
    Variant { case: CliCase, unpack: bool },
    Crash(CrashCase),
    RoundTrip(CliCase),
    Graph(GraphCase),
    Gen(GenCase),
    Mem(MemCase),
    Endless(EndlessCase),
    Infi(scen_infi::InfiCase),
    Jobs(scen_jobs::JobsCase),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    pub prop: String,
    pub seed: u64,
    pub index: u64,
    pub scen: Scen,
}

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub gen: fn(&mut Rng, u64, bool) -> Scen,
    pub eval: fn(&Case, &mut Ctx) -> Verdict,
    pub rule: &'static str,
}

pub fn eval(case: &Case, cx: &mut Ctx) -> Verdict {
    match &case.scen {
        Scen::Cli(c) => scen_cli::eval_model(c, cx, true),
        Scen::Damaged(c) => {
            use crate::case::Damage;
            let cut = c.inputs.iter().flat_map(|i| i.files.iter()).all(|f| f.damage.iter().all(|d| matches!(d, Damage::Cut(_))));
            scen_cli::eval_model(c, cx, cut)
        }
        Scen::Delivery(c) => scen_cli::eval_delivery(c, cx),
        Scen::Variant { case, unpack } => scen_cli::eval_variant(case, cx, *unpack),
        Scen::Crash(c) => scen_cli::eval_crash(c, cx),
        Scen::RoundTrip(c) => scen_cli::eval_roundtrip(c, cx),
        Scen::Graph(c) => scen_graph::eval(c, cx),
        Scen::Gen(c) => scen_dcgen::eval(c, cx),
        Scen::Mem(c) => scen_flow::eval_mem(c, cx),
        Scen::Endless(c) => scen_flow::eval_endless(c, cx),
        Scen::Infi(c) => scen_infi::eval(c, cx),
        Scen::Jobs(c) => scen_jobs::eval(c, cx),
    }
}

pub fn shrink(s: &Scen) -> Vec<Scen> {
    match s {
        Scen::Cli(c) => scen_cli::shrink_cli(c).into_iter().map(Scen::Cli).collect(),
        Scen::Damaged(c) => scen_cli::shrink_cli(c).into_iter().map(Scen::Damaged).collect(),
        Scen::Delivery(c) => scen_cli::shrink_cli(c).into_iter().map(Scen::Delivery).collect(),
        Scen::Variant { case, unpack } => scen_cli::shrink_cli(case).into_iter().map(|case| Scen::Variant { case, unpack: *unpack }).collect(),
        Scen::RoundTrip(c) => scen_cli::shrink_cli(c).into_iter().map(Scen::RoundTrip).collect(),
        Scen::Graph(c) => scen_graph::shrink(c).into_iter().map(Scen::Graph).collect(),
        Scen::Gen(c) => scen_dcgen::shrink(c).into_iter().map(Scen::Gen).collect(),
        Scen::Mem(c) => scen_flow::shrink_mem(c).into_iter().map(Scen::Mem).collect(),
        Scen::Endless(c) => scen_flow::shrink_endless(c).into_iter().map(Scen::Endless).collect(),
        Scen::Infi(c) => scen_infi::shrink(c).into_iter().map(Scen::Infi).collect(),
        Scen::Jobs(c) => scen_jobs::shrink(c).into_iter().map(Scen::Jobs).collect(),
        Scen::Crash(c) => {
            let mut v: Vec<Scen> = scen_cli::shrink_cli(&c.case).into_iter().map(|case| Scen::Crash(CrashCase { case, ..c.clone() })).collect();
            for i in 0..c.at.len() {
                let mut d = c.clone();
                d.at.remove(i);
                v.push(Scen::Crash(d));
            }
            v
        }
    }
}

/// some cases are executed by a program written against the library
pub fn vary(r: &mut Rng, id: &str, s: &mut Scen) {
    let c = match s {
        Scen::Cli(c) | Scen::Damaged(c) | Scen::Delivery(c) | Scen::RoundTrip(c) | Scen::Variant { case: c, .. } => c,
        Scen::Crash(c) => &mut c.case,
        _ => return,
    };
    scen_cli::as_library(r, c, if id == "C08" { 4 } else { 12 });
}

pub fn all() -> Vec<Prop> {
    let p = |id, quick, thorough, gen, rule| Prop { id, quick, thorough, gen, eval, rule };
    vec![
        p("C01", 150000, 2_400_000, |r, _, _| Scen::Cli(scen_cli::gen_c01(r)), "2 to 6 (sometimes more) inputs of tables with many equal timestamps, some empty or out of range, under random delivery; output compared with the reference merge"),
        p("C02", 150000, 1_600_000, |r, _, _| Scen::Graph(scen_graph::gen(r, false)), "random graphs of chains, splits, merges, filters and multi-row nodes over random histories, every recorder compared with the reference graph"),
        p("C03", 40000, 800_000, |r, _, _| Scen::Delivery(scen_cli::gen_c03(r)), "any command line and inputs (also damaged ones), executed once calmly and once with short and interrupted reads and writes, delays, other clock and hash seeds; outcome and output compared"),
        p("C04", 100000, 2_400_000, |r, _, _| Scen::Cli(scen_cli::gen_c04(r)), "one or two faults (read, open, stat, seek, listing errors, early ends) on random inputs at random points"),
        p("C05", 100000, 2_000_000, |r, _, _| Scen::Cli(scen_cli::gen_c05(r)), "write and create faults at random output offsets, and inputs that cannot be opened, with and without an older output file"),
        p("C06", 80000, 2_400_000, |r, _, _| Scen::Damaged(scen_cli::gen_c06(r)), "checksummed containers truncated or altered at random places"),
        p("C07", 60000, 1_000_000, |r, _, _| Scen::RoundTrip(scen_cli::gen_c07(r)), "tables of every column type and many widths encoded by an independent encoder, read and written by chopper, decoded by an independent decoder and read back"),
        p("C08", 100000, 2_400_000, |r, _, _| Scen::Cli(scen_cli::gen_c08(r)), "directories in random listing order with sub-directories, reordered and extra columns, with and without listing/open/read faults"),
        p(
            "C09",
            60000,
            1_600_000,
            |r, i, _| if i % 4 == 3 { Scen::Endless(scen_flow::gen_endless(r)) } else { Scen::Cli(scen_cli::gen_c09(r)) },
            "begin/end bounds at, next to and between timestamps; inputs that never end",
        ),
        p("C10", 250, 30_000, |r, _, _| Scen::Mem(scen_flow::gen_mem(r)), "the same kind of input in two lengths, one eight times the other; peak of allocated memory and distance between consumed input and produced output compared with a bound"),
        p("C11", 150000, 1_600_000, |r, i, _| Scen::Graph(scen_graph::gen(r, i % 4 != 3)), "random graphs with one error raised by a source, a node, a flush or a file sink; and without error, where every sink must be flushed after its last row"),
        p(
            "C12",
            50000,
            800_000,
            |r, i, _| {
                if i % 2 == 0 {
                    Scen::Variant { case: scen_cli::gen_c12(r), unpack: false }
                } else {
                    Scen::Cli(scen_cli::gen_c12_fault(r))
                }
            },
            "HTTP inputs with random segmentation, framing and redirects compared with the same bytes in a local file; and HTTP faults",
        ),
        p("C13", 35000, 800_000, |r, _, _| Scen::Crash(scen_cli::gen_c13(r)), "the process dies at a random operation or inside a write, then runs again over what it left behind or over an older file"),
        p("C14", 40000, 1_000_000, |r, _, _| Scen::Gen(scen_dcgen::gen(r)), "the generator's output file with short, interrupted and failing writes, old contents and crashes"),
        p("C15", 45000, 1_000_000, |r, _, _| Scen::Variant { case: scen_cli::gen_c15(r), unpack: true }, "random containers, transports and detection routes compared with the plain file recognised by name"),
        p("C16", 150000, 2_400_000, |r, _, _| Scen::Cli(scen_cli::gen_c16(r)), "text inputs with short, empty, quoted and over-long records and impossible times"),
        p("C20", 3000, 150_000, |r, _, _| Scen::Infi(scen_infi::gen(r)), "one to three endless streams of the sample server, plain and compressed, fetched and merged by chopper up to a bound, until the output closes or until a connection breaks"),
        p("C21", 30000, 800_000, |r, _, _| Scen::Jobs(scen_jobs::gen(r)), "two to four jobs of a program that uses the library, in threads that take turns at every simulated operation, allocation and lock as the seed says or one after another, some with faults; each judged as if it were alone"),
    ]
}

pub fn find(id: &str) -> Option<Prop> {
    all().into_iter().find(|p| p.id == id)
}

// ------------------------------------------------------------------ known findings

pub fn known_findings(verif: &str, id: &str) -> Vec<String> {
    let s = std::fs::read_to_string(format!("{}/known_findings.txt", verif)).unwrap_or_default();
    s.lines().filter_map(|l| l.strip_prefix(&format!("finding: property={} ", id)).map(|x| x.to_string())).collect()
}
/// an entry reads `class=<class> match=<text in the detail> <description>`; text ends at " | "
pub fn is_known(known: &[String], _c: &Case, class: &str, detail: &str) -> bool {
    known.iter().any(|k| {
        let Some(rest) = k.strip_prefix("class=") else { return false };
        let Some((cl, rest)) = rest.split_once(' ') else { return false };
        let Some(rest) = rest.strip_prefix("match=") else { return false };
        let m = rest.split(" | ").next().unwrap_or("");
        cl == class && !m.is_empty() && detail.contains(m)
    })
}

// ------------------------------------------------------------------ evidence

pub fn write_evidence(verif: &str, p: &Prop, tier: &str, seed: u64, workers: u64, s: &Search, replay: Option<&str>) -> std::io::Result<()> {
    let secs = s.wall.as_secs_f64().max(0.001);
    let st = &s.stats;
    let mut samples: Vec<Value> = Vec::new();
    for i in 0..2u64 {
        let c = crate::runner::gen_case(p, seed, i, tier == "thorough");
        let mut t = serde_json::to_string(&c).unwrap();
        if t.len() > 6000 {
            let mut e = 6000;
            while !t.is_char_boundary(e) {
                e -= 1;
            }
            t.truncate(e);
            t.push('…');
        }
        samples.push(json!({"index": i, "case": t}));
    }
    let (real, stub) = components(p.id);
    let v = json!({
        "property": p.id,
        "tier": if tier == "thorough" { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "wall_s": secs,
        "violations": s.found.is_some() as u64,
        "coverage": {
            "evaluations": st.cases,
            "distinct_nontrivial": st.hashes.len(),
            "rule": format!("{}. A case is a pure function of (seed, property, index). distinct_nontrivial counts distinct simulated executions: different hashes over the full sequence of simulated operations with their arguments and results.", p.rule),
            "samples": samples,
            "simulated_runs": st.runs,
            "runs_per_hour": (st.runs as f64 / secs * 3600.0) as u64,
            "seeds_per_hour": (st.cases as f64 / secs * 3600.0) as u64,
            "simulated_operations": st.ops,
            "simulated_seconds": st.sim_ns as f64 / 1e9,
            "library_basic_blocks": {"reached": crate::cov::reached().0, "in_all": crate::cov::reached().1},
            "workers": workers,
            "faults_injected": st.faults,
            "benign_events": st.counters,
            "reached": st.probes,
            "without_verdict": st.inconclusive,
            "without_verdict_reasons": st.inconclusive_why,
            "stopped_by_time_limit": st.capped,
            "fingerprint": format!("{:016x}", st.world_fp),
            "real_components": real,
            "stub_components": stub,
            "replay": replay,
        },
        "assumptions": [
            "the simulated operating system in sim/src/simos.rs behaves like Linux for the calls the code under test makes",
            "the reference model in sim/src/model.rs and the encoders in sim/src/codec.rs describe the intended behaviour"
        ]
    });
    let dir = format!("{}/evidence", verif);
    std::fs::create_dir_all(&dir)?;
    std::fs::write(format!("{}/{}.json", dir, p.id), serde_json::to_string_pretty(&v).unwrap())
}

fn components(id: &str) -> (Vec<&'static str>, Vec<&'static str>) {
    match id {
        "C14" => (vec!["util/dcgen main program", "Rust standard library"], vec!["system calls (files, clock, randomness)"]),
        "C20" => (
            vec!["the streams of util/infistream", "the whole command line tool with its HTTP client", "Rust standard library above the system call layer"],
            vec!["the web server around the streams (framing of a streaming body as actix-web 0.7 does it)", "system calls"],
        ),
        "C21" => (
            vec!["the library from input factory to sinks, as a program of several threads uses it", "HTTP client and all dependencies", "Rust standard library above the system call layer, its locks included"],
            vec!["the choice of the running thread", "system calls"],
        ),
        "C02" | "C11" => (vec!["driver, merging, header graph, split, merge join, filters", "Rust standard library"], vec!["sources, recording sinks and error injectors are harness components plugged into the library's traits"]),
        _ => (
            vec!["the whole command line tool (argument parsing, transports, decompression, sources, driver, sinks, exit status)", "HTTP client and all dependencies", "Rust standard library above the system call layer"],
            vec!["system calls: files, directories, standard streams, sockets, name resolution, clock, randomness", "HTTP server", "heap accounting"],
        ),
    }
}
