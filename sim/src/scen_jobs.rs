//! Several jobs in one process, in threads that take turns as the seed says or one after another: each
//! is a program written against the library (see libmain), and is judged as if it were alone.
use crate::case::{build, Built, CliCase, Loc};
use crate::gen::{self, Knobs};
use crate::oracle::{self, bad, exit_sane, Verdict};
use crate::rng::Rng;
use crate::run::{self, Exit, RunResult};
use crate::runner::Ctx;
use crate::scen_cli::{self, shrink_cli};
use crate::simos::{self, Fault, World};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct JobsCase {
    pub jobs: Vec<CliCase>,
    /// steps between two changes of the running thread, on average; 0: one job after the other
    pub turn: u64,
    /// every basic block of the library is such a step; otherwise operations, allocations and locks are
    #[serde(default)]
    pub fine: bool,
    pub seed: u64,
}

/// names that no other job uses
fn own(c: &mut CliCase, k: usize) {
    for i in &mut c.inputs {
        match &mut i.loc {
            Loc::Dir { path, .. } => *path = format!("j{}{}", k, path),
            loc => {
                if let Loc::Http(h) = loc {
                    h.host = format!("j{}{}", k, h.host);
                }
                for f in &mut i.files {
                    f.stem = format!("j{}{}", k, f.stem);
                }
            }
        }
    }
    match &mut c.out {
        Some(o) => *o = format!("j{}{}", k, o),
        None if k > 0 => c.out = Some(format!("j{}o.csv", k)),
        None => {}
    }
    for (name, v) in std::mem::take(&mut c.env) {
        // the environment is common to all
        if name == "CHOPPER_TZ" && !c.args.iter().any(|a| a == "-z" || a == "--timezone") {
            c.args.extend(["-z".to_string(), v]);
        }
    }
}

pub fn gen(r: &mut Rng) -> JobsCase {
    let n = match r.below(8) {
        0 => 4,
        1 | 2 => 3,
        _ => 2,
    };
    let fine = r.chance(1, 2);
    let turn = match r.below(8) {
        0 | 1 => 0,
        _ if fine => *r.pick(&[30, 100, 300, 1000, 3000]),
        2 => 1,
        3 => 3,
        4 | 5 => 10,
        6 => 60,
        _ => 400,
    };
    let seed = r.u64();
    // sometimes jobs are alike
    let same = r.chance(2, 5);
    let mut jobs: Vec<CliCase> = vec![];
    for k in 0..n {
        let mut c = if same && k > 0 && r.chance(2, 3) {
            let mut c = jobs[0].clone();
            c.faults.clear();
            if r.chance(2, 3) {
                gen::other_output(r, &mut c);
            }
            c
        } else if same && k == 0 && r.chance(1, 2) {
            // without text inputs
            gen::gen_cli(r, &Knobs { inputs: (1, 2), max_rows: 5, long: 0, many: 0, stdin: 0, csv: 0, ranges: 0, ..Default::default() })
        } else {
            gen::gen_cli(r, &Knobs { inputs: (1, 3), max_rows: 12, long: 0, many: 0, stdin: if k == 0 { 10 } else { 0 }, http: 5, dir: 6, cont: 20, big: 1, old_out: 15, benign: 20, ..Default::default() })
        };
        if same && k > 0 && c.inputs.iter().any(|i| matches!(i.loc, Loc::Stdin)) {
            c = gen::gen_cli(r, &Knobs { inputs: (1, 3), max_rows: 12, long: 0, many: 0, stdin: 0, ..Default::default() });
        }
        scen_cli::as_library(r, &mut c, 1);
        own(&mut c, k);
        jobs.push(c);
    }
    for k in 0..n {
        if !r.chance(1, 4) {
            continue;
        }
        let mut c = jobs[k].clone();
        if r.chance(1, 2) {
            scen_cli::add_output_fault(r, &mut c);
        } else {
            scen_cli::add_input_fault(r, &mut c);
        }
        // (an early end of a chunked response of text is the known finding of C12)
        let http = |p: &str| p.starts_with("http:");
        if !c.faults.iter().any(|f| matches!(f, Fault::Eof { path, .. } if http(path))) {
            jobs[k] = c;
        }
    }
    JobsCase { jobs, turn, fine, seed }
}

struct Part {
    built: Built,
    /// nodes and faults of this job in the common world
    nodes: std::ops::Range<usize>,
    faults: std::ops::Range<usize>,
}

fn join(e: &JobsCase) -> (World, Vec<Part>) {
    let mut w = World { op_budget: 0, ..Default::default() };
    let mut parts = vec![];
    let mut root = vec![];
    for (k, c) in e.jobs.iter().enumerate() {
        let mut b = build(c);
        let mut x = std::mem::take(&mut b.world);
        if k == 0 {
            w.rand_seed = x.rand_seed;
            w.clock_start_ns = x.clock_start_ns;
            w.latency = std::mem::take(&mut x.latency);
            w.send_plan = x.send_plan.clone();
            w.connect_async = x.connect_async;
            w.dtype_unknown = x.dtype_unknown;
        }
        w.op_budget += x.op_budget;
        let at = w.nodes.len();
        let faults = w.faults.len()..w.faults.len() + x.faults.len();
        w.faults.append(&mut x.faults);
        for n in x.nodes {
            if n.path == "/w" {
                if let simos::Kind::Dir(d) = &n.kind {
                    root.extend(d.iter().cloned());
                }
            }
            if n.path == "/w" || n.path == "/" {
                // one for all follows; the place is kept
                w.nodes.push(simos::Node::file(&format!("/none/{}/{}", k, w.nodes.len()), vec![], Default::default()));
            } else {
                w.nodes.push(n);
            }
        }
        if let Some(s) = x.stdin {
            w.stdin = Some(at + s);
        }
        w.hosts.append(&mut x.hosts);
        for (u, n) in x.urls {
            w.urls.insert(u, at + n);
        }
        w.out_plans.append(&mut x.out_plans);
        w.links.extend(x.links);
        b.old_node = b.old_node.map(|n| at + n);
        parts.push(Part { built: b, nodes: at..w.nodes.len(), faults });
    }
    w.nodes.push(simos::Node::dir("/w", root));
    w.nodes.push(simos::Node::dir("/", vec![]));
    let n = w.nodes.len();
    for p in &mut parts {
        p.built.n_nodes = n;
    }
    (w, parts)
}

fn program(e: &JobsCase) -> Box<dyn FnOnce() -> i32 + Send> {
    let mut jobs: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (k, c) in e.jobs.iter().enumerate() {
        let b = build(c);
        let lib = c.lib.clone().unwrap_or_default();
        let lists = run::lists(c);
        let (zones, formats) = run::extras(c);
        jobs.push(Box::new(move || {
            let f: Option<Vec<Box<dyn chopper::source::source_factory::SourceFactory>>> = if formats { Some(vec![Box::new(crate::usrc::UserFactory)]) } else { None };
            let t = if b.has_custom { Some(run::transports()) } else { None };
            let z = if zones { Some(gen::zone_map()) } else { None };
            let job = || crate::libmain::main(&lib, Some(&b.args), &lists, t, f, z);
            let end = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(job)) {
                Ok(Ok(())) => "ok".to_string(),
                Ok(Err(x)) => format!("failed {}", x),
                Err(_) => "panicked".into(),
            };
            simos::lib_event(format!("{} {}", k, end).as_bytes());
        }));
    }
    let (turn, fine, seed) = (e.turn, e.fine, e.seed);
    Box::new(move || {
        if turn == 0 {
            for j in jobs {
                j();
            }
        } else {
            simos::take_turns(seed, turn, fine, jobs);
        }
        0
    })
}

pub fn eval(e: &JobsCase, cx: &mut Ctx) -> Verdict {
    if e.jobs.is_empty() || e.jobs.len() > 8 {
        return Verdict::Inconclusive("no jobs".into());
    }
    for c in &e.jobs {
        scen_cli::probe_case(cx, c);
    }
    cx.probe(if e.turn == 0 { "jobs:one after another" } else if e.fine { "jobs:in threads, turns at basic blocks" } else { "jobs:in threads, turns at operations" });
    let (_, parts) = join(e);
    let r = cx.world(&|| join(e).0, &["chopper".to_string()], &|| program(e));
    let v = exit_sane(&r);
    if v != Verdict::Ok {
        return v;
    }
    for (n, what) in [(10, "turns:10"), (100, "turns:100"), (1000, "turns:1000"), (10000, "turns:10000")] {
        if r.scen[0] >= n {
            cx.probe(what);
        }
    }
    if r.exit != Exit::Code(0) {
        return bad("program-ended", format!("a job ended the whole program ({:?}): {}", r.exit, r.stderr().chars().take(300).collect::<String>()));
    }
    // how each of them ended
    let mut ends: Vec<Option<String>> = vec![None; e.jobs.len()];
    for j in simos::journal_iter(&r.journal) {
        if j.kind == simos::J_LIB {
            let s = String::from_utf8_lossy(j.data).into_owned();
            if let Some((k, end)) = s.split_once(' ') {
                ends[k.parse::<usize>().unwrap()] = Some(end.to_string());
            }
        }
    }
    for (k, (c, p)) in e.jobs.iter().zip(&parts).enumerate() {
        let Some(end) = &ends[k] else { return bad("program-ended", format!("job {} did not come to an end", k)) };
        // what the operating system saw of this job
        let mut journal = vec![];
        let mut at = 0;
        for j in simos::journal_iter(&r.journal) {
            let len = 32 + j.data.len();
            let other = match j.kind {
                simos::J_STDOUT => c.out.is_some(),
                _ => parts.iter().enumerate().any(|(o, q)| o != k && q.nodes.contains(&j.node) && q.built.old_node == Some(j.node)),
            };
            if !other {
                journal.extend_from_slice(&r.journal[at..at + len]);
            }
            at += len;
        }
        let alone = RunResult {
            exit: Exit::Code(match end.as_str() {
                "ok" => 0,
                "panicked" => 101,
                _ => 1,
            }),
            journal,
            fired: r.fired[p.faults.clone()].to_vec(),
            counters: r.counters,
            ev_hash: r.ev_hash,
            ops: r.ops,
            sim_ns: r.sim_ns,
            heap_peak: r.heap_peak,
            allocs: r.allocs,
            consumed: vec![],
            consumed_total: r.consumed_total,
            opens: vec![],
            scen: r.scen,
            fds_peak: 0,
        };
        cx.probe(if end == "ok" { "job:success" } else { "job:failure" });
        match oracle::judge(c, &p.built, &alone, true) {
            Verdict::Ok => {}
            Verdict::Violation { class, detail } => return bad(&class, format!("job {} of {} ({}): {}", k + 1, e.jobs.len(), end.chars().take(200).collect::<String>(), detail)),
            v => return v,
        }
    }
    Verdict::Ok
}

pub fn shrink(e: &JobsCase) -> Vec<JobsCase> {
    let mut v = vec![];
    for k in 0..e.jobs.len() {
        if e.jobs.len() > 1 {
            let mut d = e.clone();
            d.jobs.remove(k);
            v.push(d);
        }
    }
    for turn in [0, 1, 10, 100, 1000] {
        if turn < e.turn || (e.turn != 0 && turn > e.turn) {
            v.push(JobsCase { turn, ..e.clone() });
        }
    }
    for k in 0..e.jobs.len() {
        for c in shrink_cli(&e.jobs[k]) {
            if c.lib.is_some() {
                let mut d = e.clone();
                d.jobs[k] = c;
                v.push(d);
            }
        }
    }
    v
}
