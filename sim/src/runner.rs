//! Seeded search: worker processes evaluate case numbers i, i+W, …; the lowest violating number
//! wins, is minimised and written as a replay file.
use crate::case::{Built, CliCase};
use crate::oracle::Verdict;
use crate::props::{self, Case, Prop};
use crate::rng::{mix, Rng};
use crate::run::{self, Exit, RunResult};
use crate::simos::{self, World};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::time::{Duration, Instant};

#[derive(Default, Serialize, Deserialize)]
pub struct Stats {
    pub cases: u64,
    pub runs: u64,
    pub ops: u64,
    pub sim_ns: u64,
    pub counters: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub hashes: HashSet<u64>,
    pub inconclusive: u64,
    pub inconclusive_why: BTreeMap<String, u64>,
    pub digest: u64,
    /// order-independent fingerprint of everything all runs did
    pub world_fp: u64,
    pub capped: bool,
}
impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.cases += o.cases;
        self.runs += o.runs;
        self.ops += o.ops;
        self.sim_ns += o.sim_ns;
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        for (k, v) in o.faults {
            *self.faults.entry(k).or_default() += v;
        }
        for (k, v) in o.probes {
            *self.probes.entry(k).or_default() += v;
        }
        for (k, v) in o.inconclusive_why {
            *self.inconclusive_why.entry(k).or_default() += v;
        }
        self.hashes.extend(o.hashes);
        self.inconclusive += o.inconclusive;
        self.world_fp = self.world_fp.wrapping_add(o.world_fp);
        self.capped |= o.capped;
    }
}

#[derive(Default)]
pub struct Ctx {
    pub st: Stats,
    /// digest of the runs of the current case
    pub digest: u64,
    pub trace: Option<Vec<String>>,
}

impl Ctx {
    pub fn probe(&mut self, s: &str) {
        *self.st.probes.entry(s.to_string()).or_default() += 1;
    }
    pub fn note(&mut self, faults: &[simos::Fault], r: &RunResult) {
        let s = &mut self.st;
        s.runs += 1;
        s.ops += r.ops;
        s.sim_ns += r.sim_ns;
        for (i, n) in simos::COUNTER_NAMES.iter().enumerate() {
            if r.counters[i] > 0 {
                *s.counters.entry(n.to_string()).or_default() += r.counters[i];
            }
        }
        for (i, f) in faults.iter().enumerate() {
            if r.fired.get(i).copied().unwrap_or(0) > 0 {
                *s.faults.entry(f.kind().to_string()).or_default() += 1;
            }
        }
        let e = match r.exit {
            Exit::Code(0) => "exit:success".to_string(),
            Exit::Code(101) => "exit:panic".to_string(),
            Exit::Code(c) => format!("exit:code {}", c),
            x => format!("exit:{:?}", x),
        };
        *s.probes.entry(e).or_default() += 1;
        s.hashes.insert(r.ev_hash);
        let d = r.digest();
        s.world_fp = s.world_fp.wrapping_add(mix(d, 17));
        self.digest = mix(self.digest, d);
        if let Some(t) = &mut self.trace {
            t.push(format!("run {}: exit {:?}, {} operations, simulated {} ns, event hash {:016x}", t.iter().filter(|l| l.starts_with("run ")).count() + 1, r.exit, r.ops, r.sim_ns, r.ev_hash));
            for e in simos::events().iter().take(400) {
                t.push(format!("  op {:>6} {:<11} node {:>5} arg {:>8} -> {}", e.op, simos::EV_NAMES[e.kind as usize % simos::EV_NAMES.len()], e.node, e.arg, e.ret));
            }
            if simos::events().len() > 400 {
                t.push(format!("  … {} more", simos::events().len() - 400));
            }
            let se = r.stderr();
            if !se.is_empty() {
                t.push(format!("  stderr: {}", se.trim_end()));
            }
        }
    }
    pub fn cli(&mut self, c: &CliCase) -> (Built, RunResult) {
        self.cli_with(c, &|_| {})
    }
    pub fn cli_with(&mut self, c: &CliCase, prep: &dyn Fn(&mut World)) -> (Built, RunResult) {
        let (b, mut r) = run::run_cli(c, prep);
        if r.exit == Exit::Wall {
            // outside the simulation something stalled; once more
            let x = run::run_cli(c, prep);
            r = x.1;
        }
        self.note(&c.faults, &r);
        (b, r)
    }
    pub fn world(&mut self, mk: &dyn Fn() -> World, args: &[String], f: &dyn Fn() -> Box<dyn FnOnce() -> i32 + Send>) -> RunResult {
        let w = mk();
        let faults = w.faults.clone();
        let mut env: Vec<(String, Option<String>)> = vec![("RUST_BACKTRACE".into(), None)];
        env.push(("CHOPPER_TZ".into(), None));
        let mut r = run::run_world(w, args, &env, f());
        if r.exit == Exit::Wall {
            r = run::run_world(mk(), args, &env, f());
        }
        self.note(&faults, &r);
        r
    }
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Found {
    pub index: u64,
    pub class: String,
    pub detail: String,
    pub case: Case,
}

#[derive(Serialize, Deserialize)]
struct Report {
    stats: Stats,
    found: Option<Found>,
}

pub fn case_seed(seed: u64, id: &str, index: u64) -> u64 {
    let h = id.bytes().fold(0u64, |a, b| mix(a, b as u64));
    mix(mix(seed, h), index)
}

pub fn gen_case(p: &Prop, seed: u64, index: u64, thorough: bool) -> Case {
    let mut r = Rng::new(case_seed(seed, p.id, index));
    let mut scen = (p.gen)(&mut r, index, thorough);
    crate::props::vary(&mut r, p.id, &mut scen);
    Case { prop: p.id.to_string(), seed, index, scen }
}

/// a private scratch space shared by all workers
struct Shared(*mut u64);
impl Shared {
    fn new() -> Shared {
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
            assert!(p != libc::MAP_FAILED);
            *(p as *mut u64) = u64::MAX;
            Shared(p as *mut u64)
        }
    }
    fn min(&self) -> &std::sync::atomic::AtomicU64 {
        unsafe { &*(self.0 as *const std::sync::atomic::AtomicU64) }
    }
}

pub fn evaluate(p: &Prop, case: &Case, cx: &mut Ctx) -> Verdict {
    cx.digest = 0;
    cx.st.cases += 1;
    (p.eval)(case, cx)
}

pub struct Search {
    pub stats: Stats,
    pub found: Option<Found>,
    pub wall: Duration,
}

pub fn search(p: &Prop, seed: u64, count: u64, workers: u64, thorough: bool, wall: Duration, skip: &dyn Fn(&Case, &str, &str) -> bool) -> Search {
    use std::sync::atomic::Ordering::SeqCst;
    let start = Instant::now();
    let sh = Shared::new();
    let mut pipes = Vec::new();
    for w in 0..workers {
        let mut fds = [0i32; 2];
        unsafe {
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                libc::close(fds[0]);
                // end with the parent
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                simos::map_arena();
                let mut cx = Ctx::default();
                let mut found: Option<Found> = None;
                let mut i = w;
                while i < count && i < sh.min().load(SeqCst) {
                    if start.elapsed() > wall {
                        cx.st.capped = true;
                        break;
                    }
                    let case = gen_case(p, seed, i, thorough);
                    match evaluate(p, &case, &mut cx) {
                        Verdict::Ok => {}
                        Verdict::Inconclusive(w) => {
                            cx.st.inconclusive += 1;
                            *cx.st.inconclusive_why.entry(w).or_default() += 1;
                        }
                        Verdict::Violation { class, detail } => {
                            if skip(&case, &class, &detail) {
                                cx.probe("known finding");
                            } else {
                                sh.min().fetch_min(i, SeqCst);
                                found = Some(Found { index: i, class, detail, case });
                                break;
                            }
                        }
                    }
                    i += workers;
                }
                let rep = serde_json::to_vec(&Report { stats: cx.st, found }).unwrap();
                let mut f = <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fds[1]);
                let _ = f.write_all(&rep);
                drop(f);
                libc::_exit(0);
            }
            libc::close(fds[1]);
            pipes.push((pid, fds[0]));
        }
    }
    let mut stats = Stats::default();
    let mut found: Option<Found> = None;
    for (pid, fd) in pipes {
        let mut v = Vec::new();
        let mut f = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fd) };
        f.read_to_end(&mut v).expect("worker report");
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        let rep: Report = serde_json::from_slice(&v).unwrap_or_else(|e| {
            eprintln!("a worker of the harness died (status {}): {}", st, e);
            std::process::exit(3)
        });
        stats.merge(rep.stats);
        if let Some(x) = rep.found {
            if found.as_ref().map_or(true, |y| x.index < y.index) {
                found = Some(x);
            }
        }
    }
    Search { stats, found, wall: start.elapsed() }
}

// ------------------------------------------------------------------ minimising

pub fn minimise(p: &Prop, f: &Found, max_evals: u32, wall: Duration) -> (Found, u32) {
    let start = Instant::now();
    let mut best = f.clone();
    let mut evals = 0;
    let mut cx = Ctx::default();
    let mut progress = true;
    while progress && evals < max_evals && start.elapsed() < wall {
        progress = false;
        for cand in props::shrink(&best.case.scen) {
            if evals >= max_evals || start.elapsed() > wall {
                break;
            }
            if cand == best.case.scen {
                continue;
            }
            let case = Case { scen: cand, ..best.case.clone() };
            evals += 1;
            // a shrunk case may be meaningless to the generator's rules; such cases count as fine
            let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| evaluate(p, &case, &mut cx)));
            if let Ok(Verdict::Violation { class, detail }) = v {
                if class == best.class {
                    best = Found { index: best.index, class, detail, case };
                    progress = true;
                    break;
                }
            }
        }
    }
    (best, evals)
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub detail: String,
    pub seed: u64,
    pub index: u64,
    pub digest: u64,
    /// the events of the runs, for reading
    #[serde(default)]
    pub trace: Vec<String>,
    pub case: Case,
}
