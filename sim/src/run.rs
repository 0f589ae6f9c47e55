//! One simulated execution = one forked child process running the code under test inside the
//! simulated operating system, and what was observed of it.
use crate::case::{Built, CliCase};
use crate::simos::{self, World};
use serde::{Deserialize, Serialize};
use std::path::Path;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Exit {
    Code(i32),
    Signal(i32),
    Crash,
    Budget,
    Hang,
    JournalFull,
    /// used up its processor time
    Cpu,
    /// the harness's own wall-clock limit: no verdict
    Wall,
}

pub struct RunResult {
    pub exit: Exit,
    pub journal: Vec<u8>,
    pub fired: Vec<u32>,
    pub counters: [u64; simos::C_N],
    pub ev_hash: u64,
    pub ops: u64,
    pub sim_ns: u64,
    pub heap_peak: i64,
    pub allocs: u64,
    pub consumed: Vec<u64>,
    pub consumed_total: u64,
    pub opens: Vec<u32>,
    pub scen: [u64; 8],
    pub fds_peak: u64,
}

impl RunResult {
    pub fn ok(&self) -> bool {
        self.exit == Exit::Code(0)
    }
    pub fn stderr(&self) -> String {
        let mut v = Vec::new();
        for r in simos::journal_iter(&self.journal) {
            if r.kind == simos::J_STDERR {
                v.extend_from_slice(r.data);
            }
        }
        String::from_utf8_lossy(&v).into_owned()
    }
    pub fn panicked(&self) -> bool {
        self.exit == Exit::Code(101)
    }
    /// what a user of the exit status sees
    pub fn failed_loudly(&self) -> bool {
        match self.exit {
            Exit::Code(c) => c != 0,
            Exit::Signal(s) => s == libc::SIGABRT,
            _ => false,
        }
    }
    /// everything observable about the run, for comparing two executions
    pub fn digest(&self) -> u64 {
        let mut h = crate::rng::hash_bytes(0, &self.journal);
        for x in [self.ev_hash, self.ops, self.sim_ns, self.consumed_total, self.fired.iter().map(|x| *x as u64).sum()] {
            h = crate::rng::mix(h, x);
        }
        crate::rng::hash_bytes(h, format!("{:?}", self.exit).as_bytes())
    }
}

pub fn run_world(w: World, args: &[String], env: &[(String, Option<String>)], f: Box<dyn FnOnce() -> i32 + Send>) -> RunResult {
    simos::reset_arena();
    let nfaults = w.faults.len();
    let nnodes = w.nodes.len().min(simos::MAX_NODES);
    let mut status = 0i32;
    // for debuggers: the nth run happens in this process
    if let Some(n) = std::env::var("SIM_DIRECT").ok().and_then(|x| x.parse::<u32>().ok()) {
        static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(1);
        if N.fetch_add(1, std::sync::atomic::Ordering::Relaxed) == n {
            simos::run_child(w, env, args, f);
        }
    }
    unsafe {
        let pid = libc::fork();
        if pid < 0 {
            panic!("fork failed");
        }
        if pid == 0 {
            simos::run_child(w, env, args, f);
        }
        loop {
            let r = libc::waitpid(pid, &mut status, 0);
            if r == pid {
                break;
            }
            if r < 0 && *libc::__errno_location() != libc::EINTR {
                panic!("waitpid failed");
            }
        }
    }
    let s = simos::shm_ref();
    let exit = if s.end != simos::END_NONE {
        match s.end {
            simos::END_CRASH => Exit::Crash,
            simos::END_BUDGET => Exit::Budget,
            simos::END_HANG => Exit::Hang,
            _ => Exit::JournalFull,
        }
    } else if libc::WIFSIGNALED(status) {
        match libc::WTERMSIG(status) {
            libc::SIGALRM => Exit::Wall,
            libc::SIGXCPU => Exit::Cpu,
            libc::SIGKILL => Exit::Wall,
            s => Exit::Signal(s),
        }
    } else {
        Exit::Code(libc::WEXITSTATUS(status))
    };
    let r = RunResult {
        exit,
        journal: simos::journal().to_vec(),
        fired: s.fired[..nfaults.min(simos::MAX_FAULTS)].to_vec(),
        counters: s.counters,
        ev_hash: s.ev_hash,
        ops: s.ops,
        sim_ns: s.sim_ns,
        heap_peak: s.heap_peak.load(std::sync::atomic::Ordering::Relaxed),
        allocs: s.allocs.load(std::sync::atomic::Ordering::Relaxed),
        consumed: s.consumed[..nnodes].to_vec(),
        consumed_total: s.consumed_total,
        opens: s.opens[..nnodes].to_vec(),
        scen: s.scen,
        fds_peak: s.fds_peak,
    };
    simos::trim_arena();
    r
}

// ---------------------------------------------------------------- the command line tool

/// a transport as a user of the library would supply it
struct MemTransport;
struct MemRead {
    node: usize,
    pos: u64,
    calls: u32,
}
/// errors of a transport need not come from the operating system
fn transport_error(e: i32) -> std::io::Error {
    use std::io::{Error, ErrorKind};
    match e - simos::KIND_BASE {
        0 => Error::new(ErrorKind::UnexpectedEof, "simulated"),
        1 => Error::new(ErrorKind::InvalidData, "simulated"),
        2 => Error::new(ErrorKind::Other, "simulated"),
        3 => Error::from(ErrorKind::TimedOut),
        4 => Error::from(ErrorKind::UnexpectedEof),
        _ => Error::from_raw_os_error(e),
    }
}
impl std::io::Read for MemRead {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        simos::ext_read(self.node, &mut self.pos, &mut self.calls, b).map_err(transport_error)
    }
}
impl chopper::transport::streaming::streaming_transport::StreamingTransport for MemTransport {
    fn can_open(&self, path: &Path) -> bool {
        path.to_str().map_or(false, |p| p.starts_with("mem:"))
    }
    fn open(&self, path: &Path) -> std::io::Result<Box<dyn std::io::Read>> {
        let node = simos::ext_open(path.to_str().unwrap()).map_err(std::io::Error::from_raw_os_error)?;
        Ok(Box::new(MemRead { node, pos: 0, calls: 0 }))
    }
    fn box_clone(&self) -> Box<dyn chopper::transport::streaming::streaming_transport::StreamingTransport> {
        Box::new(MemTransport)
    }
    fn name(&self) -> &str {
        "mem"
    }
}

pub fn transports() -> Vec<Box<dyn chopper::transport::streaming::streaming_transport::StreamingTransport>> {
    vec![Box::new(MemTransport)]
}

pub fn lists(c: &CliCase) -> std::collections::HashMap<String, crate::libmain::FileList> {
    let mut m = std::collections::HashMap::new();
    for i in &c.inputs {
        if let (Some(l), crate::case::Loc::Dir { path, .. }) = (&i.list, &i.loc) {
            let idx = i.in_order();
            let paths = idx.iter().map(|k| format!("{}/{}", path, i.files[*k].file_name(i.route))).collect();
            let t = i.seen();
            let header = match l {
                crate::case::List::Files => None,
                crate::case::List::Cols(_) => Some((t.names.clone(), t.types.iter().map(|t| crate::scen_graph::to_type(*t)).collect())),
            };
            m.insert(path.clone(), crate::libmain::FileList { paths, header });
        }
    }
    m
}

pub fn chopper_main(custom: bool, zones: bool, formats: bool, lib: Option<crate::libmain::Lib>, lists: std::collections::HashMap<String, crate::libmain::FileList>) -> i32 {
    let t: Option<Vec<Box<dyn chopper::transport::streaming::streaming_transport::StreamingTransport>>> =
        if custom { Some(vec![Box::new(MemTransport)]) } else { None };
    let z = if zones { Some(crate::gen::zone_map()) } else { None };
    let f: Option<Vec<Box<dyn chopper::source::source_factory::SourceFactory>>> = if formats { Some(vec![Box::new(crate::usrc::UserFactory)]) } else { None };
    if let Some(l) = lib {
        chopper::error::handle_drive_error(crate::libmain::main(&l, None, &lists, t, f, z))
    }
    // what chop's main does; never returns
    chopper::error::handle_drive_error(chopper::chopper_cli::chopper_cli(t, f, z))
}

/// does the program around the library supply zone names, a format
pub fn extras(c: &CliCase) -> (bool, bool) {
    let named = |s: &String| crate::gen::TZ_MAP.iter().any(|x| x.0 == s);
    let zones = c.args.iter().any(named) || c.env.iter().any(|e| named(&e.1)) || c.sched.rand_seed % 4 == 0;
    let formats = c.inputs.iter().any(|i| i.files.iter().any(|f| matches!(f.enc, crate::case::Enc::User(_)))) || c.sched.rand_seed % 5 == 0;
    (zones, formats)
}

pub fn run_cli(c: &CliCase, prep: &dyn Fn(&mut World)) -> (Built, RunResult) {
    let mut b = crate::case::build(c);
    let mut w = std::mem::take(&mut b.world);
    prep(&mut w);
    let custom = b.has_custom;
    let (zones, formats) = extras(c);
    let lib = c.lib.clone();
    let lists = lists(c);
    let r = run_world(w, &b.args, &b.env, Box::new(move || chopper_main(custom, zones, formats, lib, lists)));
    (b, r)
}
