//! The simulated operating system. The harness binary defines the libc entry points the Rust
//! standard library (and therefore chopper and its dependencies) calls; while a simulated run is
//! active every one of them is served from an in-memory world: files, directories, stdin/stdout,
//! a TCP/HTTP server, clock and randomness. Nothing reaches the real file system or network.
//!
//! Everything a run does is decided by the `World` (a pure function of the case): how many bytes
//! each read/write moves, which calls are interrupted, which fail, when the process dies.
#![allow(clippy::missing_safety_doc)]

use libc::{c_char, c_int, c_void, iovec, mode_t, off64_t, size_t, ssize_t};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};

// ---------------------------------------------------------------- world description

/// error numbers from here on stand for errors that a user's transport makes itself
pub const KIND_BASE: i32 = 20_000;

/// how the calls on one stream are segmented: `sizes` are the byte counts of successive calls
/// (0 = as much as asked); after the list either start over (`cycle`) or move full amounts.
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub sizes: Vec<u32>,
    #[serde(default, skip_serializing_if = "is_false")]
    pub cycle: bool,
    /// call numbers on this stream that are interrupted (EINTR) before moving anything
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub eintr: Vec<u32>,
}
fn is_false(b: &bool) -> bool {
    !*b
}
impl Plan {
    pub fn is_default(&self) -> bool {
        self.sizes.is_empty() && self.eintr.is_empty()
    }
    fn size(&self, call: u32) -> usize {
        // tiny pieces only for so long: the number of operations stays bounded
        if self.sizes.is_empty() || call > 100_000 {
            return usize::MAX;
        }
        let i = call as usize;
        let v = if i < self.sizes.len() {
            self.sizes[i]
        } else if self.cycle {
            self.sizes[i % self.sizes.len()]
        } else {
            0
        };
        if v == 0 {
            usize::MAX
        } else {
            v as usize
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    /// reading this stream fails once everything before `offset` has been delivered
    ReadErr { path: String, offset: u64, errno: i32, once: bool },
    /// the stream ends early (peer closed, short file)
    Eof { path: String, offset: u64 },
    OpenErr { path: String, nth: u32, errno: i32 },
    StatErr { path: String, nth: u32, errno: i32 },
    SeekErr { path: String, nth: u32, errno: i32 },
    OpendirErr { path: String, errno: i32 },
    ReaddirErr { path: String, idx: u32, errno: i32 },
    /// writing fails once `offset` bytes have been accepted
    WriteErr { path: String, offset: u64, errno: i32, once: bool },
    CreateErr { path: String, errno: i32 },
    Dns { host: String },
    Connect { host: String, errno: i32 },
    ConnectTimeout { host: String },
    SendErr { host: String, offset: u64, errno: i32 },
    /// the process dies at simulated operation `op`; a write in progress first accepts `torn` bytes
    Crash { op: u64, torn: u32 },
    /// the nth heap allocation of at least `min` bytes fails
    AllocFail { nth: u64, min: u64 },
}

impl Fault {
    pub fn errno(&self) -> Option<i32> {
        match self {
            Fault::ReadErr { errno, .. }
            | Fault::OpenErr { errno, .. }
            | Fault::StatErr { errno, .. }
            | Fault::SeekErr { errno, .. }
            | Fault::OpendirErr { errno, .. }
            | Fault::ReaddirErr { errno, .. }
            | Fault::WriteErr { errno, .. }
            | Fault::CreateErr { errno, .. }
            | Fault::Connect { errno, .. }
            | Fault::SendErr { errno, .. } => Some(*errno),
            _ => None,
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Fault::ReadErr { errno, .. } => match *errno {
                libc::ECONNRESET => "read_conn_reset",
                libc::ETIMEDOUT => "read_timeout",
                _ => "read_error",
            },
            Fault::Eof { .. } => "premature_eof",
            Fault::OpenErr { .. } => "open_error",
            Fault::StatErr { .. } => "stat_error",
            Fault::SeekErr { .. } => "seek_error",
            Fault::OpendirErr { .. } => "opendir_error",
            Fault::ReaddirErr { .. } => "readdir_error",
            Fault::WriteErr { errno, .. } => match *errno {
                libc::ENOSPC => "write_disk_full",
                libc::EPIPE => "write_broken_pipe",
                _ => "write_error",
            },
            Fault::CreateErr { .. } => "create_error",
            Fault::Dns { .. } => "dns_failure",
            Fault::Connect { .. } => "connect_error",
            Fault::ConnectTimeout { .. } => "connect_timeout",
            Fault::SendErr { .. } => "send_error",
            Fault::Crash { .. } => "crash",
            Fault::AllocFail { .. } => "alloc_failure",
        }
    }
}

/// endless content: rows generated on demand after the fixed prefix
#[derive(Clone)]
pub struct Grow {
    pub next: std::sync::Arc<dyn Fn(u64) -> Vec<u8> + Send + Sync>,
    pub index: u64,
    /// reading on from here is taken as reading without end
    pub limit: u64,
}
impl std::fmt::Debug for Grow {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Grow({})", self.index)
    }
}

#[derive(Clone, Debug)]
pub struct DirEnt {
    pub name: String,
    pub is_dir: bool,
}

#[derive(Clone, Debug)]
pub enum Kind {
    File,
    Dir(Vec<DirEnt>),
}

#[derive(Clone, Debug)]
pub struct Node {
    pub path: String,
    pub kind: Kind,
    pub content: Vec<u8>,
    pub grow: Option<Grow>,
    pub plan: Plan,
    /// for HTTP bodies: keep the connection open after the last byte
    pub keep_alive: bool,
    /// for chunked bodies: where the body begins, and whether reading it is interrupted, too
    pub chunked: Option<(u64, bool)>,
    /// length of a file written during the run (its bytes are in the journal only)
    pub wlen: u64,
    pub written: bool,
}
impl Node {
    pub fn file(path: &str, content: Vec<u8>, plan: Plan) -> Node {
        Node { path: path.into(), kind: Kind::File, content, grow: None, plan, keep_alive: false, chunked: None, wlen: 0, written: false }
    }
    pub fn dir(path: &str, ents: Vec<DirEnt>) -> Node {
        Node { path: path.into(), kind: Kind::Dir(ents), content: vec![], grow: None, plan: Plan::default(), keep_alive: false, chunked: None, wlen: 0, written: false }
    }
}

#[derive(Clone, Debug, Default)]
pub struct World {
    pub nodes: Vec<Node>,
    /// index of the node that serves fd 0
    pub stdin: Option<usize>,
    /// segmentation of writes: key "stdout" or the path
    pub out_plans: BTreeMap<String, Plan>,
    /// url ("http://host[:port]/path") -> node with the raw response bytes
    pub urls: BTreeMap<String, usize>,
    pub hosts: Vec<String>,
    /// bytes sent per send() call on sockets
    pub send_plan: Plan,
    pub connect_async: bool,
    pub faults: Vec<Fault>,
    pub rand_seed: u64,
    pub clock_start_ns: u64,
    /// per-operation latency in nanoseconds (cycled)
    pub latency: Vec<u64>,
    pub op_budget: u64,
    pub dtype_unknown: bool,
    /// paths that are symbolic links to the node's content (calls that do not follow links see that)
    pub links: std::collections::BTreeSet<String>,
}

// ---------------------------------------------------------------- shared results

pub const MAX_NODES: usize = 1024;
pub const MAX_FAULTS: usize = 64;

pub const C_READ: usize = 0;
pub const C_SHORT_READ: usize = 1;
pub const C_EINTR_R: usize = 2;
pub const C_WRITE: usize = 3;
pub const C_SHORT_WRITE: usize = 4;
pub const C_EINTR_W: usize = 5;
pub const C_RECV: usize = 6;
pub const C_STAT: usize = 7;
pub const C_OPEN: usize = 8;
pub const C_READDIR: usize = 9;
pub const C_LATE: usize = 10;
pub const C_RAND: usize = 11;
pub const C_CLOCK: usize = 12;
pub const C_CHUNK_EINTR: usize = 13;
pub const C_N: usize = 16;
pub const COUNTER_NAMES: [&str; 13] = [
    "reads", "short_reads", "interrupted_reads", "writes", "short_writes", "interrupted_writes",
    "net_reads", "stats", "opens", "readdirs", "delayed_ops", "random_draws", "clock_reads",
];

pub const END_NONE: u32 = 0;
pub const END_CRASH: u32 = 1;
pub const END_BUDGET: u32 = 2;
pub const END_HANG: u32 = 3;
pub const END_JOURNAL_FULL: u32 = 4;

#[repr(C)]
pub struct Shm {
    pub ops: u64,
    pub sim_ns: u64,
    pub ev_hash: u64,
    pub end: u32,
    pub unsupported: u32,
    pub jlen: u64,
    pub heap_cur: AtomicI64,
    pub heap_peak: AtomicI64,
    pub allocs: AtomicU64,
    pub consumed: [u64; MAX_NODES],
    pub consumed_total: u64,
    pub fired: [u32; MAX_FAULTS],
    pub counters: [u64; C_N],
    pub opens: [u32; MAX_NODES],
    /// value the scenario reports (library scenarios)
    pub scen: [u64; 8],
    /// most files and connections open at a time
    pub fds_peak: u64,
    pub ev_count: u64,
}

pub const ARENA: usize = 512 << 20;
pub const JOURNAL_CAP: usize = 384 << 20;
pub const EV_CAP: usize = 100_000;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Ev {
    pub op: u32,
    pub kind: u16,
    pub node: u16,
    pub arg: u64,
    pub ret: i64,
}

pub const J_WRITE: u8 = 1; // node, off, data, consumed
pub const J_TRUNC: u8 = 2;
pub const J_CREATE: u8 = 3; // data = path
pub const J_STDOUT: u8 = 4;
pub const J_STDERR: u8 = 5;
pub const J_LIB: u8 = 6;
pub const J_UNLINK: u8 = 7;
pub const J_RENAME: u8 = 8; // data = new path
pub const J_MSG: u8 = 9;

static mut SHM: *mut Shm = std::ptr::null_mut();
static mut WORLD: *mut World = std::ptr::null_mut();
static mut RT: *mut Rt = std::ptr::null_mut();
static ACTIVE: AtomicBool = AtomicBool::new(false);
static LOCK: AtomicBool = AtomicBool::new(false);
static IN_SIM: AtomicBool = AtomicBool::new(false);

#[inline]
fn active() -> bool {
    ACTIVE.load(Ordering::Relaxed)
}
fn shm() -> &'static mut Shm {
    unsafe { &mut *SHM }
}
fn world() -> &'static mut World {
    unsafe { &mut *WORLD }
}
fn rt() -> &'static mut Rt {
    unsafe { &mut *RT }
}

struct Guard;
fn lock() -> Guard {
    sched_point();
    while LOCK.swap(true, Ordering::Acquire) {
        std::hint::spin_loop();
    }
    IN_SIM.store(true, Ordering::Relaxed);
    Guard
}
impl Drop for Guard {
    fn drop(&mut self) {
        IN_SIM.store(false, Ordering::Relaxed);
        LOCK.store(false, Ordering::Release);
    }
}

enum Fd {
    File { node: usize, pos: u64, append: bool, opened: u32, calls: u32 },
    Sock { host: Option<String>, req: Vec<u8>, resp: Option<usize>, pos: u64, calls: u32, sent_total: u64, send_calls: u32, nonblock: bool, connecting: bool, queue: Vec<usize> },
}

struct Rt {
    fds: BTreeMap<c_int, Fd>,
    next_fd: c_int,
    stdin_pos: u64,
    stdin_calls: u32,
    out_len: [u64; 3],
    wcalls: BTreeMap<String, u32>,
    stat_calls: BTreeMap<String, u32>,
    seek_calls: BTreeMap<String, u32>,
    /// interruptions of network reads that already happened: a client that starts over does not meet them again
    net_eintr: std::collections::BTreeSet<(usize, u32)>,
    dirs: Vec<Option<Box<DirState>>>,
    rng: crate::rng::Rng,
    alloc_big: u64,
}

struct DirState {
    node: usize,
    idx: usize,
    fault_idx: u32,
    ent: libc::dirent64,
}

pub fn map_arena() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            ARENA,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "cannot map arena");
        SHM = p as *mut Shm;
    }
}
pub fn reset_arena() {
    unsafe { std::ptr::write_bytes(SHM, 0, 1) }
}
/// give back memory if a run used a lot of journal
pub fn trim_arena() {
    unsafe {
        let used = shm().jlen as usize;
        if used > (8 << 20) {
            let base = journal_base();
            libc::madvise(base as *mut c_void, JOURNAL_CAP, libc::MADV_REMOVE);
        }
    }
}
pub fn shm_ref() -> &'static Shm {
    unsafe { &*SHM }
}
fn ev_base() -> *mut Ev {
    unsafe { (SHM as *mut u8).add(64 << 10) as *mut Ev }
}
fn journal_base() -> *mut u8 {
    unsafe { (SHM as *mut u8).add(ARENA - JOURNAL_CAP) }
}
pub fn events() -> &'static [Ev] {
    unsafe { std::slice::from_raw_parts(ev_base(), (shm().ev_count as usize).min(EV_CAP)) }
}
pub fn journal() -> &'static [u8] {
    unsafe { std::slice::from_raw_parts(journal_base(), shm().jlen as usize) }
}

pub fn is_active() -> bool {
    active()
}
/// panic message without thread ids (they differ between executions)
pub fn report_panic(m: &str) {
    eprintln!("{}", m);
}

pub fn scen_set(i: usize, v: u64) {
    shm().scen[i] = v;
}

/// called by library scenarios to record what sinks observe
pub fn lib_event(data: &[u8]) {
    let _g = lock();
    let s = shm();
    s.ev_hash = crate::rng::hash_bytes(s.ev_hash, data);
    jput(J_LIB, 0, 0, data);
}

fn jput(kind: u8, node: usize, a: u64, data: &[u8]) {
    let s = shm();
    let need = 32 + data.len();
    if s.jlen as usize + need > JOURNAL_CAP {
        die(END_JOURNAL_FULL);
    }
    unsafe {
        let p = journal_base().add(s.jlen as usize);
        let mut h = [0u8; 32];
        h[0] = kind;
        h[2..4].copy_from_slice(&(node as u16).to_le_bytes());
        h[4..8].copy_from_slice(&(data.len() as u32).to_le_bytes());
        h[8..16].copy_from_slice(&a.to_le_bytes());
        h[16..24].copy_from_slice(&s.consumed_total.to_le_bytes());
        h[24..32].copy_from_slice(&s.ops.to_le_bytes());
        std::ptr::copy_nonoverlapping(h.as_ptr(), p, 32);
        std::ptr::copy_nonoverlapping(data.as_ptr(), p.add(32), data.len());
    }
    s.jlen += need as u64;
}

pub struct JRec<'a> {
    pub kind: u8,
    pub node: usize,
    pub a: u64,
    pub consumed: u64,
    pub op: u64,
    pub data: &'a [u8],
}
pub fn journal_iter(j: &[u8]) -> impl Iterator<Item = JRec<'_>> {
    let mut pos = 0;
    std::iter::from_fn(move || {
        if pos + 32 > j.len() {
            return None;
        }
        let h = &j[pos..pos + 32];
        let len = u32::from_le_bytes(h[4..8].try_into().unwrap()) as usize;
        let r = JRec {
            kind: h[0],
            node: u16::from_le_bytes(h[2..4].try_into().unwrap()) as usize,
            a: u64::from_le_bytes(h[8..16].try_into().unwrap()),
            consumed: u64::from_le_bytes(h[16..24].try_into().unwrap()),
            op: u64::from_le_bytes(h[24..32].try_into().unwrap()),
            data: &j[pos + 32..pos + 32 + len],
        };
        pos += 32 + len;
        Some(r)
    })
}

fn die(why: u32) -> ! {
    shm().end = why;
    unsafe { libc::_exit(222) }
}

pub const EV_NAMES: [&str; 24] = [
    "?", "open", "read", "write", "seek", "stat", "close", "opendir", "readdir", "recv", "send", "connect",
    "getaddrinfo", "stdin", "stdout", "stderr", "fstat", "random", "poll", "unlink", "rename", "truncate", "socket", "mkdir",
];

fn ev(kind: u16, node: usize, arg: u64, ret: i64) {
    let s = shm();
    let n = s.ev_count as usize;
    if n < EV_CAP {
        unsafe {
            *ev_base().add(n) = Ev { op: s.ops as u32, kind, node: node as u16, arg, ret };
        }
    }
    s.ev_count += 1;
    s.ev_hash = crate::rng::mix(s.ev_hash, crate::rng::mix((kind as u64) << 48 | (node as u64) << 32, arg) ^ (ret as u64));
}

/// every simulated operation starts here: the clock advances, a crash may strike
fn step() {
    let s = shm();
    let w = world();
    s.ops += 1;
    s.sim_ns += 1_000;
    if !w.latency.is_empty() {
        let l = w.latency[(s.ops as usize) % w.latency.len()];
        if l > 0 {
            s.sim_ns += l;
            s.counters[C_LATE] += 1;
        }
    }
    for (i, f) in w.faults.iter().enumerate() {
        if let Fault::Crash { op, torn } = f {
            if s.ops == *op && *torn == 0 {
                s.fired[i] += 1;
                die(END_CRASH);
            }
        }
    }
    if s.ops > w.op_budget {
        die(END_BUDGET);
    }
}

/// a torn write: at the crash operation, only `torn` bytes are accepted before the process dies
fn torn_now() -> Option<(usize, u32)> {
    let s = shm();
    for (i, f) in world().faults.iter().enumerate() {
        if let Fault::Crash { op, torn } = f {
            if s.ops == *op && *torn > 0 {
                return Some((i, *torn));
            }
        }
    }
    None
}

fn set_errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}
fn fail(e: c_int) -> isize {
    set_errno(e);
    -1
}

// ---------------------------------------------------------------- threads of the program under test

/// Threads take turns: exactly one of them runs, and at every simulated operation, memory allocation
/// and wait for a lock the seeded scheduler may hand the turn to another one.
struct Turns {
    cur: usize,
    n: usize,
    done: u64,
    left: u64,
    mean: u64,
    rng: crate::rng::Rng,
    stuck: u32,
    m: libc::pthread_mutex_t,
    c: libc::pthread_cond_t,
}
static TURNS_ON: AtomicBool = AtomicBool::new(false);
static mut TURNS: *mut Turns = std::ptr::null_mut();
const NOBODY: usize = usize::MAX;
thread_local! {
    static ME: std::cell::Cell<usize> = const { std::cell::Cell::new(NOBODY) };
}

fn turns() -> &'static mut Turns {
    unsafe { &mut *TURNS }
}
impl Turns {
    fn draw(&mut self) {
        self.left = self.rng.below(2 * self.mean);
    }
    fn pick(&mut self, not: usize) -> Option<usize> {
        let ready = |k: usize| k != not && self.done >> k & 1 == 0;
        let n = (0..self.n).filter(|k| ready(*k)).count();
        if n == 0 {
            return None;
        }
        let x = self.rng.us(n);
        let ready = |k: usize| k != not && self.done >> k & 1 == 0;
        (0..self.n).filter(|k| ready(*k)).nth(x)
    }
    /// give the turn to `to`, and wait until it is `me`'s again
    fn pass(&mut self, to: usize, me: usize) {
        unsafe {
            libc::pthread_mutex_lock(&mut self.m);
            std::ptr::write_volatile(&mut self.cur, to);
            libc::pthread_cond_broadcast(&mut self.c);
            while me != NOBODY && std::ptr::read_volatile(&self.cur) != me {
                libc::pthread_cond_wait(&mut self.c, &mut self.m);
            }
            libc::pthread_mutex_unlock(&mut self.m);
        }
    }
}

#[inline]
pub fn sched_point() {
    if !TURNS_ON.load(Ordering::Relaxed) {
        return;
    }
    let me = ME.with(|m| m.get());
    if me == NOBODY {
        return;
    }
    let t = turns();
    t.stuck = 0;
    if t.left > 0 {
        t.left -= 1;
        return;
    }
    t.draw();
    if let Some(to) = t.pick(NOBODY) {
        if to != me {
            switched(to);
            t.pass(to, me);
        }
    }
}
fn switched(to: usize) {
    let s = shm();
    s.scen[0] += 1;
    s.ev_hash = crate::rng::mix(s.ev_hash, 0x7475_726e ^ to as u64);
}
/// the thread cannot go on before another one does something
fn sched_wait(me: usize) {
    let t = turns();
    t.stuck += 1;
    if t.stuck >= 10_000 {
        die(END_HANG);
    }
    let Some(to) = t.pick(me) else {
        // no other job is left: a thread that a job started itself may come to its aid
        t.stuck += 50;
        std::thread::sleep(std::time::Duration::from_millis(10));
        return;
    };
    t.draw();
    switched(to);
    t.pass(to, me);
}

/// run the jobs in threads of their own, which take turns of about `mean` steps
pub fn take_turns(seed: u64, mean: u64, fine: bool, jobs: Vec<Box<dyn FnOnce() + Send>>) {
    let n = jobs.len();
    unsafe {
        TURNS = Box::into_raw(Box::new(Turns {
            cur: NOBODY,
            n,
            done: 0,
            left: 0,
            mean: mean.max(1),
            rng: crate::rng::Rng::new(seed),
            stuck: 0,
            m: libc::PTHREAD_MUTEX_INITIALIZER,
            c: libc::PTHREAD_COND_INITIALIZER,
        }));
    }
    let hs: Vec<_> = jobs
        .into_iter()
        .enumerate()
        .map(|(k, j)| {
            std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn(move || {
                    let t = turns();
                    unsafe {
                        libc::pthread_mutex_lock(&mut t.m);
                        while std::ptr::read_volatile(&t.cur) != k {
                            libc::pthread_cond_wait(&mut t.c, &mut t.m);
                        }
                        libc::pthread_mutex_unlock(&mut t.m);
                    }
                    ME.with(|m| m.set(k));
                    j();
                    ME.with(|m| m.set(NOBODY));
                    t.done |= 1 << k;
                    t.stuck = 0;
                    let to = t.pick(NOBODY).unwrap_or(n);
                    t.pass(to, NOBODY);
                })
                .expect("spawn")
        })
        .collect();
    let t = turns();
    t.draw();
    let first = t.pick(NOBODY).unwrap_or(n);
    TURNS_ON.store(true, Ordering::SeqCst);
    crate::cov::FINE.store(fine, Ordering::SeqCst);
    t.pass(first, n);
    crate::cov::FINE.store(false, Ordering::SeqCst);
    TURNS_ON.store(false, Ordering::SeqCst);
    for h in hs {
        let _ = h.join();
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> libc::c_long {
    if n == libc::SYS_futex && TURNS_ON.load(Ordering::Relaxed) {
        let me = ME.with(|m| m.get());
        let op = b as c_int & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
        if me != NOBODY && (op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET) {
            if std::ptr::read_volatile(a as *const u32) == c as u32 {
                sched_wait(me);
            }
            return fail(libc::EAGAIN) as libc::c_long;
        }
    }
    raw(n, a, b, c, d, e, f) as libc::c_long
}

// ---------------------------------------------------------------- start / stop

/// Run `f` under the simulation in this (forked) process; never returns.
/// `f` runs on a fresh thread so that thread-local hash keys are drawn from the simulated source.
pub fn run_child(w: World, env: &[(String, Option<String>)], args: &[String], f: Box<dyn FnOnce() -> i32 + Send>) -> ! {
    unsafe {
        for (k, v) in env {
            let k = std::ffi::CString::new(k.as_str()).unwrap();
            match v {
                Some(v) => {
                    let v = std::ffi::CString::new(v.as_str()).unwrap();
                    libc::setenv(k.as_ptr(), v.as_ptr(), 1);
                }
                None => {
                    libc::unsetenv(k.as_ptr());
                }
            }
        }
        crate::args::set_args(args);
        let rl = libc::rlimit { rlim_cur: 20, rlim_max: 25 };
        libc::setrlimit(libc::RLIMIT_CPU, &rl);
        let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &rl);
        libc::alarm(120);
        let seed = w.rand_seed;
        WORLD = Box::into_raw(Box::new(w));
        let r = Rt {
            fds: BTreeMap::new(),
            next_fd: 1000,
            stdin_pos: 0,
            stdin_calls: 0,
            out_len: [0; 3],
            wcalls: BTreeMap::new(),
            stat_calls: BTreeMap::new(),
            seek_calls: BTreeMap::new(),
            net_eintr: Default::default(),
            dirs: Vec::new(),
            rng: crate::rng::Rng::new(seed),
            alloc_big: 0,
        };
        RT = Box::into_raw(Box::new(r));
        let h = std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn(move || {
                shm().heap_cur.store(0, Ordering::Relaxed);
                shm().heap_peak.store(0, Ordering::Relaxed);
                ACTIVE.store(true, Ordering::SeqCst);
                let code = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
                    Ok(c) => c,
                    Err(_) => 101,
                };
                // what a returning main would do
                std::process::exit(code)
            })
            .expect("spawn");
        let _ = h.join();
        libc::_exit(101)
    }
}

// ---------------------------------------------------------------- allocator

pub struct CountingAlloc;
unsafe impl std::alloc::GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if active() && !account(l.size() as i64) {
            return std::ptr::null_mut();
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if active() && !account(l.size() as i64) {
            return std::ptr::null_mut();
        }
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        if active() && !IN_SIM.load(Ordering::Relaxed) {
            shm().heap_cur.fetch_sub(l.size() as i64, Ordering::Relaxed);
        }
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if active() && !account(n as i64 - l.size() as i64) {
            return std::ptr::null_mut();
        }
        std::alloc::System.realloc(p, l, n)
    }
}
const HEAP_LIMIT: i64 = 3 << 30;
fn account(d: i64) -> bool {
    if IN_SIM.load(Ordering::Relaxed) {
        return true;
    }
    if d > 0 {
        sched_point();
    }
    let s = shm();
    if d > 0 {
        s.allocs.fetch_add(1, Ordering::Relaxed);
    }
    let w = world();
    if !w.faults.is_empty() && d > 0 {
        for (i, f) in w.faults.iter().enumerate() {
            if let Fault::AllocFail { nth, min } = f {
                if d as u64 >= *min {
                    let r = rt();
                    r.alloc_big += 1;
                    if r.alloc_big == *nth {
                        s.fired[i] += 1;
                        return false;
                    }
                }
            }
        }
    }
    let cur = s.heap_cur.fetch_add(d, Ordering::Relaxed) + d;
    if cur > HEAP_LIMIT {
        return false;
    }
    if cur > s.heap_peak.load(Ordering::Relaxed) {
        s.heap_peak.store(cur, Ordering::Relaxed);
    }
    true
}

// ---------------------------------------------------------------- helpers

unsafe fn cstr(p: *const c_char) -> String {
    String::from_utf8_lossy(std::ffi::CStr::from_ptr(p).to_bytes()).into_owned()
}

pub fn norm(path: &str) -> String {
    let full = if path.starts_with('/') { path.to_string() } else { format!("/w/{}", path) };
    let mut out: Vec<&str> = Vec::new();
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    format!("/{}", out.join("/"))
}

fn find(path: &str) -> Option<usize> {
    // last one wins, so that a file re-created after unlink shadows the old node
    world().nodes.iter().rposition(|n| n.path == path)
}

fn same(a: &str, b: &str) -> bool {
    a == b || norm(a) == norm(b)
}

fn fault_nth(sel: impl Fn(&Fault) -> Option<(u32, i32)>, nth_now: u32) -> Option<c_int> {
    let w = world();
    for (i, f) in w.faults.iter().enumerate() {
        if let Some((nth, errno)) = sel(f) {
            if nth == u32::MAX || nth == nth_now {
                shm().fired[i] += 1;
                return Some(errno);
            }
        }
    }
    None
}

/// decide a read of at most `want` bytes at `pos` of `node`: Ok(n) or Err(errno)
fn decide_read(node: usize, pos: u64, call: u32, want: usize, key: &str) -> Result<usize, c_int> {
    let s = shm();
    let w = world();
    let calm = match w.nodes[node].chunked {
        Some((head, body)) if pos >= head => !body,
        _ => false,
    };
    if !calm && w.nodes[node].plan.eintr.binary_search(&call).is_ok() {
        if matches!(w.nodes[node].chunked, Some((head, true)) if pos >= head) {
            s.counters[C_CHUNK_EINTR] += 1;
        }
        s.counters[C_EINTR_R] += 1;
        return Err(libc::EINTR);
    }
    // endless inputs are extended on demand
    if let Some(g) = w.nodes[node].grow.clone() {
        let mut g = g;
        if pos > g.limit {
            die(END_BUDGET);
        }
        let need = pos as usize + want;
        while w.nodes[node].content.len() < need {
            let b = (g.next)(g.index);
            if b.is_empty() {
                break;
            }
            g.index += 1;
            w.nodes[node].content.extend_from_slice(&b);
        }
        w.nodes[node].grow = Some(g);
    }
    let len = w.nodes[node].content.len() as u64;
    let mut n = want.min(w.nodes[node].plan.size(call)) as u64;
    let avail = len.saturating_sub(pos);
    if want > 0 && n < want as u64 && n < avail {
        s.counters[C_SHORT_READ] += 1;
    }
    n = n.min(avail);
    for (i, f) in w.faults.iter().enumerate() {
        match f {
            Fault::ReadErr { path, offset, errno, once } if path == key || same(path, key) => {
                if want == 0 || (*once && s.fired[i] > 0) {
                    continue;
                }
                if pos >= *offset {
                    s.fired[i] += 1;
                    return Err(*errno);
                }
                n = n.min(*offset - pos);
            }
            Fault::Eof { path, offset } if path == key || same(path, key) => {
                if want == 0 {
                    continue;
                }
                if pos >= *offset {
                    if pos < len {
                        s.fired[i] += 1;
                    }
                    return Ok(0);
                }
                n = n.min(*offset - pos);
            }
            _ => {}
        }
    }
    Ok(n as usize)
}

fn note_consumed(node: usize, upto: u64) {
    let s = shm();
    if node < MAX_NODES && upto > s.consumed[node] {
        s.consumed_total += upto - s.consumed[node];
        s.consumed[node] = upto;
    }
}

unsafe fn copy_out(node: usize, pos: u64, n: usize, buf: *mut u8) {
    let c = &world().nodes[node].content;
    std::ptr::copy_nonoverlapping(c.as_ptr().add(pos as usize), buf, n);
}

/// decide a write of `want` bytes at stream position `pos`
fn decide_write(key: &str, pos: u64, want: usize) -> Result<usize, c_int> {
    let s = shm();
    let w = world();
    let r = rt();
    let call = {
        let c = r.wcalls.entry(key.to_string()).or_insert(0);
        *c += 1;
        *c - 1
    };
    s.counters[C_WRITE] += 1;
    let mut n = want;
    if let Some(p) = w.out_plans.get(key) {
        if p.eintr.binary_search(&call).is_ok() {
            s.counters[C_EINTR_W] += 1;
            return Err(libc::EINTR);
        }
        n = n.min(p.size(call));
    }
    for (i, f) in w.faults.iter().enumerate() {
        if let Fault::WriteErr { path, offset, errno, once } = f {
            if (path == key || same(path, key)) && want > 0 {
                if *once && s.fired[i] > 0 {
                    continue;
                }
                if pos >= *offset {
                    s.fired[i] += 1;
                    return Err(*errno);
                }
                n = n.min((*offset - pos) as usize);
            }
        }
    }
    if n < want {
        s.counters[C_SHORT_WRITE] += 1;
    }
    Ok(n)
}

// ---------------------------------------------------------------- files

unsafe fn raw(n: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    if (-4095..0).contains(&r) {
        set_errno(-r as c_int);
        return -1;
    }
    r
}

fn new_fd(f: Fd) -> c_int {
    let r = rt();
    let fd = r.next_fd;
    r.next_fd += 1;
    r.fds.insert(fd, f);
    shm().fds_peak = shm().fds_peak.max(r.fds.len() as u64);
    fd
}

fn do_open(path: &str, flags: c_int) -> isize {
    let _g = lock();
    step();
    let s = shm();
    let p = norm(path);
    s.counters[C_OPEN] += 1;
    let write = flags & libc::O_ACCMODE != libc::O_RDONLY;
    let w = world();
    let existing = find(&p);
    if write {
        if let Some(e) = fault_nth(|f| match f {
            Fault::CreateErr { path, errno } if same(path, &p) => Some((u32::MAX, *errno)),
            _ => None,
        }, 0) {
            ev(1, existing.unwrap_or(0xffff), flags as u64, -(e as i64));
            return fail(e);
        }
    } else if let Some(i) = existing {
        let nth = if i < MAX_NODES { s.opens[i] } else { 0 };
        if i < MAX_NODES {
            s.opens[i] += 1;
        }
        if let Some(e) = fault_nth(|f| match f {
            Fault::OpenErr { path, nth, errno } if same(path, &p) => Some((*nth, *errno)),
            _ => None,
        }, nth) {
            ev(1, i, flags as u64, -(e as i64));
            return fail(e);
        }
    }
    let idx = match existing {
        Some(i) => {
            if write && matches!(w.nodes[i].kind, Kind::Dir(_)) {
                ev(1, i, flags as u64, -(libc::EISDIR as i64));
                return fail(libc::EISDIR);
            }
            if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                return fail(libc::EEXIST);
            }
            i
        }
        None => {
            if flags & libc::O_CREAT == 0 {
                ev(1, 0xffff, flags as u64, -(libc::ENOENT as i64));
                return fail(libc::ENOENT);
            }
            let parent = p.rsplit_once('/').map(|x| x.0).unwrap_or("");
            if !parent.is_empty() && find(parent).map(|i| matches!(w.nodes[i].kind, Kind::Dir(_))) != Some(true) {
                ev(1, 0xffff, flags as u64, -(libc::ENOENT as i64));
                return fail(libc::ENOENT);
            }
            w.nodes.push(Node::file(&p, vec![], Plan::default()));
            let i = w.nodes.len() - 1;
            jput(J_CREATE, i, 0, p.as_bytes());
            i
        }
    };
    if write && flags & libc::O_TRUNC != 0 {
        w.nodes[idx].content.clear();
        w.nodes[idx].wlen = 0;
        w.nodes[idx].written = true;
        jput(J_TRUNC, idx, 0, b"");
    } else if write {
        w.nodes[idx].written = true;
        w.nodes[idx].wlen = w.nodes[idx].content.len() as u64;
    }
    let opened = if idx < MAX_NODES { s.opens[idx] } else { 0 };
    let fd = new_fd(Fd::File { node: idx, pos: 0, append: flags & libc::O_APPEND != 0, opened, calls: 0 });
    ev(1, idx, flags as u64, fd as i64);
    fd as isize
}

unsafe fn do_read(fd: c_int, iov: &[(*mut u8, usize)], at: Option<u64>) -> isize {
    let _g = lock();
    step();
    let s = shm();
    let want: usize = iov.iter().map(|x| x.1).sum();
    s.counters[C_READ] += 1;
    if fd == 0 {
        let r = rt();
        let Some(node) = world().stdin else { return 0 };
        let call = r.stdin_calls;
        r.stdin_calls += 1;
        let pos = r.stdin_pos;
        return match decide_read(node, pos, call, want, "stdin") {
            Err(e) => {
                ev(13, node, want as u64, -(e as i64));
                fail(e)
            }
            Ok(n) => {
                scatter(node, pos, n, iov);
                r.stdin_pos += n as u64;
                note_consumed(node, r.stdin_pos);
                ev(13, node, want as u64, n as i64);
                n as isize
            }
        };
    }
    let r = rt();
    match r.fds.get_mut(&fd) {
        Some(Fd::File { node, pos, calls, .. }) => {
            let node = *node;
            if matches!(world().nodes[node].kind, Kind::Dir(_)) {
                return fail(libc::EISDIR);
            }
            let p = at.unwrap_or(*pos);
            let call = *calls;
            *calls += 1;
            let key = world().nodes[node].path.clone();
            match decide_read(node, p, call, want, &key) {
                Err(e) => {
                    ev(2, node, want as u64, -(e as i64));
                    fail(e)
                }
                Ok(n) => {
                    scatter(node, p, n, iov);
                    if at.is_none() {
                        *pos += n as u64;
                    }
                    note_consumed(node, p + n as u64);
                    ev(2, node, want as u64, n as i64);
                    n as isize
                }
            }
        }
        Some(Fd::Sock { .. }) => do_recv(fd, iov, false),
        None => fail(libc::EBADF),
    }
}

unsafe fn scatter(node: usize, pos: u64, n: usize, iov: &[(*mut u8, usize)]) {
    let mut done = 0;
    for (p, l) in iov {
        if done >= n {
            break;
        }
        let k = (*l).min(n - done);
        copy_out(node, pos + done as u64, k, *p);
        done += k;
    }
}

unsafe fn do_write(fd: c_int, iov: &[(*const u8, usize)], at: Option<u64>) -> isize {
    let _g = lock();
    step();
    let want: usize = iov.iter().map(|x| x.1).sum();
    let mut data = Vec::with_capacity(want);
    for (p, l) in iov {
        data.extend_from_slice(std::slice::from_raw_parts(*p, *l));
    }
    if fd == 1 || fd == 2 {
        let key = if fd == 1 { "stdout" } else { "stderr" };
        let r = rt();
        let pos = r.out_len[fd as usize];
        let evk = if fd == 1 { 14 } else { 15 };
        let res = decide_write(key, pos, want);
        let n = match res {
            Err(e) => {
                ev(evk, 0, want as u64, -(e as i64));
                return fail(e);
            }
            Ok(n) => n,
        };
        if let Some((i, torn)) = torn_now() {
            let k = (torn as usize).min(n);
            jput(if fd == 1 { J_STDOUT } else { J_STDERR }, 0, pos, &data[..k]);
            shm().fired[i] += 1;
            die(END_CRASH);
        }
        jput(if fd == 1 { J_STDOUT } else { J_STDERR }, 0, pos, &data[..n]);
        r.out_len[fd as usize] += n as u64;
        ev(evk, 0, want as u64, n as i64);
        return n as isize;
    }
    let r = rt();
    match r.fds.get_mut(&fd) {
        Some(Fd::File { node, pos, append, .. }) => {
            let node = *node;
            let w = world();
            let p = match at {
                Some(a) => a,
                None if *append => w.nodes[node].wlen,
                None => *pos,
            };
            let key = w.nodes[node].path.clone();
            let n = match decide_write(&key, p, want) {
                Err(e) => {
                    ev(3, node, want as u64, -(e as i64));
                    return fail(e);
                }
                Ok(n) => n,
            };
            let torn = torn_now();
            let n = match torn {
                Some((_, t)) => n.min(t as usize),
                None => n,
            };
            jput(J_WRITE, node, p, &data[..n]);
            if let Some((i, _)) = torn {
                shm().fired[i] += 1;
                die(END_CRASH);
            }
            w.nodes[node].wlen = w.nodes[node].wlen.max(p + n as u64);
            if at.is_none() {
                *pos = p + n as u64;
            }
            ev(3, node, want as u64, n as i64);
            n as isize
        }
        Some(Fd::Sock { .. }) => do_send(fd, &data),
        None => fail(libc::EBADF),
    }
}

fn node_len(i: usize) -> u64 {
    let n = &world().nodes[i];
    if n.grow.is_some() {
        return 1 << 40;
    }
    if n.written {
        n.wlen
    } else {
        n.content.len() as u64
    }
}

fn do_lseek(fd: c_int, off: i64, whence: c_int) -> i64 {
    let _g = lock();
    step();
    let r = rt();
    match r.fds.get_mut(&fd) {
        Some(Fd::File { node, pos, .. }) => {
            let path = world().nodes[*node].path.clone();
            let c = r.seek_calls.entry(path.clone()).or_insert(0);
            let nth = *c;
            *c += 1;
            if let Some(e) = fault_nth(|f| match f {
                Fault::SeekErr { path: p, nth, errno } if same(p, &path) => Some((*nth, *errno)),
                _ => None,
            }, nth) {
                ev(4, *node, off as u64, -(e as i64));
                return fail(e) as i64;
            }
            let base = match whence {
                libc::SEEK_SET => 0,
                libc::SEEK_CUR => *pos as i64,
                libc::SEEK_END => node_len(*node) as i64,
                _ => return fail(libc::EINVAL) as i64,
            };
            let np = base + off;
            if np < 0 {
                ev(4, *node, off as u64, -(libc::EINVAL as i64));
                return fail(libc::EINVAL) as i64;
            }
            *pos = np as u64;
            ev(4, *node, off as u64, np);
            np
        }
        _ => fail(libc::ESPIPE) as i64,
    }
}

fn stat_node(path: Option<&str>, fd: Option<c_int>) -> Result<(bool, u64, u64), c_int> {
    let _g = lock();
    step();
    let s = shm();
    s.counters[C_STAT] += 1;
    if let Some(p) = path {
        let p = norm(p);
        let r = rt();
        let c = r.stat_calls.entry(p.clone()).or_insert(0);
        let nth = *c;
        *c += 1;
        if let Some(e) = fault_nth(|f| match f {
            Fault::StatErr { path, nth, errno } if same(path, &p) => Some((*nth, *errno)),
            _ => None,
        }, nth) {
            ev(5, 0xffff, 0, -(e as i64));
            return Err(e);
        }
        match find(&p) {
            None => {
                ev(5, 0xffff, 0, -(libc::ENOENT as i64));
                Err(libc::ENOENT)
            }
            Some(i) => {
                ev(5, i, 0, 0);
                Ok((matches!(world().nodes[i].kind, Kind::Dir(_)), node_len(i), i as u64))
            }
        }
    } else {
        let fd = fd.unwrap();
        ev(16, fd as usize & 0xffff, 0, 0);
        match rt().fds.get(&fd) {
            Some(Fd::File { node, .. }) => Ok((matches!(world().nodes[*node].kind, Kind::Dir(_)), node_len(*node), *node as u64)),
            Some(_) => Ok((false, 0, 9000)),
            None if fd <= 2 => Ok((false, 0, 9001)),
            None => Err(libc::EBADF),
        }
    }
}

unsafe fn fill_stat(st: *mut libc::stat64, v: (bool, u64, u64)) {
    std::ptr::write_bytes(st, 0, 1);
    (*st).st_mode = if v.0 { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 };
    (*st).st_size = v.1 as i64;
    (*st).st_ino = v.2 + 1;
    (*st).st_nlink = 1;
    (*st).st_blksize = 4096;
    (*st).st_mtime = 1_600_000_000;
}

// ---------------------------------------------------------------- network

fn sock(fd: c_int) -> Option<&'static mut Fd> {
    rt().fds.get_mut(&fd)
}

fn do_send(fd: c_int, data: &[u8]) -> isize {
    // lock held by the caller
    let w = world();
    let s = shm();
    let Some(Fd::Sock { host, req, sent_total, send_calls, queue, connecting, .. }) = sock(fd) else { return fail(libc::EBADF) };
    if *connecting {
        *connecting = false;
    }
    let Some(host) = host.clone() else { return fail(libc::ENOTCONN) };
    let call = *send_calls;
    *send_calls += 1;
    if w.send_plan.eintr.binary_search(&call).is_ok() {
        s.counters[C_EINTR_W] += 1;
        ev(10, 0, data.len() as u64, -(libc::EINTR as i64));
        return fail(libc::EINTR);
    }
    let mut n = data.len().min(w.send_plan.size(call));
    for (i, f) in w.faults.iter().enumerate() {
        if let Fault::SendErr { host: h, offset, errno } = f {
            if *h == host {
                if *sent_total >= *offset {
                    s.fired[i] += 1;
                    ev(10, 0, data.len() as u64, -(*errno as i64));
                    return fail(*errno);
                }
                n = n.min((*offset - *sent_total) as usize);
            }
        }
    }
    if n < data.len() {
        s.counters[C_SHORT_WRITE] += 1;
    }
    *sent_total += n as u64;
    req.extend_from_slice(&data[..n]);
    // the server side: answer complete requests
    while let Some(end) = find_sub(req, b"\r\n\r\n") {
        let head = String::from_utf8_lossy(&req[..end]).into_owned();
        req.drain(..end + 4);
        let target = head.split_whitespace().nth(1).unwrap_or("/").to_string();
        let hosthdr = head
            .lines()
            .find_map(|l| {
                let (k, v) = l.split_once(':')?;
                if k.trim().eq_ignore_ascii_case("host") { Some(v.trim().to_string()) } else { None }
            })
            .unwrap_or(host.clone());
        let url = format!("http://{}{}", hosthdr, target);
        let id = w.urls.get(&url).copied().or_else(|| w.urls.get("404").copied());
        if let Some(id) = id {
            queue.push(id);
        }
    }
    ev(10, 0, data.len() as u64, n as i64);
    n as isize
}

fn find_sub(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

unsafe fn do_recv(fd: c_int, iov: &[(*mut u8, usize)], peek: bool) -> isize {
    // lock held by the caller
    let w = world();
    let want: usize = iov.iter().map(|x| x.1).sum();
    shm().counters[C_RECV] += 1;
    loop {
        let Some(Fd::Sock { resp, pos, calls, nonblock, queue, .. }) = sock(fd) else { return fail(libc::EBADF) };
        if resp.is_none() {
            if queue.is_empty() {
                if *nonblock {
                    return fail(libc::EAGAIN);
                }
                // nobody will ever send anything: a real process would block forever
                die(END_HANG);
            }
            *resp = Some(queue.remove(0));
            *pos = 0;
        }
        let node = resp.unwrap();
        let call = *calls;
        if !peek {
            *calls += 1;
        }
        let key = w.nodes[node].path.clone();
        let call = if w.nodes[node].plan.eintr.binary_search(&call).is_ok() && !rt().net_eintr.insert((node, call)) { call | 1 << 30 } else { call };
        match decide_read(node, *pos, call, want, &key) {
            Err(e) => {
                ev(9, node, want as u64, -(e as i64));
                return fail(e);
            }
            Ok(0) if want > 0 => {
                let cut = w.faults.iter().any(|f| matches!(f, Fault::Eof{path,offset} if *path==key && *pos >= *offset));
                if w.nodes[node].keep_alive && !cut {
                    if *nonblock {
                        ev(9, node, want as u64, -(libc::EAGAIN as i64));
                        return fail(libc::EAGAIN);
                    }
                    if queue.is_empty() {
                        die(END_HANG);
                    }
                    *resp = None;
                    continue;
                }
                ev(9, node, want as u64, 0);
                return 0;
            }
            Ok(n) => {
                scatter(node, *pos, n, iov);
                if !peek {
                    *pos += n as u64;
                    note_consumed(node, *pos);
                }
                ev(9, node, want as u64, n as i64);
                return n as isize;
            }
        }
    }
}

// ---------------------------------------------------------------- interposed symbols

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if !active() {
        return raw(libc::SYS_openat, libc::AT_FDCWD as isize as usize, path as usize, flags as usize, mode as usize, 0, 0) as c_int;
    }
    do_open(&cstr(path), flags) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open64(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if !active() {
        return raw(libc::SYS_openat, dfd as isize as usize, path as usize, flags as usize, mode as usize, 0, 0) as c_int;
    }
    do_open(&cstr(path), flags) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat(dfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat64(dfd, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if !active() {
        return raw(libc::SYS_read, fd as usize, buf as usize, n, 0, 0, 0);
    }
    do_read(fd, &[(buf as *mut u8, n)], None)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if !active() {
        return raw(libc::SYS_pread64, fd as usize, buf as usize, n, off as usize, 0, 0);
    }
    do_read(fd, &[(buf as *mut u8, n)], Some(off as u64))
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if !active() {
        return raw(libc::SYS_readv, fd as usize, iov as usize, cnt as usize, 0, 0, 0);
    }
    let v: Vec<(*mut u8, usize)> = std::slice::from_raw_parts(iov, cnt as usize).iter().map(|x| (x.iov_base as *mut u8, x.iov_len)).collect();
    do_read(fd, &v, None)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if !active() {
        return raw(libc::SYS_write, fd as usize, buf as usize, n, 0, 0, 0);
    }
    do_write(fd, &[(buf as *const u8, n)], None)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if !active() {
        return raw(libc::SYS_pwrite64, fd as usize, buf as usize, n, off as usize, 0, 0);
    }
    do_write(fd, &[(buf as *const u8, n)], Some(off as u64))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if !active() {
        return raw(libc::SYS_writev, fd as usize, iov as usize, cnt as usize, 0, 0, 0);
    }
    let v: Vec<(*const u8, usize)> = std::slice::from_raw_parts(iov, cnt as usize).iter().map(|x| (x.iov_base as *const u8, x.iov_len)).collect();
    do_write(fd, &v, None)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if !active() {
        return raw(libc::SYS_lseek, fd as usize, off as usize, whence as usize, 0, 0, 0) as off64_t;
    }
    do_lseek(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    lseek64(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if !active() {
        return raw(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0) as c_int;
    }
    let _g = lock();
    match rt().fds.remove(&fd) {
        Some(_) => {
            step();
            ev(6, fd as usize & 0xffff, 0, 0);
            0
        }
        None => 0,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if !active() {
        return raw(libc::SYS_fsync, fd as usize, 0, 0, 0, 0, 0) as c_int;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if !active() {
        return raw(libc::SYS_fdatasync, fd as usize, 0, 0, 0, 0, 0) as c_int;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if !active() {
        return raw(libc::SYS_ftruncate, fd as usize, len as usize, 0, 0, 0, 0) as c_int;
    }
    let _g = lock();
    step();
    match rt().fds.get(&fd) {
        Some(Fd::File { node, .. }) => {
            let n = &mut world().nodes[*node];
            n.written = true;
            n.wlen = len as u64;
            jput(J_TRUNC, *node, len as u64, b"");
            ev(21, *node, len as u64, 0);
            0
        }
        _ => fail(libc::EBADF) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    ftruncate64(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    if !active() {
        return raw(libc::SYS_unlink, path as usize, 0, 0, 0, 0, 0) as c_int;
    }
    let _g = lock();
    step();
    let p = norm(&cstr(path));
    match find(&p) {
        Some(i) => {
            jput(J_UNLINK, i, 0, b"");
            world().nodes[i].path = format!("/deleted/{}{}", i, p);
            ev(19, i, 0, 0);
            0
        }
        None => fail(libc::ENOENT) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if !active() {
        return raw(libc::SYS_rename, a as usize, b as usize, 0, 0, 0, 0) as c_int;
    }
    let _g = lock();
    step();
    let (pa, pb) = (norm(&cstr(a)), norm(&cstr(b)));
    match find(&pa) {
        Some(i) => {
            if let Some(j) = find(&pb) {
                if i != j {
                    jput(J_UNLINK, j, 0, b"");
                    world().nodes[j].path = format!("/deleted/{}{}", j, pb);
                }
            }
            jput(J_RENAME, i, 0, pb.as_bytes());
            world().nodes[i].path = pb;
            ev(20, i, 0, 0);
            0
        }
        None => fail(libc::ENOENT) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    if !active() {
        return raw(libc::SYS_mkdir, path as usize, mode as usize, 0, 0, 0, 0) as c_int;
    }
    let _g = lock();
    step();
    let p = norm(&cstr(path));
    if find(&p).is_some() {
        return fail(libc::EEXIST) as c_int;
    }
    world().nodes.push(Node::dir(&p, vec![]));
    ev(23, 0, 0, 0);
    0
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    if !active() {
        return raw(libc::SYS_rmdir, path as usize, 0, 0, 0, 0, 0) as c_int;
    }
    fail(libc::ENOTSUP) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(dfd: c_int, path: *const c_char, flags: c_int, mask: u32, buf: *mut libc::statx) -> c_int {
    if !active() {
        return raw(libc::SYS_statx, dfd as isize as usize, path as usize, flags as usize, mask as usize, buf as usize, 0) as c_int;
    }
    // std probes for the call with null pointers after a first failure
    if path.is_null() || buf.is_null() {
        return fail(libc::EFAULT) as c_int;
    }
    let p = cstr(path);
    let v = if p.is_empty() && flags & libc::AT_EMPTY_PATH != 0 { stat_node(None, Some(dfd)) } else { stat_node(Some(&p), None) };
    match v {
        Err(e) => fail(e) as c_int,
        Ok(v) => {
            std::ptr::write_bytes(buf, 0, 1);
            (*buf).stx_mask = libc::STATX_BASIC_STATS;
            (*buf).stx_mode = (if v.0 { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 }) as u16;
            if flags & libc::AT_SYMLINK_NOFOLLOW != 0 && world().links.contains(&norm(&p)) {
                (*buf).stx_mode = (libc::S_IFLNK | 0o777) as u16;
            }
            (*buf).stx_size = v.1;
            (*buf).stx_ino = v.2 + 1;
            (*buf).stx_nlink = 1;
            (*buf).stx_blksize = 4096;
            (*buf).stx_mtime.tv_sec = 1_600_000_000;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    if !active() {
        return raw(libc::SYS_stat, path as usize, st as usize, 0, 0, 0, 0) as c_int;
    }
    match stat_node(Some(&cstr(path)), None) {
        Err(e) => fail(e) as c_int,
        Ok(v) => {
            fill_stat(st, v);
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    if !active() {
        return raw(libc::SYS_lstat, path as usize, st as usize, 0, 0, 0, 0) as c_int;
    }
    let r = stat64(path, st);
    if r == 0 && world().links.contains(&norm(&cstr(path))) {
        (*st).st_mode = libc::S_IFLNK | 0o777;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if !active() {
        return raw(libc::SYS_fstat, fd as usize, st as usize, 0, 0, 0, 0) as c_int;
    }
    match stat_node(None, Some(fd)) {
        Err(e) => fail(e) as c_int,
        Ok(v) => {
            fill_stat(st, v);
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    if !active() {
        return raw(libc::SYS_access, path as usize, mode as usize, 0, 0, 0, 0) as c_int;
    }
    match stat_node(Some(&cstr(path)), None) {
        Err(e) => fail(e) as c_int,
        Ok(_) => 0,
    }
}
#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if !active() {
        return raw(libc::SYS_readlink, path as usize, buf as usize, n, 0, 0, 0);
    }
    fail(libc::EINVAL)
}
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    if !active() {
        let f: extern "C" fn(*const c_char, *mut c_char) -> *mut c_char = std::mem::transmute(next(b"realpath\0"));
        return f(path, out);
    }
    let p = norm(&cstr(path));
    if find(&p).is_none() {
        set_errno(libc::ENOENT);
        return std::ptr::null_mut();
    }
    let b = p.as_bytes();
    let dst = if out.is_null() { libc::malloc(b.len() + 1) as *mut c_char } else { out };
    std::ptr::copy_nonoverlapping(b.as_ptr(), dst as *mut u8, b.len());
    *dst.add(b.len()) = 0;
    dst
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if !active() {
        let r = raw(libc::SYS_getcwd, buf as usize, n, 0, 0, 0, 0);
        return if r < 0 { std::ptr::null_mut() } else { buf };
    }
    if n < 3 {
        set_errno(libc::ERANGE);
        return std::ptr::null_mut();
    }
    std::ptr::copy_nonoverlapping(b"/w\0".as_ptr(), buf as *mut u8, 3);
    buf
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if !active() {
        return raw(libc::SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0) as c_int;
    }
    let _g = lock();
    match cmd {
        libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => {
            let r = rt();
            let copy = match r.fds.get(&fd) {
                Some(Fd::File { node, pos, append, opened, calls }) => Fd::File { node: *node, pos: *pos, append: *append, opened: *opened, calls: *calls },
                _ => return fail(libc::EINVAL) as c_int,
            };
            new_fd(copy)
        }
        libc::F_GETFL => {
            if let Some(Fd::Sock { nonblock, .. }) = rt().fds.get(&fd) {
                return if *nonblock { libc::O_NONBLOCK | libc::O_RDWR } else { libc::O_RDWR };
            }
            libc::O_RDWR
        }
        libc::F_SETFL => {
            if let Some(Fd::Sock { nonblock, .. }) = rt().fds.get_mut(&fd) {
                *nonblock = arg as c_int & libc::O_NONBLOCK != 0;
            }
            0
        }
        _ => 0,
    }
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: usize) -> c_int {
    if !active() {
        return raw(libc::SYS_ioctl, fd as usize, req as usize, arg, 0, 0, 0) as c_int;
    }
    let _g = lock();
    if req == libc::FIONBIO {
        if let Some(Fd::Sock { nonblock, .. }) = rt().fds.get_mut(&fd) {
            *nonblock = *(arg as *const c_int) != 0;
            return 0;
        }
    }
    fail(libc::ENOTTY) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if !active() {
        let mut t: libc::termios = std::mem::zeroed();
        return (raw(libc::SYS_ioctl, fd as usize, libc::TCGETS as usize, &mut t as *mut _ as usize, 0, 0, 0) == 0) as c_int;
    }
    set_errno(libc::ENOTTY);
    0
}

unsafe fn next(name: &[u8]) -> *mut c_void {
    libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char)
}

const DIR_TAG: usize = 0x5100_0000_0000;
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut libc::DIR {
    if !active() {
        let f: extern "C" fn(*const c_char) -> *mut libc::DIR = std::mem::transmute(next(b"opendir\0"));
        return f(path);
    }
    let _g = lock();
    step();
    let p = norm(&cstr(path));
    if let Some(e) = fault_nth(|f| match f {
        Fault::OpendirErr { path, errno } if same(path, &p) => Some((u32::MAX, *errno)),
        _ => None,
    }, 0) {
        ev(7, 0xffff, 0, -(e as i64));
        set_errno(e);
        return std::ptr::null_mut();
    }
    match find(&p) {
        Some(i) if matches!(world().nodes[i].kind, Kind::Dir(_)) => {
            let r = rt();
            r.dirs.push(Some(Box::new(DirState { node: i, idx: 0, fault_idx: 0, ent: std::mem::zeroed() })));
            ev(7, i, 0, 0);
            (DIR_TAG + r.dirs.len()) as *mut libc::DIR
        }
        Some(_) => {
            set_errno(libc::ENOTDIR);
            std::ptr::null_mut()
        }
        None => {
            set_errno(libc::ENOENT);
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    if (d as usize) < DIR_TAG || (d as usize) > DIR_TAG + 100_000 {
        let f: extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64 = std::mem::transmute(next(b"readdir64\0"));
        return f(d);
    }
    let _g = lock();
    step();
    shm().counters[C_READDIR] += 1;
    let r = rt();
    let st = r.dirs[d as usize - DIR_TAG - 1].as_mut().unwrap();
    let n = &world().nodes[st.node];
    let idx = st.idx as u32;
    if st.fault_idx <= idx {
        st.fault_idx = idx + 1;
        let path = n.path.clone();
        if let Some(e) = fault_nth(|f| match f {
            Fault::ReaddirErr { path: p, idx, errno } if same(p, &path) => Some((*idx, *errno)),
            _ => None,
        }, idx) {
            ev(8, st.node, idx as u64, -(e as i64));
            set_errno(e);
            return std::ptr::null_mut();
        }
    }
    let Kind::Dir(ents) = &n.kind else { return std::ptr::null_mut() };
    let dir = n.path.trim_end_matches('/');
    if st.idx >= ents.len() {
        ev(8, st.node, idx as u64, 0);
        set_errno(0);
        return std::ptr::null_mut();
    }
    let e = &ents[st.idx];
    st.idx += 1;
    st.ent = std::mem::zeroed();
    st.ent.d_ino = st.idx as u64 + 100;
    st.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
    st.ent.d_type = if world().dtype_unknown { libc::DT_UNKNOWN } else if world().links.contains(&norm(&format!("{}/{}", dir, e.name))) { libc::DT_LNK } else if e.is_dir { libc::DT_DIR } else { libc::DT_REG };
    for (i, b) in e.name.bytes().take(255).enumerate() {
        st.ent.d_name[i] = b as c_char;
    }
    ev(8, st.node, idx as u64, 1);
    &mut st.ent
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    if (d as usize) < DIR_TAG || (d as usize) > DIR_TAG + 100_000 {
        let f: extern "C" fn(*mut libc::DIR) -> c_int = std::mem::transmute(next(b"closedir\0"));
        return f(d);
    }
    let _g = lock();
    rt().dirs[d as usize - DIR_TAG - 1] = None;
    0
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut libc::DIR) -> c_int {
    if (d as usize) < DIR_TAG || (d as usize) > DIR_TAG + 100_000 {
        let f: extern "C" fn(*mut libc::DIR) -> c_int = std::mem::transmute(next(b"dirfd\0"));
        return f(d);
    }
    900
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if !active() {
        return raw(libc::SYS_clock_gettime, id as usize, ts as usize, 0, 0, 0, 0) as c_int;
    }
    shm().counters[C_CLOCK] += 1;
    let mut t = shm().sim_ns;
    if id == libc::CLOCK_REALTIME {
        t += world().clock_start_ns;
    }
    (*ts).tv_sec = (t / 1_000_000_000) as i64;
    (*ts).tv_nsec = (t % 1_000_000_000) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !active() {
        return raw(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0) as c_int;
    }
    shm().sim_ns += (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: u32) -> ssize_t {
    if !active() {
        return raw(libc::SYS_getrandom, buf as usize, n, flags as usize, 0, 0, 0);
    }
    let _g = lock();
    shm().counters[C_RAND] += 1;
    let r = rt();
    for i in 0..n {
        *(buf as *mut u8).add(i) = r.rng.u64() as u8;
    }
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn socket(domain: c_int, ty: c_int, proto: c_int) -> c_int {
    if !active() {
        return raw(libc::SYS_socket, domain as usize, ty as usize, proto as usize, 0, 0, 0) as c_int;
    }
    let _g = lock();
    step();
    let fd = new_fd(Fd::Sock { host: None, req: vec![], resp: None, pos: 0, calls: 0, sent_total: 0, send_calls: 0, nonblock: ty & libc::SOCK_NONBLOCK != 0, connecting: false, queue: vec![] });
    ev(22, 0, 0, fd as i64);
    fd
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, addr: *const libc::sockaddr, len: libc::socklen_t) -> c_int {
    if !active() {
        return raw(libc::SYS_connect, fd as usize, addr as usize, len as usize, 0, 0, 0) as c_int;
    }
    let _g = lock();
    step();
    let a = addr as *const libc::sockaddr_in;
    let ip = u32::from_be((*a).sin_addr.s_addr);
    let idx = (ip & 0xffff) as usize;
    let w = world();
    let Some(h) = w.hosts.get(idx).cloned() else { return fail(libc::ECONNREFUSED) as c_int };
    if let Some(Fd::Sock { host, nonblock, connecting, .. }) = sock(fd) {
        *host = Some(h.clone());
        if let Some(e) = fault_nth(|f| match f {
            Fault::Connect { host, errno } if *host == h => Some((u32::MAX, *errno)),
            _ => None,
        }, 0) {
            ev(11, idx, 0, -(e as i64));
            return fail(e) as c_int;
        }
        let timeout = w.faults.iter().any(|f| matches!(f, Fault::ConnectTimeout{host} if *host == h));
        if *nonblock && (w.connect_async || timeout) {
            *connecting = true;
            ev(11, idx, 0, -(libc::EINPROGRESS as i64));
            return fail(libc::EINPROGRESS) as c_int;
        }
        if timeout {
            fault_nth(|f| match f {
                Fault::ConnectTimeout { host } if *host == h => Some((u32::MAX, 1)),
                _ => None,
            }, 0);
            shm().sim_ns += 120_000_000_000;
            return fail(libc::ETIMEDOUT) as c_int;
        }
        ev(11, idx, 0, 0);
        0
    } else {
        fail(libc::EBADF) as c_int
    }
}
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: libc::nfds_t, timeout: c_int) -> c_int {
    if !active() {
        return raw(libc::SYS_poll, fds as usize, n as usize, timeout as usize, 0, 0, 0) as c_int;
    }
    let _g = lock();
    step();
    let v = std::slice::from_raw_parts_mut(fds, n as usize);
    let mut ready = 0;
    for p in v.iter_mut() {
        p.revents = 0;
        if let Some(Fd::Sock { host, connecting, .. }) = sock(p.fd) {
            if *connecting {
                let h = host.clone().unwrap_or_default();
                if fault_nth(|f| match f {
                    Fault::ConnectTimeout { host } if *host == h => Some((u32::MAX, 1)),
                    _ => None,
                }, 0).is_some() {
                    // the handshake never completes: the whole timeout passes
                    shm().sim_ns += (timeout.max(0) as u64) * 1_000_000;
                    continue;
                }
                *connecting = false;
                shm().sim_ns += 20_000_000;
            }
            p.revents = p.events;
            ready += 1;
        }
    }
    ev(18, 0, timeout as u64, ready);
    ready as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, l: c_int, o: c_int, v: *mut c_void, n: *mut libc::socklen_t) -> c_int {
    if !active() {
        return raw(libc::SYS_getsockopt, fd as usize, l as usize, o as usize, v as usize, n as usize, 0) as c_int;
    }
    if !v.is_null() {
        std::ptr::write_bytes(v as *mut u8, 0, *n as usize);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, l: c_int, o: c_int, v: *const c_void, n: libc::socklen_t) -> c_int {
    if !active() {
        return raw(libc::SYS_setsockopt, fd as usize, l as usize, o as usize, v as usize, n as usize, 0) as c_int;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if !active() {
        return raw(libc::SYS_shutdown, fd as usize, how as usize, 0, 0, 0, 0) as c_int;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut c_void, n: size_t, flags: c_int) -> ssize_t {
    if !active() {
        return raw(libc::SYS_recvfrom, fd as usize, buf as usize, n, flags as usize, 0, 0);
    }
    let _g = lock();
    step();
    do_recv(fd, &[(buf as *mut u8, n)], flags & libc::MSG_PEEK != 0)
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, n: size_t, flags: c_int) -> ssize_t {
    if !active() {
        return raw(libc::SYS_sendto, fd as usize, buf as usize, n, flags as usize, 0, 0);
    }
    let _g = lock();
    step();
    do_send(fd, std::slice::from_raw_parts(buf as *const u8, n))
}
#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(node: *const c_char, serv: *const c_char, _hints: *const libc::addrinfo, res: *mut *mut libc::addrinfo) -> c_int {
    if !active() {
        return libc::EAI_FAIL;
    }
    let _ = serv;
    let _g = lock();
    step();
    let h = cstr(node);
    let w = world();
    let dns = fault_nth(|f| match f {
        Fault::Dns { host } if *host == h => Some((u32::MAX, 1)),
        _ => None,
    }, 0).is_some();
    let Some(idx) = w.hosts.iter().position(|x| *x == h) else {
        ev(12, 0, 0, -1);
        return libc::EAI_NONAME;
    };
    if dns {
        ev(12, 0, 0, -2);
        return libc::EAI_AGAIN;
    }
    let sa = libc::calloc(1, std::mem::size_of::<libc::sockaddr_in>()) as *mut libc::sockaddr_in;
    (*sa).sin_family = libc::AF_INET as u16;
    (*sa).sin_addr.s_addr = (0x0a00_0000u32 | idx as u32).to_be();
    let ai = libc::calloc(1, std::mem::size_of::<libc::addrinfo>()) as *mut libc::addrinfo;
    (*ai).ai_family = libc::AF_INET;
    (*ai).ai_socktype = libc::SOCK_STREAM;
    (*ai).ai_addrlen = std::mem::size_of::<libc::sockaddr_in>() as u32;
    (*ai).ai_addr = sa as *mut libc::sockaddr;
    *res = ai;
    ev(12, idx, 0, 0);
    0
}
#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(ai: *mut libc::addrinfo) {
    if !ai.is_null() {
        libc::free((*ai).ai_addr as *mut c_void);
        libc::free(ai as *mut c_void);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __res_init() -> c_int {
    0
}

// ---------------------------------------------------------------- user-supplied transports

/// open a stream served by a transport that is part of the harness (not a file descriptor)
pub fn ext_open(path: &str) -> Result<usize, c_int> {
    let _g = lock();
    step();
    let s = shm();
    s.counters[C_OPEN] += 1;
    let Some(i) = world().nodes.iter().rposition(|n| n.path == path) else { return Err(libc::ENOENT) };
    let nth = if i < MAX_NODES { s.opens[i] } else { 0 };
    if i < MAX_NODES {
        s.opens[i] += 1;
    }
    if let Some(e) = fault_nth(|f| match f {
        Fault::OpenErr { path: p, nth, errno } if p == path => Some((*nth, *errno)),
        _ => None,
    }, nth) {
        ev(1, i, 0, -(e as i64));
        return Err(e);
    }
    ev(1, i, 0, 0);
    Ok(i)
}

pub fn ext_read(node: usize, pos: &mut u64, calls: &mut u32, buf: &mut [u8]) -> Result<usize, c_int> {
    let _g = lock();
    step();
    shm().counters[C_READ] += 1;
    let key = world().nodes[node].path.clone();
    let call = *calls;
    *calls += 1;
    match decide_read(node, *pos, call, buf.len(), &key) {
        Err(e) => {
            ev(2, node, buf.len() as u64, -(e as i64));
            Err(e)
        }
        Ok(n) => {
            unsafe { copy_out(node, *pos, n, buf.as_mut_ptr()) };
            *pos += n as u64;
            note_consumed(node, *pos);
            ev(2, node, buf.len() as u64, n as i64);
            Ok(n)
        }
    }
}

/// a scheduling/observation point of a library scenario: counts as an operation, enters the event hash
pub fn ext_event(kind: u16, node: usize, arg: u64) {
    let _g = lock();
    step();
    ev(kind, node, arg, 0);
}

// kernel-side copies: not offered by the simulated system, callers fall back to read/write
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, b: *mut off64_t, c: c_int, d: *mut off64_t, n: size_t, f: u32) -> ssize_t {
    if active() {
        return fail(libc::ENOSYS);
    }
    raw(libc::SYS_copy_file_range, a as usize, b as usize, c as usize, d as usize, n, f as usize)
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, o: *mut off64_t, n: size_t) -> ssize_t {
    if active() {
        return fail(libc::ENOSYS);
    }
    raw(libc::SYS_sendfile, a as usize, b as usize, o as usize, n, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn splice(a: c_int, b: *mut off64_t, c: c_int, d: *mut off64_t, n: size_t, f: u32) -> ssize_t {
    if active() {
        return fail(libc::EINVAL);
    }
    raw(libc::SYS_splice, a as usize, b as usize, c as usize, d as usize, n, f as usize)
}
