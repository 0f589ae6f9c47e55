//! Scenarios that run the command line tool.
use crate::case::*;
use crate::codec::Container;
use crate::gen::{self, Knobs};
use crate::model::{CsvEnc, V};
use crate::oracle::{self, bad, cut_effect, FileEff, Verdict};
use crate::rng::Rng;
use crate::run::{Exit, RunResult};
use crate::runner::Ctx;
use crate::simos::{self, Fault, Plan};
use serde::{Deserialize, Serialize};

pub fn probe_case(cx: &mut Ctx, c: &CliCase) {
    for i in &c.inputs {
        cx.probe(match &i.loc {
            Loc::File => "input:file",
            Loc::Stdin => "input:stdin",
            Loc::Http(_) => "input:http",
            Loc::Dir { .. } => "input:directory",
            Loc::Custom => "input:user transport",
        });
        cx.probe(match i.route {
            Route::Name => "format:by name",
            Route::User => "format:given",
            Route::Content => "format:by content",
            Route::NameThenContent => "format:name then content",
        });
        for f in &i.files {
            cx.probe(&format!("container:{}", f.cont.kind()));
            cx.probe(match f.enc {
                Enc::Csv(_) => "encoding:text",
                Enc::Dc(_) => "encoding:binary",
                Enc::User(_) => "encoding:user format",
                Enc::Raw(_) => "encoding:raw",
            });
        }
    }
    if c.lib.is_some() {
        cx.probe("program:library");
        for i in &c.inputs {
            match i.list {
                Some(List::Files) => cx.probe("files named by the program"),
                Some(List::Cols(_)) => cx.probe("files and columns named by the program"),
                None => {}
            }
        }
    }
    cx.probe(if out_is_dc(c) { "output:binary" } else { "output:text" });
    cx.probe(if c.out.is_some() { "output:file" } else { "output:stdout" });
}

// ------------------------------------------------------------------ plain runs against the model

pub fn eval_model(c: &CliCase, cx: &mut Ctx, prefix: bool) -> Verdict {
    probe_case(cx, c);
    let (b, r) = cx.cli(c);
    oracle::judge(c, &b, &r, prefix)
}

// ------------------------------------------------------------------ comparing two executions

fn outcome(b: &Built, r: &RunResult) -> (bool, Option<Vec<u8>>) {
    (r.ok(), oracle::final_output(b, r))
}

pub fn calm(c: &CliCase) -> CliCase {
    let mut d = c.clone();
    d.sched = Sched::default();
    d.faults.clear();
    for i in &mut d.inputs {
        for f in &mut i.files {
            f.plan = Plan::default();
        }
    }
    d
}

/// is the result known from the case alone
fn modelled(c: &CliCase) -> bool {
    !c.unmodelled && c.inputs.iter().flat_map(|i| i.files.iter()).all(|f| f.damage.is_empty() && !matches!(f.enc, Enc::Raw(_)))
}

/// same bytes, two deliveries
pub fn eval_delivery(c: &CliCase, cx: &mut Ctx) -> Verdict {
    probe_case(cx, c);
    let quiet = calm(c);
    let (b1, r1) = cx.cli(&quiet);
    if modelled(&quiet) {
        let v = oracle::judge(&quiet, &b1, &r1, true);
        if v != Verdict::Ok {
            return v;
        }
    }
    let v = oracle::exit_sane(&r1);
    if v != Verdict::Ok {
        // not a matter of delivery
        return match v {
            Verdict::Inconclusive(w) => Verdict::Inconclusive(w),
            _ => Verdict::Inconclusive("the undisturbed run hangs or dies".into()),
        };
    }
    let (b2, r2) = cx.cli(c);
    let v = oracle::exit_sane(&r2);
    if v != Verdict::Ok {
        return v;
    }
    compare((&b1, &r1), (&b2, &r2), "delivery")
}

fn compare(a: (&Built, &RunResult), b: (&Built, &RunResult), what: &str) -> Verdict {
    let (ok1, o1) = outcome(a.0, a.1);
    let (ok2, o2) = outcome(b.0, b.1);
    if ok1 != ok2 {
        return bad(
            "status-differs",
            format!(
                "with another {} the run {} ({:?}: {}); before it {} ({:?}: {})",
                what,
                if ok2 { "succeeds" } else { "fails" },
                b.1.exit,
                b.1.stderr().chars().take(300).collect::<String>(),
                if ok1 { "succeeded" } else { "failed" },
                a.1.exit,
                a.1.stderr().chars().take(300).collect::<String>()
            ),
        );
    }
    if ok1 && o1 != o2 {
        return bad("output-differs", format!("with another {} the output differs: {}", what, oracle::first_diff(&o2.unwrap_or_default(), &o1.unwrap_or_default())));
    }
    Verdict::Ok
}

/// every input as a plain local file recognised by name
pub fn plainly(c: &CliCase, unpack: bool) -> CliCase {
    let mut d = calm(c);
    let mut had_stdin = false;
    for i in &mut d.inputs {
        if i.loc == Loc::Stdin {
            had_stdin = true;
        }
        if !matches!(i.loc, Loc::Dir { .. }) {
            i.loc = Loc::File;
            if i.route != Route::User && unpack {
                i.route = Route::Name;
            }
            if unpack {
                i.route = Route::Name;
            }
        }
        if unpack {
            for f in &mut i.files {
                f.cont = Container::Plain;
            }
        }
    }
    let _ = had_stdin;
    if d.inputs.iter().all(|i| i.list.is_none()) {
        d.lib = None;
    }
    d
}

pub fn eval_variant(c: &CliCase, cx: &mut Ctx, unpack: bool) -> Verdict {
    probe_case(cx, c);
    let (b1, r1) = cx.cli(&plainly(c, unpack));
    if oracle::exit_sane(&r1) != Verdict::Ok {
        return Verdict::Inconclusive("the plain run hangs or dies".into());
    }
    let (b2, r2) = cx.cli(c);
    let v = oracle::exit_sane(&r2);
    if v != Verdict::Ok {
        return v;
    }
    let mut v = compare((&b1, &r1), (&b2, &r2), "container, transport or route");
    if v == Verdict::Ok && modelled(c) && c.faults.is_empty() {
        v = oracle::judge(c, &b2, &r2, true);
    }
    if r2.counters[simos::C_CHUNK_EINTR] > 0 {
        cx.probe("interrupted inside a chunked response");
        if let Verdict::Violation { class, detail } = &v {
            if ["status-differs", "output-differs", "unexpected-failure", "wrong-output", "not-a-prefix"].contains(&class.as_str()) {
                return bad("chunk-interrupted", format!("interrupted inside a chunked response: {}", detail));
            }
        }
    }
    v
}

// ------------------------------------------------------------------ faults on inputs

fn stream_len(i: &Input, k: usize) -> u64 {
    let b = i.files[k].bytes();
    match &i.loc {
        Loc::Http(h) => http_response(h, &b).0.len() as u64,
        _ => b.len() as u64,
    }
}

pub fn pick_offset(r: &mut Rng, len: u64) -> u64 {
    let o = match r.below(12) {
        0 => 0,
        1 => r.below(16),
        2 => len,
        3 => len.saturating_sub(1 + r.below(8)),
        4 if len > 8192 => *r.pick(&[8190u64, 8191, 8192, 8193, 8200]),
        5 if len > 16384 => *r.pick(&[16383u64, 16384, 16385]),
        _ => r.below(len + 1),
    };
    o.min(len)
}

/// an offset for cutting a container, often where one of its parts begins or ends
fn pick_cut(r: &mut Rng, c: &Container, b: &[u8]) -> u64 {
    if r.chance(1, 3) {
        let v = crate::codec::part_starts(c, b);
        if !v.is_empty() {
            let x = *r.pick(&v);
            return match r.below(4) {
                0 => (x + 1).min(b.len() as u64),
                1 => x.saturating_sub(1),
                _ => x,
            };
        }
    }
    pick_offset(r, b.len() as u64)
}

/// where reading fails: anywhere, or where a part of the container or a record begins
fn err_offset(r: &mut Rng, i: &Input, k: usize, len: u64) -> u64 {
    let f = &i.files[k];
    if r.chance(2, 3) {
        return pick_offset(r, len);
    }
    let b = f.bytes();
    let base = match &i.loc {
        Loc::Http(h) if matches!(h.framing, Framing::Length | Framing::Close) => http_response(h, &b).1,
        Loc::Http(_) => return pick_offset(r, len),
        _ => 0,
    };
    let at = match &f.cont {
        Container::Plain => {
            let (_, bounds) = f.encoded();
            if bounds.is_empty() { pick_offset(r, b.len() as u64) } else { *r.pick(&bounds) }
        }
        c => pick_cut(r, c, &b),
    };
    (base + at).min(len)
}

fn eof_effect(i: &Input, k: usize, off: u64) -> FileEff {
    match &i.loc {
        Loc::Http(h) => {
            let (resp, head) = http_response(h, &i.files[k].bytes());
            if off >= resp.len() as u64 {
                return FileEff::Whole;
            }
            if off < head {
                return FileEff::Broken { strict: true };
            }
            match h.framing {
                Framing::Close => cut_effect(&i.files[k], off - head),
                _ => FileEff::Broken { strict: true },
            }
        }
        _ => cut_effect(&i.files[k], off),
    }
}

/// where an early end gives a decidable expectation
fn pick_eof(r: &mut Rng, i: &Input, k: usize) -> Option<u64> {
    let len = stream_len(i, k);
    for t in 0..10 {
        let f = &i.files[k];
        let off = if matches!(f.cont, Container::Plain) && matches!(f.enc, Enc::Csv(_)) || (t == 0 && r.chance(1, 4)) {
            // a record boundary
            let (_, b) = f.encoded();
            let base = match &i.loc {
                Loc::Http(h) => http_response(h, &f.bytes()).1,
                _ => 0,
            };
            if b.is_empty() || (matches!(i.loc, Loc::Http(_)) && r.chance(1, 2)) {
                pick_offset(r, len)
            } else {
                base + *r.pick(&b)
            }
        } else if !matches!(f.cont, Container::Plain) && r.chance(1, 2) {
            let base = match &i.loc {
                Loc::Http(h) => http_response(h, &f.bytes()).1,
                _ => 0,
            };
            base + pick_cut(r, &f.cont, &f.bytes())
        } else {
            pick_offset(r, len)
        };
        match eof_effect(i, k, off) {
            FileEff::Unknown | FileEff::Whole => continue,
            _ => return Some(off),
        }
    }
    None
}

const READ_ERRNOS: [i32; 22] = [
    libc::EIO,
    libc::EIO,
    libc::EIO,
    libc::ESTALE,
    libc::EAGAIN,
    libc::EINVAL,
    libc::EPERM,
    libc::EACCES,
    libc::ENOENT,
    libc::ETIMEDOUT,
    libc::ECONNRESET,
    libc::ECONNABORTED,
    libc::EPIPE,
    libc::ENOTCONN,
    libc::EISDIR,
    libc::ENOMEM,
    libc::ENXIO,
    libc::EREMOTEIO,
    libc::EOVERFLOW,
    libc::EBADMSG,
    libc::ENODATA,
    libc::EBUSY,
];
const RECV_ERRNOS: [i32; 12] = [
    libc::ECONNRESET,
    libc::ECONNRESET,
    libc::ETIMEDOUT,
    libc::EAGAIN,
    libc::ECONNABORTED,
    libc::ENOTCONN,
    libc::EPIPE,
    libc::EIO,
    libc::EHOSTUNREACH,
    libc::ENETDOWN,
    libc::ENETRESET,
    libc::ENOMEM,
];
pub const WRITE_ERRNOS: [i32; 15] = [
    libc::ENOSPC,
    libc::ENOSPC,
    libc::EIO,
    libc::EDQUOT,
    libc::EFBIG,
    libc::EPIPE,
    libc::EAGAIN,
    libc::ECONNRESET,
    libc::EROFS,
    libc::EPERM,
    libc::EACCES,
    libc::ETIMEDOUT,
    libc::EINVAL,
    libc::ENXIO,
    libc::ENOMEM,
];
const OPEN_ERRNOS: [i32; 11] = [libc::EACCES, libc::EIO, libc::EMFILE, libc::ENOENT, libc::ELOOP, libc::ENAMETOOLONG, libc::ENXIO, libc::ENOTDIR, libc::EPERM, libc::ENOMEM, libc::ETXTBSY];


/// add one fault on the way from an input to the tool
pub fn add_input_fault(r: &mut Rng, c: &mut CliCase) {
    for _ in 0..20 {
        let i = r.us(c.inputs.len());
        let inp = &c.inputs[i];
        if inp.files.is_empty() {
            continue;
        }
        let k = r.us(inp.files.len());
        if matches!(inp.files[k].enc, Enc::User(_)) && r.chance(1, 3) {
            let n = inp.files[k].table.rows.len();
            let Enc::User(e) = &mut c.inputs[i].files[k].enc else { unreachable!() };
            if r.chance(1, 5) {
                e.refuse = true;
            } else {
                e.fail = Some((r.us(n + 1) as u32, r.below(5) as u8));
            }
            return;
        }
        let key = inp.key(k);
        let len = stream_len(inp, k);
        let zip = matches!(inp.files[k].cont, Container::Zip { .. });
        let once = r.chance(1, 6);
        let f = match (&inp.loc, r.below(10)) {
            (Loc::Http(h), x) => {
                let host = h.host.split(':').next().unwrap().to_string();
                match x {
                    0 => Fault::Dns { host },
                    1 => Fault::Connect { host, errno: *r.pick(&[libc::ECONNREFUSED, libc::ENETUNREACH, libc::EHOSTUNREACH, libc::ECONNRESET]) },
                    2 if r.chance(1, 2) => Fault::ConnectTimeout { host },
                    2 => Fault::SendErr { host, offset: r.below(60), errno: *r.pick(&[libc::ECONNRESET, libc::EPIPE, libc::ETIMEDOUT]) },
                    3..=5 => Fault::ReadErr { path: key, offset: err_offset(r, inp, k, len), errno: *r.pick(&RECV_ERRNOS), once: false },
                    _ => match pick_eof(r, inp, k) {
                        Some(offset) => Fault::Eof { path: key, offset },
                        None => continue,
                    },
                }
            }
            (Loc::Custom, 4..=7) => Fault::ReadErr { path: key, offset: err_offset(r, inp, k, len), errno: *r.pick(&[simos::KIND_BASE, simos::KIND_BASE + 1, simos::KIND_BASE + 2, simos::KIND_BASE + 3, simos::KIND_BASE + 4]), once },
            (Loc::Stdin, x) => match x {
                0..=6 => Fault::ReadErr { path: key, offset: err_offset(r, inp, k, len), errno: *r.pick(&READ_ERRNOS), once },
                _ => match pick_eof(r, inp, k) {
                    Some(offset) => Fault::Eof { path: key, offset },
                    None => continue,
                },
            },
            (Loc::Dir { path, order, .. }, x) if x >= 7 => {
                let p = format!("/w/{}", path);
                match x {
                    7 => Fault::OpendirErr { path: p, errno: *r.pick(&[libc::EACCES, libc::EIO, libc::EMFILE, libc::EPERM, libc::ENOMEM, libc::ENOENT, libc::ELOOP]) },
                    _ => Fault::ReaddirErr { path: p, idx: r.us(order.len() + 1) as u32, errno: *r.pick(&[libc::EIO, libc::EIO, libc::ENOENT, libc::ESTALE, libc::EACCES]) },
                }
            }
            (_, 0) | (_, 1) => {
                let nth = if r.chance(2, 3) { u32::MAX } else { r.below(3) as u32 };
                Fault::OpenErr { path: key, nth, errno: *r.pick(&OPEN_ERRNOS) }
            }
            (_, 2) if zip => Fault::SeekErr { path: key, nth: r.below(6) as u32, errno: libc::EIO },
            (_, 2) if !zip && !matches!(inp.loc, Loc::Custom | Loc::Dir { .. }) => Fault::StatErr { path: key, nth: r.below(4) as u32, errno: *r.pick(&[libc::EACCES, libc::EIO]) },
            (_, 3..=5) if !zip => match pick_eof(r, inp, k) {
                Some(offset) => Fault::Eof { path: key, offset },
                None => continue,
            },
            _ => Fault::ReadErr { path: key, offset: err_offset(r, inp, k, len), errno: *r.pick(&READ_ERRNOS), once },
        };
        c.faults.push(f);
        return;
    }
}

pub fn add_output_fault(r: &mut Rng, c: &mut CliCase) {
    let key = c.out.as_ref().map(|o| format!("/w/{}", o)).unwrap_or("stdout".into());
    let len = expected(c).bytes.len() as u64;
    let errno = if c.out.is_none() && r.chance(1, 3) { libc::EPIPE } else { *r.pick(&WRITE_ERRNOS) };
    if c.out.is_some() && r.chance(1, 6) {
        c.faults.push(Fault::CreateErr { path: key, errno: *r.pick(&[libc::EACCES, libc::ENOSPC, libc::EROFS]) });
        return;
    }
    let offset = match r.below(8) {
        0 => 0,
        1 => len.saturating_sub(1),
        2 => len.saturating_sub(r.below(20)),
        3 => r.below(60),
        4 if len > 8192 => *r.pick(&[8191u64, 8192, 8193]),
        _ => r.below(len.max(1)),
    };
    c.faults.push(Fault::WriteErr { path: key, offset, errno, once: r.chance(1, 6) });
}

// ------------------------------------------------------------------ stored damage

/// Is the outcome of this damage covered by the container's integrity information?
pub fn add_damage(r: &mut Rng, c: &mut CliCase) {
    for _ in 0..30 {
        let i = r.us(c.inputs.len());
        if c.inputs[i].files.is_empty() {
            continue;
        }
        let route = c.inputs[i].route;
        let k = r.us(c.inputs[i].files.len());
        let f = &mut c.inputs[i].files[k];
        if !f.cont.checked() {
            continue;
        }
        if let (Container::Zip { shape, .. }, true) = (&mut f.cont, r.chance(1, 8)) {
            *shape |= 1 << *r.pick(&[10u16, 11, 12, 14, 15]);
            return;
        }
        // the length of the extra field is not covered by any check sum: damaged, it can hide a whole member
        if let Container::Gz { extra, .. } = &mut f.cont {
            *extra = 0;
        }
        let (bytes, bounds) = f.encoded();
        let len = bytes.len() as u64;
        // where the container is detected from its first bytes, these decide which format it is
        let lo = match route {
            Route::Name => 0,
            _ => 10,
        };
        let lo = if matches!(f.cont, Container::Zip { .. }) { lo.max(4) } else { lo };
        if len <= lo + 1 {
            continue;
        }
        // whole blocks, frames or members may go missing unnoticed
        let most = match &f.cont {
            Container::Zip { .. } => 40,
            _ => 7,
        };
        let d = match r.below(8) {
            0..=2 => {
                let off = pick_cut(r, &f.cont, &bytes);
                if off < lo && !matches!(route, Route::Name) {
                    continue;
                }
                match cut_effect(f, off) {
                    FileEff::Unknown | FileEff::Whole => continue,
                    _ => vec![Damage::Cut(off)],
                }
            }
            3 | 4 => vec![Damage::Flip(pos(r, lo, len), 1 << r.below(8))],
            5 => vec![Damage::Set(pos(r, lo, len), (0..r.ur(1, 8)).map(|_| r.below(256) as u8).collect())],
            6 => vec![Damage::Drop(pos(r, lo, len), 1 + r.skew(most) as u64)],
            _ => {
                if r.chance(1, 2) {
                    vec![Damage::Insert(pos(r, lo, len - 1), (0..r.ur(1, 5)).map(|_| r.below(256) as u8).collect())]
                } else {
                    vec![Damage::Dup(pos(r, lo, len), 1 + r.skew(most) as u64)]
                }
            }
        };
        let mut damaged = bytes.clone();
        for x in &d {
            apply_damage(&mut damaged, x);
        }
        if damaged == bytes {
            continue;
        }
        let _ = &bounds;
        f.damage = d;
        return;
    }
}
fn pos(r: &mut Rng, lo: u64, len: u64) -> u64 {
    match r.below(6) {
        0 => len - 1 - r.below((len - lo).min(24)),
        1 => lo + r.below((len - lo).min(40)),
        _ => r.range(lo, len - 1),
    }
}

// ------------------------------------------------------------------ crash and rerun

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct CrashCase {
    pub case: CliCase,
    /// where in the run the process dies (millionths of its operations), and how much of a write in
    /// progress is accepted
    pub at: Vec<(u32, u32)>,
    /// choose among the operations that write
    pub at_write: bool,
    /// dies of a failing memory allocation instead
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub no_memory: bool,
}

pub fn eval_crash(cc: &CrashCase, cx: &mut Ctx) -> Verdict {
    let c = &cc.case;
    probe_case(cx, c);
    let mut cur = c.clone();
    for (frac, torn) in &cc.at {
        // how long is this run when nothing happens
        let (b0, r0) = cx.cli(&cur);
        if !r0.ok() {
            // judged elsewhere
            return match oracle::judge(&cur, &b0, &r0, true) {
                Verdict::Ok => Verdict::Ok,
                Verdict::Inconclusive(w) => Verdict::Inconclusive(w),
                _ => Verdict::Inconclusive("the undisturbed run fails".into()),
            };
        }
        let mut ops: Vec<u64> = simos::journal_iter(&r0.journal)
            .filter(|j| matches!(j.kind, simos::J_WRITE | simos::J_TRUNC | simos::J_CREATE | simos::J_STDOUT | simos::J_UNLINK | simos::J_RENAME))
            .map(|j| j.op)
            .collect();
        ops.dedup();
        let (op, torn) = if cc.at_write && !ops.is_empty() {
            let i = (*frac as usize * ops.len()) / 1_000_000;
            (ops[i.min(ops.len() - 1)], *torn)
        } else {
            (1 + (*frac as u64 * r0.ops) / 1_000_000, 0)
        };
        let mut d = cur.clone();
        d.faults.push(if cc.no_memory { Fault::AllocFail { nth: 1 + (*frac as u64 * r0.allocs) / 1_000_000, min: 0 } } else { Fault::Crash { op, torn } });
        let (b, r) = cx.cli(&d);
        let v = oracle::judge(&d, &b, &r, true);
        if v != Verdict::Ok {
            return v;
        }
        if r.exit == Exit::Crash {
            cx.probe("killed while running");
        }
        if cc.no_memory {
            cx.probe(match r.exit {
                Exit::Signal(_) => "out of memory: aborted",
                Exit::Code(0) => "out of memory: coped",
                _ => "out of memory: failed",
            });
        }
        // what is left behind
        if c.out.is_some() {
            cur.old_out = oracle::final_output(&b, &r).map(Old::Bytes);
        }
    }
    let (b, r) = cx.cli(&cur);
    oracle::judge(&cur, &b, &r, true)
}

// ------------------------------------------------------------------ binary round trip

pub fn eval_roundtrip(c: &CliCase, cx: &mut Ctx) -> Verdict {
    let v = eval_model(c, cx, true);
    if v != Verdict::Ok || !out_is_dc(c) {
        return v;
    }
    // read back what was written
    let (b1, r1) = cx.cli(c);
    let Some(bytes) = oracle::final_output(&b1, &r1) else { return Verdict::Ok };
    let e = expected(c);
    let mut rng = Rng::new(c.sched.rand_seed ^ 0x5eed);
    let raw = FileSpec { stem: "back".into(), table: e.table.clone(), enc: Enc::Dc(Default::default()), cont: Container::Plain, plan: gen::gen_plan(&mut rng, bytes.len() as u64, true), damage: vec![] };
    let mut d = c.clone();
    // an independently encoded copy is the same file unless another valid encoding was chosen
    if raw.encoded().0 != bytes {
        cx.probe("written with another encoding");
        return Verdict::Ok;
    }
    d.inputs = vec![Input { loc: Loc::File, route: Route::Name, files: vec![raw], list: None }];
    d.lib = None;
    d.out = None;
    d.old_out = None;
    d.begin = None;
    d.end = None;
    d.args = strip_ranges(&c.args);
    d.faults.clear();
    let (b, r) = cx.cli(&d);
    oracle::judge(&d, &b, &r, true)
}

pub fn strip_ranges(args: &[String]) -> Vec<String> {
    let mut o = Vec::new();
    let mut skip = false;
    for a in args {
        if skip {
            skip = false;
            continue;
        }
        if ["-b", "--begin", "-e", "--end"].contains(&a.as_str()) {
            skip = true;
            continue;
        }
        o.push(a.clone());
    }
    o
}

// ------------------------------------------------------------------ generators per property

/// the same job by a program using the library
pub fn as_library(r: &mut Rng, c: &mut CliCase, one_in: u64) {
    if !r.chance(1, one_in) {
        return;
    }
    let dc = c.inputs.iter().all(|i| i.files.iter().all(|f| matches!(f.enc, Enc::Dc(_))));
    c.lib = Some(crate::libmain::Lib { by_path: r.chance(1, 2), no_csv: dc && r.chance(1, 2) });
    let one = c.inputs.len() == 1;
    for i in &mut c.inputs {
        if !matches!(i.loc, Loc::Dir { .. }) || i.files.is_empty() {
            continue;
        }
        if r.chance(1, 3) {
            continue;
        }
        i.list = Some(List::Files);
        let t = i.files[i.in_order()[0]].seen();
        let mut names = t.names.clone();
        names.sort();
        names.dedup();
        if one && names.len() == t.names.len() && r.chance(3, 4) {
            let mut cols: Vec<usize> = (0..names.len()).collect();
            match r.below(4) {
                0 => {}
                1 => r.shuffle(&mut cols),
                2 => cols.retain(|_| r.chance(2, 3)),
                _ => {
                    r.shuffle(&mut cols);
                    let n = r.us(cols.len() + 1);
                    cols.truncate(n);
                }
            }
            i.list = Some(List::Cols(cols));
        }
    }
}

pub fn gen_c01(r: &mut Rng) -> CliCase {
    let mut c = gen::gen_cli(r, &Knobs { inputs: (2, 6), http: 0, dir: 0, custom: 3, stdin: 0, cont: 5, routes: 5, ranges: 25, empty: 25, benign: 30, short_records: 0, big: 1, ..Default::default() });
    if r.chance(1, 25) {
        other_header(r, &mut c);
    }
    c
}

/// make the columns of one input (of several), or of one file of a directory, differ from the others'
fn other_header(r: &mut Rng, c: &mut CliCase) {
    let by_name: Vec<String> = c.args.windows(2).filter(|w| w[0].starts_with("--csv-in-ts-col")).map(|w| w[1].clone()).collect();
    let i = if c.inputs.len() > 1 { r.us(c.inputs.len()) } else { 0 };
    let n = c.inputs[i].files.len();
    if n == 0 {
        return;
    }
    let dir = matches!(c.inputs[i].loc, Loc::Dir { .. });
    // in a directory a file after the first one
    let k = if dir {
        let o = c.inputs[i].in_order();
        if n < 2 {
            return;
        }
        o[r.ur(1, n - 1)]
    } else {
        0
    };
    let f = &mut c.inputs[i].files[k];
    let header = match &f.enc {
        Enc::Csv(e) => {
            if e.auto_header {
                return;
            }
            e.header
        }
        Enc::Dc(e) => {
            if !e.nameless.is_empty() {
                return;
            }
            true
        }
        Enc::User(_) => true,
        Enc::Raw(_) => return,
    };
    let csv = matches!(f.enc, Enc::Csv(_));
    let t = &mut f.table;
    let cols = t.names.len();
    // the time of text rows comes from a column, which has to stay what it is
    let fixed = |i: usize, t: &crate::model::Table| csv && (by_name.is_empty() || by_name.contains(&t.names[i]) || by_name.contains(&i.to_string()));
    let free: Vec<usize> = (0..cols).filter(|i| !fixed(*i, t)).collect();
    match r.below(4) {
        0 if header => {
            let Some(j) = free.first().map(|_| *r.pick(&free)) else { return };
            t.names[j] = match r.below(4) {
                0 => t.names[j].to_uppercase(),
                1 => format!("{}q", t.names[j]),
                2 => t.names[j].to_lowercase(),
                _ => "another".into(),
            };
        }
        1 if header && !dir && (!csv || by_name.iter().all(|n| n.parse::<usize>().is_err()) && !by_name.is_empty()) => {
            let mut perm: Vec<usize> = (0..cols).collect();
            r.shuffle(&mut perm);
            *t = gen::permute(t, &perm);
        }
        2 if !csv => {
            if cols == 0 {
                return;
            }
            let j = r.us(cols);
            use crate::model::Ty;
            t.types[j] = *r.pick(&[Ty::B, Ty::C, Ty::D, Ty::F, Ty::I, Ty::J, Ty::S, Ty::Str]);
            for row in &mut t.rows {
                if row.v.get(j).map_or(false, |v| v_ty(v).is_some()) {
                    row.v[j] = V::N;
                }
            }
        }
        2 | 3 if dir => {
            // a column is missing
            let Some(j) = free.first().map(|_| *r.pick(&free)) else { return };
            if csv && !by_name.iter().all(|n| n.parse::<usize>().is_err()) && free.iter().any(|x| *x > j) && header {
                return;
            }
            if !header && j + 1 != cols {
                return;
            }
            t.names.remove(j);
            t.types.remove(j);
            for row in &mut t.rows {
                if j < row.v.len() {
                    row.v.remove(j);
                }
            }
        }
        _ => {
            if csv && t.rows.iter().any(|x| x.v.len() < cols || x.v.contains(&V::N)) {
                return;
            }
            if dir || (!header && t.rows.is_empty()) {
                return;
            }
            t.names.push("one_more".into());
            t.types.push(crate::model::Ty::Str);
            for row in &mut t.rows {
                row.v.push(V::T("more".into()));
            }
        }
    }
    if let Enc::Dc(e) = &mut f.enc {
        e.hints.clear();
    }
}

pub fn gen_c03(r: &mut Rng) -> CliCase {
    let mut c = gen::gen_cli(r, &Knobs { benign: 100, cont: 40, routes: 40, inputs: (1, 3), big: 8, http: 15, ..Default::default() });
    if r.chance(1, 5) {
        // damaged or arbitrary bytes: the outcome is whatever it is, but always the same
        let i = r.us(c.inputs.len());
        if !c.inputs[i].files.is_empty() {
            let k = r.us(c.inputs[i].files.len());
            let f = &mut c.inputs[i].files[k];
            let len = f.bytes().len() as u64;
            for _ in 0..r.ur(1, 3) {
                f.damage.push(match r.below(5) {
                    0 => Damage::Cut(r.below(len + 1)),
                    1 => Damage::Flip(r.below(len + 1), 1 << r.below(8)),
                    2 => Damage::Set(r.below(len + 1), (0..r.ur(1, 9)).map(|_| r.below(256) as u8).collect()),
                    3 => Damage::Drop(r.below(len + 1), r.skew(100) as u64),
                    _ => Damage::Dup(r.below(len + 1), r.skew(200) as u64),
                });
            }
        }
    } else if r.chance(1, 6) {
        drop_opts(r, &mut c);
    }
    c
}

pub fn gen_c04(r: &mut Rng) -> CliCase {
    let mut c = gen::gen_cli(r, &Knobs { inputs: (1, 3), dc: 6, http: 10, dir: 10, cont: 25, benign: 30, ranges: 10, empty: 5, max_rows: 60, ..Default::default() });
    add_input_fault(r, &mut c);
    if r.chance(1, 6) {
        add_input_fault(r, &mut c);
    }
    if r.chance(1, 25) {
        c.faults.push(Fault::AllocFail { nth: 1 + r.skew(20_000) as u64, min: if r.chance(1, 4) { 4096 } else { 0 } });
    }
    c
}

pub fn gen_c05(r: &mut Rng) -> CliCase {
    let mut c = gen::gen_cli(r, &Knobs { inputs: (1, 3), max_rows: 120, http: 1, dir: 4, cont: 5, benign: 40, ranges: 10, empty: 5, old_out: 50, ..Default::default() });
    match r.below(10) {
        0 | 1 => {
            // an input that cannot be opened must not cost the old output
            if c.out.is_some() {
                c.old_out = Some(Old::Fill(b'Z', 1 + r.skew(30_000) as u32));
            }
            let i = r.us(c.inputs.len());
            if !c.inputs[i].files.is_empty() {
                let f = match &c.inputs[i].loc {
                    Loc::Http(h) => Fault::Connect { host: h.host.split(':').next().unwrap().into(), errno: libc::ECONNREFUSED },
                    Loc::Dir { path, .. } => Fault::OpendirErr { path: format!("/w/{}", path), errno: libc::EACCES },
                    Loc::Stdin => Fault::ReadErr { path: "stdin".into(), offset: 0, errno: libc::EIO, once: false },
                    _ => Fault::OpenErr { path: c.inputs[i].key(0), nth: u32::MAX, errno: libc::EACCES },
                };
                c.faults.push(f);
            }
        }
        2 => {}
        _ => add_output_fault(r, &mut c),
    }
    c
}

pub fn gen_c06(r: &mut Rng) -> CliCase {
    let mut c = gen::gen_cli(r, &Knobs { inputs: (1, 2), checked_only: true, http: 4, dir: 5, routes: 30, benign: 30, ranges: 0, short_records: 5, big: 5, ..Default::default() });
    // a begin bound does not matter; an end bound would leave damage unread
    c.end = None;
    c.begin = None;
    c.args = strip_ranges(&c.args);
    if r.chance(1, 12) && fixture_ok(&c) {
        use_fixture(r, &mut c, 2);
    }
    add_damage(r, &mut c);
    c
}

pub fn gen_c07(r: &mut Rng) -> CliCase {
    let dc_in = r.chance(3, 4);
    let k = Knobs {
        inputs: (1, 1),
        csv: if dc_in { 0 } else { 1 },
        dc: if dc_in { 1 } else { 0 },
        mixed: 0,
        out_dc: if dc_in { 60 } else { 100 },
        http: 0,
        dir: 0,
        custom: 0,
        stdin: 5,
        cont: 3,
        routes: 10,
        ranges: 0,
        big: 15,
        ..Default::default()
    };
    gen::gen_cli(r, &k)
}

pub fn gen_c08(r: &mut Rng) -> CliCase {
    let mut c = gen::gen_cli(r, &Knobs { inputs: (1, 2), dir: 100, http: 0, stdin: 0, ranges: 5, benign: 25, cont: 15, short_records: 10, empty: 8, big: 1, ..Default::default() });
    if r.chance(2, 5) {
        add_input_fault(r, &mut c);
    } else if r.chance(1, 8) {
        other_header(r, &mut c);
    }
    c
}

pub fn gen_c09(r: &mut Rng) -> CliCase {
    gen::gen_cli(r, &Knobs { inputs: (1, 4), ranges: 100, http: 3, dir: 5, cont: 8, routes: 8, benign: 25, short_records: 3, big: 1, ..Default::default() })
}

pub fn gen_c12(r: &mut Rng) -> CliCase {
    let mut c = gen::gen_cli(r, &Knobs { inputs: (1, 3), http: 100, dir: 0, stdin: 0, custom: 0, cont: 35, routes: 30, benign: 80, ranges: 5, short_records: 5, big: 6, ..Default::default() });
    for i in &mut c.inputs {
        if let Loc::Http(h) = &mut i.loc {
            h.chunk_eintr = matches!(h.framing, Framing::Chunked { .. }) && r.chance(1, 10);
        }
    }
    c
}

pub fn gen_c12_fault(r: &mut Rng) -> CliCase {
    let mut c = gen::gen_cli(r, &Knobs { inputs: (1, 2), http: 100, dir: 0, stdin: 0, custom: 0, cont: 20, routes: 15, benign: 40, ranges: 0, short_records: 0, big: 3, old_out: 40, ..Default::default() });
    c.end = None;
    c.begin = None;
    c.args = strip_ranges(&c.args);
    let i = r.us(c.inputs.len());
    if r.chance(1, 4) {
        if let Loc::Http(h) = &mut c.inputs[i].loc {
            match r.below(4) {
                3 => {
                    h.looped = true;
                    if h.redirects.is_empty() {
                        h.redirects = (0..r.ur(1, 3)).map(|_| (*r.pick(&[301u16, 302, 303, 307, 308]), r.chance(1, 2))).collect();
                    }
                }
                0 => {
                    h.status = *r.pick(&[404u16, 500, 403, 410, 429, 502, 503, 400, 401, 407, 408, 418, 451, 505, 599, 300, 301, 302, 303, 304, 305, 307, 308, 399]);
                    if h.http10 {
                        // nobody asked an HTTP/1.0 server to keep the connection
                        h.keep_alive = false;
                    }
                }
                1 => h.malformed = Some(MALFORMED[r.us(MALFORMED.len())].to_vec()),
                _ => {
                    h.malformed = Some(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n".iter().copied().chain(r.pick(&[&b"ZZ\r\n"[..], b"-5\r\n", b"12345678901234567890\r\n", b"\r\n", b"0x10\r\n"]).iter().copied()).collect());
                    c.inputs[i].files[0].plan = Plan::default();
                }
            }
        }
    } else {
        add_input_fault(r, &mut c);
    }
    c
}
const MALFORMED: [&[u8]; 11] = [
    b"HTTP/1.1 200 OK\r\nContent-Length: 12x\r\nConnection: close\r\n\r\n",
    b"HTTP/1.1 200 OK\r\nContent-Length: -1\r\nConnection: close\r\n\r\n",
    b"HTTP/1.1 200 OK\r\nContent-Length: 18446744073709551616\r\nConnection: close\r\n\r\n",
    b"HTTP/1.0 200 OK\r\nContent-Length: many\r\n\r\n",
    b"\x00\x01garbage\r\n\r\n", b"HTTP/1.1 2x0 OK\r\n\r\n", b"HTTP/1.1 \r\n\r\n", b"\r\n\r\n", b"NONSENSE\r\n\r\n", b"HTTP/1.1\r\n\r\n", b"HTTP/1.1 99999 OK\r\n\r\n"];

pub fn gen_c13(r: &mut Rng) -> CrashCase {
    let mut case = gen::gen_cli(r, &Knobs { inputs: (1, 3), max_rows: 120, http: 2, dir: 5, cont: 8, routes: 10, benign: 40, ranges: 8, old_out: 50, stdout: 15, big: 3, ..Default::default() });
    if case.out.is_some() && r.chance(1, 3) {
        // an earlier, longer version of the same output
        let mut b = expected(&case).bytes;
        let k = r.us(b.len() + 1);
        match r.below(3) {
            0 => b.extend(std::iter::repeat(b'9').take(1 + r.skew(20_000))),
            1 => {
                let tail = b[k..].to_vec();
                b.extend(tail);
            }
            _ => b.truncate(k),
        }
        case.old_out = Some(Old::Bytes(b));
    }
    let n = if r.chance(1, 5) { 0 } else if r.chance(1, 5) { 2 } else { 1 };
    CrashCase { case, at: (0..n).map(|_| (r.below(1_000_000) as u32, if r.chance(1, 2) { 1 + r.skew(9000) as u32 } else { 0 })).collect(), at_write: r.chance(1, 2), no_memory: r.chance(1, 6) }
}

fn fixture_ok(c: &CliCase) -> bool {
    c.inputs.len() == 1 && !matches!(c.inputs[0].loc, Loc::Dir { .. }) && matches!(c.inputs[0].files[0].enc, Enc::Csv(_))
}

/// leave more to the tool's guesses
fn drop_opts(r: &mut Rng, c: &mut CliCase) {
    let mut o = Vec::new();
    let mut it = c.args.clone().into_iter();
    while let Some(a) = it.next() {
        if a.starts_with("--csv-in-") {
            let v = it.next();
            // formats of split columns come in pairs
            if r.chance(1, 2) && !a.contains("date") && !a.ends_with("-time") {
                c.unmodelled = true;
                continue;
            }
            o.push(a);
            o.extend(v);
        } else {
            o.push(a);
        }
    }
    c.args = o;
}

/// replace the only input by one of the files compressed with the zstd tool
fn use_fixture(r: &mut Rng, c: &mut CliCase, below: usize) {
    let which = r.us(below);
    let t = crate::codec::fixture_table(which);
    c.inputs[0].files[0] = FileSpec { stem: "fx".into(), table: t, enc: Enc::Csv(CsvEnc::default()), cont: Container::ZstFixture { which }, plan: Plan::default(), damage: vec![] };
    c.args = vec!["--csv-in-ts-col".into(), "0".into(), "--csv-in-epoch".into(), "ns".into(), "--csv-in-delimiter".into(), ",".into(), "--csv-in-has-header".into(), "yes".into(), "-E".into()];
    c.csv_out = crate::model::CsvOut { delim: ",".into(), print_time: true, time_name: None, epoch: true, gran: "ns".into(), off_min: 0, zone: None };
    c.env.clear();
    c.begin = None;
    c.end = None;
    c.ts_col = Some(0);
    c.unmodelled = false;
    gen::perturb(r, c, 50);
}

pub fn gen_c15(r: &mut Rng) -> CliCase {
    let mut c = gen::gen_cli(r, &Knobs { inputs: (1, 2), cont: 75, routes: 60, http: 15, custom: 10, dir: 0, stdin: 20, benign: 30, ranges: 3, short_records: 3, big: 6, max_rows: 80, ..Default::default() });
    if r.chance(1, 25) && fixture_ok(&c) {
        use_fixture(r, &mut c, 3);
    } else if r.chance(1, 8) {
        drop_opts(r, &mut c);
    }
    c
}

pub fn gen_c16(r: &mut Rng) -> CliCase {
    if r.chance(1, 3) {
        // records whose fields are mostly missing, of every type
        let nulls = *r.pick(&[20u64, 50, 80, 95]);
        return gen::gen_cli(r, &Knobs { inputs: (1, 2), csv: 0, dc: 1, mixed: 0, http: 0, dir: 2, cont: 3, routes: 5, custom: 0, stdin: 5, benign: 20, ranges: 5, empty: 3, big: 10, out_dc: 50, nulls, ..Default::default() });
    }
    let mut c = gen::gen_cli(r, &Knobs { inputs: (1, 2), csv: 1, dc: 0, mixed: 0, short_records: 90, http: 0, dir: 2, cont: 3, routes: 5, custom: 0, stdin: 5, benign: 20, ranges: 5, empty: 3, big: 5, detect: 25, ..Default::default() });
    if r.chance(1, 3) {
        make_bad_row(r, &mut c);
    }
    c
}

fn make_bad_row(r: &mut Rng, c: &mut CliCase) {
    let i = r.us(c.inputs.len());
    if matches!(c.inputs[i].loc, Loc::Dir { .. }) {
        return;
    }
    let Some(tc) = c.ts_col else { return };
    let f = &mut c.inputs[i].files[0];
    let Enc::Csv(e) = &f.enc else { return };
    if !e.header || f.table.rows.is_empty() {
        return;
    }
    // what is detected, is detected from the first record
    let detect = e.auto_header || !c.args.iter().any(|a| a == "--csv-in-epoch" || a.starts_with("--csv-in-ts-fmt"));
    if detect && f.table.rows.len() < 2 {
        return;
    }
    let n = f.table.names.len();
    let mut row = r.ur(detect as usize, f.table.rows.len() - 1);
    let kind = r.below(5);
    if kind < 2 {
        // extra fields in the first record name further columns
        if f.table.rows.len() < 2 {
            return;
        }
        row = row.max(1);
    }
    let epoch = c.args.iter().position(|a| a == "--csv-in-epoch").map(|p| c.args[p + 1].clone());
    let odd = c.csv_out.zone.as_ref().and_then(|z| {
        let p = c.args.iter().position(|a| a == "--csv-in-ts-fmt")?;
        let fmt = c.args[p + 1].as_str();
        if !fmt.contains("%S") {
            return None;
        }
        gen::Zone::odd_local(z, f.table.rows[row].ts, fmt)
    });
    let rr = &mut f.table.rows[row];
    match kind {
        _ if odd.is_some() && kind > 0 => rr.v[tc] = V::T(odd.unwrap()),
        0 | 1 => {
            while rr.v.len() < n {
                rr.v.push(V::T(String::new()));
            }
            for v in rr.v.iter_mut() {
                if *v == V::N {
                    *v = V::T("f".into());
                }
            }
            for _ in 0..r.ur(1, 3) {
                rr.v.push(V::T(gen::gen_text(r, false) + "x"));
            }
        }
        2 if tc > 0 => {
            // the record ends before its time column
            let keep = r.us(tc);
            for v in rr.v.iter_mut().skip(keep) {
                *v = V::N;
            }
            if keep == 0 || rr.v[..keep].iter().all(|v| matches!(v, V::T(s) if s.is_empty())) {
                rr.v[0] = V::T("k".into());
            }
        }
        3 if epoch.as_deref().map_or(false, |u| u != "ns") => {
            let u: u128 = match epoch.as_deref() {
                Some("s") => 1_000_000_000,
                Some("ms") => 1_000_000,
                _ => 1_000,
            };
            // one too large to be represented; sometimes just so
            let m = (u64::MAX as u128 / u) as u64;
            let v = match r.below(3) {
                0 => m + 1,
                1 => m + 1 + r.below(1_000_000),
                _ => u64::MAX - r.below(1000),
            };
            rr.v[tc] = V::T(v.to_string());
        }
        _ => {
            let bad: &[&str] = match &epoch {
                Some(_) => &["abc", "", "12x", "-5", "1.5", "99999999999999999999999"],
                None => &["abc", "", "2020-13-45T00:00:00Z", "1960-01-01T00:00:00.000000000Z", "19600101_000000"],
            };
            rr.v[tc] = V::T((*r.pick(bad)).to_string());
        }
    }
    c.bad_row = Some((i, 0, row));
}

// ------------------------------------------------------------------ shrinking

pub fn shrink_cli(c: &CliCase) -> Vec<CliCase> {
    let mut out = Vec::new();
    let mut push = |d: CliCase| {
        if d.lib.is_none() && d.inputs.iter().any(|i| i.list.is_some()) {
            return;
        }
        // without a header there is no telling the columns of a file without records
        let bare = |f: &FileSpec| f.table.rows.is_empty() && matches!(&f.enc, Enc::Csv(e) if !e.header || e.auto_header);
        if !d.inputs.iter().any(|i| i.files.iter().any(|f| bare(f))) {
            out.push(d)
        }
    };
    // fewer inputs
    if c.inputs.len() > 1 {
        for i in 0..c.inputs.len() {
            if let Some((bi, _, _)) = c.bad_row {
                if bi == i {
                    continue;
                }
            }
            let mut d = c.clone();
            let gone = d.inputs.remove(i);
            if let Some((bi, _, _)) = &mut d.bad_row {
                if *bi > i {
                    *bi -= 1;
                }
            }
            let keys: Vec<String> = (0..gone.files.len()).map(|k| gone.key(k)).collect();
            d.faults.retain(|f| match f {
                Fault::ReadErr { path, .. } | Fault::Eof { path, .. } | Fault::OpenErr { path, .. } => !keys.contains(path),
                _ => true,
            });
            push(d);
        }
    }
    for (i, inp) in c.inputs.iter().enumerate() {
        if inp.files.len() > 1 && c.bad_row.map_or(true, |b| b.0 != i) {
            for k in 0..inp.files.len() {
                let mut d = c.clone();
                d.inputs[i].files.remove(k);
                if let Loc::Dir { order, subdirs, .. } = &mut d.inputs[i].loc {
                    subdirs.clear();
                    *order = (0..inp.files.len() - 1).collect();
                }
                push(d);
            }
        }
    }
    if c.lib.is_some() {
        let mut d = c.clone();
        d.lib = None;
        for i in &mut d.inputs {
            i.list = None;
        }
        push(d);
    }
    for (i, inp) in c.inputs.iter().enumerate() {
        if let Some(List::Cols(l)) = &inp.list {
            for k in 0..l.len() {
                let mut d = c.clone();
                let mut l = l.clone();
                l.remove(k);
                d.inputs[i].list = Some(List::Cols(l));
                push(d);
            }
            let mut d = c.clone();
            d.inputs[i].list = Some(List::Files);
            push(d);
        }
    }
    // fewer faults
    for i in 0..c.faults.len() {
        let mut d = c.clone();
        d.faults.remove(i);
        push(d);
    }
    // fewer rows
    for (i, inp) in c.inputs.iter().enumerate() {
        for (k, f) in inp.files.iter().enumerate() {
            let n = f.table.rows.len();
            if n == 0 || matches!(f.cont, Container::ZstFixture { .. }) {
                continue;
            }
            let mut ranges: Vec<(usize, usize)> = vec![];
            let mut step = n;
            while step >= 1 {
                if n > 5000 && ranges.len() > 12 {
                    break;
                }
                let mut at = 0;
                while at < n {
                    ranges.push((at, (at + step).min(n)));
                    at += step;
                }
                if step == 1 || ranges.len() > 40 {
                    break;
                }
                step /= 2;
            }
            let bad = c.bad_row.filter(|b| b.0 == i && b.1 == k).map(|b| b.2);
            for (a, b) in ranges {
                if bad.map_or(false, |x| x >= a && x < b) {
                    continue;
                }
                let mut d = c.clone();
                d.inputs[i].files[k].table.rows.drain(a..b);
                if let Some(x) = bad {
                    if x >= b {
                        d.bad_row = Some((i, k, x - (b - a)));
                    }
                    // extra fields are only an error after the first record
                    let t = &d.inputs[i].files[k].table;
                    if t.rows[0].v.len() > t.names.len() {
                        continue;
                    }
                }
                push(d);
            }
        }
    }
    if c.inputs.iter().flat_map(|i| &i.files).map(|f| f.table.rows.len()).sum::<usize>() > 5000 {
        return out;
    }
    // simpler delivery
    for (i, inp) in c.inputs.iter().enumerate() {
        for (k, f) in inp.files.iter().enumerate() {
            if !f.plan.is_default() {
                let mut d = c.clone();
                d.inputs[i].files[k].plan = Plan::default();
                push(d);
                if f.plan.eintr.len() > 1 {
                    for e in &f.plan.eintr {
                        let mut d = c.clone();
                        d.inputs[i].files[k].plan.eintr = vec![*e];
                        push(d);
                    }
                }
                if !f.plan.eintr.is_empty() && !f.plan.sizes.is_empty() {
                    let mut d = c.clone();
                    d.inputs[i].files[k].plan.eintr.clear();
                    push(d);
                    let mut d = c.clone();
                    d.inputs[i].files[k].plan.sizes.clear();
                    push(d);
                }
                if f.plan.sizes.len() > 1 {
                    let mut d = c.clone();
                    d.inputs[i].files[k].plan.sizes.truncate(f.plan.sizes.len() / 2);
                    push(d);
                }
            }
            if f.cont != Container::Plain && f.damage.is_empty() && !matches!(f.cont, Container::ZstFixture { .. }) {
                let mut d = c.clone();
                d.inputs[i].files[k].cont = Container::Plain;
                push(d);
            }
            if f.damage.len() > 1 {
                for x in 0..f.damage.len() {
                    let mut d = c.clone();
                    d.inputs[i].files[k].damage.remove(x);
                    push(d);
                }
            }
            // shorter values
            let long = |v: &V| matches!(v, V::R(..)) || matches!(v, V::T(s) if s.len() > 8);
            if f.table.rows.iter().any(|r| r.v.iter().enumerate().any(|(j, v)| long(v) && Some(j) != c.ts_col)) && c.ts_col.is_none() {
                let mut d = c.clone();
                for r in &mut d.inputs[i].files[k].table.rows {
                    for v in &mut r.v {
                        if long(v) {
                            *v = V::T("v".into());
                        }
                    }
                }
                push(d);
            }
        }
        if inp.route != Route::Name && inp.loc != Loc::Stdin && c.faults.is_empty() {
            let mut d = c.clone();
            d.inputs[i].route = Route::Name;
            push(d);
        }
        if matches!(inp.loc, Loc::Custom | Loc::Http(_)) && c.faults.is_empty() {
            let mut d = c.clone();
            d.inputs[i].loc = Loc::File;
            push(d);
        }
        if let Loc::Http(h) = &inp.loc {
            if !h.redirects.is_empty() || h.extra_headers > 0 {
                let mut d = c.clone();
                if let Loc::Http(h) = &mut d.inputs[i].loc {
                    h.redirects.clear();
                    h.extra_headers = 0;
                }
                push(d);
            }
        }
    }
    // binary columns
    if c.inputs.iter().all(|i| i.files.iter().all(|f| matches!(&f.enc, Enc::Dc(e) if e.nameless.is_empty()))) && c.ts_col.is_none() {
        let n = c.inputs.iter().flat_map(|i| i.files.iter()).map(|f| f.table.names.len()).min().unwrap_or(0);
        let same = c.inputs.iter().flat_map(|i| i.files.iter()).all(|f| f.table.names == c.inputs[0].files.first().map_or(vec![], |g| g.table.names.clone()));
        if same && n > 1 {
            for col in 0..n.min(16) {
                let mut d = c.clone();
                for f in d.inputs.iter_mut().flat_map(|i| i.files.iter_mut()) {
                    f.table.names.remove(col);
                    f.table.types.remove(col);
                    for r in &mut f.table.rows {
                        r.v.remove(col);
                    }
                }
                push(d);
            }
        }
    }
    if c.sched != Sched::default() {
        let mut d = c.clone();
        d.sched = Sched::default();
        push(d);
        let mut d = c.clone();
        d.sched.latency.clear();
        d.sched.send_plan = Plan::default();
        d.sched.connect_async = false;
        d.sched.dtype_unknown = false;
        d.sched.links = 0;
        d.sched.clock_start_ns = Sched::default().clock_start_ns;
        push(d);
        if !c.sched.out_plan.is_default() {
            let mut d = c.clone();
            d.sched.out_plan = Plan::default();
            push(d);
        }
    }
    if c.old_out.is_some() {
        let mut d = c.clone();
        d.old_out = None;
        push(d);
        if let Some(Old::Fill(b, n)) = &c.old_out {
            if *n > 8 {
                let mut d = c.clone();
                d.old_out = Some(Old::Fill(*b, n / 2));
                push(d);
            }
        }
    }
    if c.begin.is_some() || c.end.is_some() {
        let mut d = c.clone();
        d.begin = None;
        d.end = None;
        d.args = strip_ranges(&c.args);
        push(d);
    }
    // earlier faults
    for (i, f) in c.faults.iter().enumerate() {
        let mut alt: Vec<Fault> = vec![];
        match f {
            Fault::ReadErr { path, offset, errno, once } if *offset > 0 => {
                for o in [0, offset / 2] {
                    alt.push(Fault::ReadErr { path: path.clone(), offset: o, errno: *errno, once: *once });
                }
            }
            Fault::WriteErr { path, offset, errno, once } if *offset > 0 => {
                for o in [0, offset / 2] {
                    alt.push(Fault::WriteErr { path: path.clone(), offset: o, errno: *errno, once: *once });
                }
            }
            _ => {}
        }
        for a in alt {
            let mut d = c.clone();
            d.faults[i] = a;
            push(d);
        }
    }
    out
}
