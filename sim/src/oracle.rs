//! Judging one run of the command line tool against the reference model.
use crate::case::*;
use crate::codec::Container;
use crate::model::{self, Table, V};
use crate::run::{Exit, RunResult};
use crate::simos::{self, Fault};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Verdict {
    Ok,
    Violation { class: String, detail: String },
    Inconclusive(String),
}
pub fn bad(class: &str, detail: String) -> Verdict {
    Verdict::Violation { class: class.into(), detail }
}

// ------------------------------------------------------------------ output over time

/// what became of the output place during a run
#[derive(Default)]
pub struct OutTrace {
    /// final content (None = no such file)
    pub fin: Option<Vec<u8>>,
    /// content differed from the old file at some moment
    pub touched: bool,
    /// first moment at which the content was neither the old file nor a prefix of an accepted output
    pub not_prefix: Option<String>,
    /// an input (or another existing file) was modified
    pub input_modified: Option<String>,
}

fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(&b[..b.len().min(200)]).into_owned();
    format!("{:?}{}", s, if b.len() > 200 { "…" } else { "" })
}

pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    let n = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count();
    let from = n.saturating_sub(30);
    format!(
        "lengths {} and {}, first difference at byte {}: got {} expected {}",
        a.len(),
        b.len(),
        n,
        show(&a[from.min(a.len())..]),
        show(&b[from.min(b.len())..])
    )
}

fn norm_table(t: &Table) -> Table {
    let mut t = t.clone();
    for r in &mut t.rows {
        for v in &mut r.v {
            if let V::R(..) = v {
                *v = V::T(v.text().unwrap());
            }
        }
        while r.v.len() < t.names.len() {
            r.v.push(V::N);
        }
    }
    t
}

pub fn same_table(a: &Table, b: &Table) -> bool {
    norm_table(a) == norm_table(b)
}

/// an accepted complete output
pub struct Accept {
    pub bytes: Vec<u8>,
    pub dc: Option<Table>,
}
impl Accept {
    pub fn of(e: &Expect) -> Accept {
        Accept { bytes: e.bytes.clone(), dc: if e.dc { Some(e.table.clone()) } else { None } }
    }
    pub fn equal(&self, b: &[u8]) -> bool {
        if b == &self.bytes[..] {
            return true;
        }
        match &self.dc {
            // another encoding of the same table is as good
            Some(t) => matches!(model::dc_decode(b), Ok((d, _)) if same_table(&d, t)),
            None => false,
        }
    }
    pub fn prefix(&self, b: &[u8]) -> bool {
        if self.bytes.starts_with(b) {
            return true;
        }
        match &self.dc {
            Some(t) => dc_prefix(b, t),
            None => false,
        }
    }
}

/// is `b` a prefix of some encoding of `t`
pub fn dc_prefix(b: &[u8], t: &Table) -> bool {
    // find the longest decodable prefix at a record boundary
    let n = norm_table(t);
    let mut best = None;
    // decode with ever shorter input until it ends at a record boundary
    match model::dc_decode(b) {
        Ok((d, _)) => best = Some(d),
        Err(e) => {
            if !e.starts_with("ends inside") {
                return false;
            }
            if let Some((d, rest_ok)) = model::dc_decode_prefix(b) {
                if rest_ok {
                    best = Some(d);
                }
            } else {
                // not even the header is complete
                return true;
            }
        }
    }
    match best {
        Some(d) => {
            let d = norm_table(&d);
            d.names == n.names && d.types == n.types && d.rows.len() <= n.rows.len() && d.rows[..] == n.rows[..d.rows.len()]
        }
        None => false,
    }
}

pub fn trace(b: &Built, r: &RunResult, accepts: &[Accept], check_prefix: bool) -> OutTrace {
    let mut t = OutTrace::default();
    let old = b.old.clone();
    let Some(out) = b.out_path.clone() else {
        let mut cur = Vec::new();
        for rec in simos::journal_iter(&r.journal) {
            match rec.kind {
                simos::J_STDOUT => {
                    cur.extend_from_slice(rec.data);
                }
                simos::J_WRITE | simos::J_TRUNC | simos::J_UNLINK | simos::J_RENAME if rec.node < b.n_nodes && t.input_modified.is_none() => {
                    t.input_modified = Some(format!("node {} at operation {}", rec.node, rec.op));
                }
                _ => {}
            }
        }
        t.touched = !cur.is_empty();
        // a stream only grows: it was a prefix at every moment if it is one at the end
        if check_prefix && !accepts.iter().any(|a| a.prefix(&cur)) {
            t.not_prefix = Some(first_diff(&cur, &accepts[0].bytes));
        }
        t.fin = Some(cur);
        return t;
    };
    // files by node
    let mut content: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
    let mut names: BTreeMap<String, usize> = BTreeMap::new();
    if let (Some(n), Some(o)) = (b.old_node, &old) {
        content.insert(n, o.clone());
        names.insert(out.clone(), n);
    }
    // length of the content of the out node already known to be good, per accepted output
    let mut good: Option<(usize, usize, usize)> = None; // node, accept index, verified length
    for rec in simos::journal_iter(&r.journal) {
        let n = rec.node;
        let mut appended = false;
        match rec.kind {
            simos::J_CREATE => {
                names.insert(String::from_utf8_lossy(rec.data).into_owned(), n);
                content.insert(n, vec![]);
            }
            simos::J_TRUNC => {
                let c = content.entry(n).or_default();
                c.resize(rec.a as usize, 0);
            }
            simos::J_WRITE => {
                let c = content.entry(n).or_default();
                let off = rec.a as usize;
                appended = off == c.len();
                if c.len() < off {
                    c.resize(off, 0);
                }
                let k = (c.len() - off).min(rec.data.len());
                c[off..off + k].copy_from_slice(&rec.data[..k]);
                c.extend_from_slice(&rec.data[k..]);
            }
            simos::J_UNLINK => {
                names.retain(|_, v| *v != n);
            }
            simos::J_RENAME => {
                names.retain(|_, v| *v != n);
                names.insert(String::from_utf8_lossy(rec.data).into_owned(), n);
            }
            _ => continue,
        }
        if n < b.n_nodes && Some(n) != b.old_node && rec.kind != simos::J_CREATE && t.input_modified.is_none() {
            t.input_modified = Some(format!("node {} at operation {}", n, rec.op));
        }
        let cur_node = names.get(&out).copied();
        let cur = cur_node.and_then(|i| content.get(&i));
        if cur.map(|x| x.as_slice()) == old.as_deref() && !t.touched {
            continue;
        }
        t.touched = true;
        if !check_prefix || t.not_prefix.is_some() {
            continue;
        }
        let Some(cur) = cur else { continue };
        if let (Some((gn, ga, gl)), Some(cn)) = (good, cur_node) {
            if gn == cn && n == cn && appended && gl <= cur.len() && accepts[ga].bytes.len() >= cur.len() && accepts[ga].bytes[gl..cur.len()] == cur[gl..] {
                good = Some((gn, ga, cur.len()));
                continue;
            }
            if n != cn {
                continue;
            }
        }
        if old.as_deref() == Some(cur.as_slice()) {
            continue;
        }
        good = None;
        let mut ok = false;
        for (ai, a) in accepts.iter().enumerate() {
            if a.bytes.starts_with(cur) {
                good = Some((cur_node.unwrap(), ai, cur.len()));
                ok = true;
                break;
            }
            if a.prefix(cur) {
                ok = true;
                break;
            }
        }
        if !ok {
            t.not_prefix = Some(format!("at operation {}: {}", rec.op, first_diff(cur, &accepts[0].bytes)));
        }
    }
    t.fin = names.get(&out).and_then(|i| content.get(i)).cloned();
    if names.get(&out).is_none() {
        t.fin = None;
    }
    t
}

// ------------------------------------------------------------------ what faults allow

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FileEff {
    Whole,
    /// a complete, shorter file with that many rows
    Shorter(usize),
    /// success is only acceptable with the full result; strict: success is not acceptable
    Broken { strict: bool },
    Unknown,
}

/// so little is left of a file of which (part of) the format is detected from content that it may be anything
fn unrecognisable(route: Route, f: &FileSpec, off: u64) -> bool {
    !matches!(route, Route::Name) && off < 10 && !(matches!(f.enc, Enc::Csv(_)) && matches!(f.cont, Container::Plain))
}

/// effect of ending the stored bytes of a file after `off` bytes
pub fn cut_effect(f: &FileSpec, off: u64) -> FileEff {
    let (b, bounds) = f.encoded();
    if off >= b.len() as u64 {
        return FileEff::Whole;
    }
    match (&f.cont, &f.enc) {
        (Container::Plain, Enc::Dc(_)) => match bounds.iter().position(|x| *x == off) {
            Some(k) => FileEff::Shorter(k),
            None => FileEff::Broken { strict: true },
        },
        (Container::Plain, Enc::Csv(e)) => {
            if let Some(k) = bounds.iter().position(|x| *x == off) {
                if k == 0 && (!e.header || e.auto_header) {
                    return FileEff::Unknown;
                }
                return FileEff::Shorter(k);
            }
            FileEff::Unknown
        }
        (Container::Plain, Enc::Raw(_)) => FileEff::Unknown,
        (Container::Plain, Enc::User(_)) => FileEff::Broken { strict: true },
        _ => {
            if bounds.contains(&off) || off == 0 {
                FileEff::Unknown
            } else {
                FileEff::Broken { strict: false }
            }
        }
    }
}

pub struct Allowed {
    pub accepts: Vec<Accept>,
    pub must_fail: Option<String>,
    pub must_succeed: bool,
    pub untouched_old: bool,
    pub unknown: bool,
    /// the only reason to fail is a chunked response that ends inside the data of a chunk
    pub chunk_cut: bool,
    /// what the output can be when responses cut inside the data of a chunk are taken as complete:
    /// the output of the shorter inputs, or nothing definite
    pub chunk_alt: Option<Result<Accept, ()>>,
}

/// when a cut of a chunked response after `off` bytes falls between the start and the end of the
/// data of a chunk: how many bytes of the body came before it
fn inside_chunk(resp: &[u8], head: u64, off: u64) -> Option<u64> {
    let mut p = head as usize;
    let mut body = 0u64;
    loop {
        let l = resp[p..].windows(2).position(|w| w == b"\r\n")?;
        let line = String::from_utf8_lossy(&resp[p..p + l]).into_owned();
        let n = usize::from_str_radix(line.split(';').next().unwrap_or("").trim(), 16).ok()?;
        let start = p + l + 2;
        if n == 0 || start as u64 > off {
            return None;
        }
        if off < (start + n) as u64 {
            return Some(body + off - start as u64);
        }
        body += n as u64;
        p = start + n + 2;
        if p >= resp.len() {
            return None;
        }
    }
}

/// a record that cannot be represented makes the run fail, unless the run ends before it
fn shorter_rows(a: &mut Allowed, c: &CliCase, ts: u64) {
    a.must_succeed = false;
    if c.end.map_or(true, |e| ts < e) {
        a.must_fail = Some("a record cannot be represented".into());
    }
}

/// what the faults that fired and the damage present allow this run to do
pub fn allowed(c: &CliCase, fired: &[u32]) -> Allowed {
    let mut a = Allowed { accepts: vec![], must_fail: None, must_succeed: true, untouched_old: false, unknown: false, chunk_cut: false, chunk_alt: None };
    let strict_ok = c.end.is_none();
    let mut shorter = c.clone();
    let mut any_shorter = false;
    let mut chunk_cuts: Vec<usize> = vec![];
    let mut chunk_rows: Vec<(usize, usize, Option<usize>)> = vec![];
    let mut apply = |a: &mut Allowed, i: usize, k: usize, e: FileEff, what: &str| match e {
        FileEff::Whole => {}
        FileEff::Shorter(n) => {
            shorter.inputs[i].files[k].table.rows.truncate(n);
            any_shorter = true;
        }
        FileEff::Broken { strict } => {
            a.must_succeed = false;
            if strict && strict_ok {
                a.must_fail = Some(what.to_string());
            }
        }
        FileEff::Unknown => {
            a.unknown = true;
            a.must_succeed = false;
        }
    };
    // stored damage
    for (i, inp) in c.inputs.iter().enumerate() {
        for (k, f) in inp.files.iter().enumerate() {
            match &f.damage[..] {
                [] => {}
                [Damage::Cut(n)] if unrecognisable(inp.route, f, *n) => apply(&mut a, i, k, FileEff::Unknown, ""),
                [Damage::Cut(n)] if !matches!(&inp.loc, Loc::Http(h) if h.malformed.is_some()) => {
                    let e = cut_effect(f, *n);
                    apply(&mut a, i, k, e, "the stored file ends inside a record");
                }
                _ => {
                    a.must_succeed = false;
                    if !f.cont.checked() {
                        a.unknown = true;
                    }
                }
            }
        }
        let odd = inp.in_order().iter().position(|k| inp.files[*k].cont.refused());
        for (at, what) in [(inp.header_problem(), "a file of the directory lacks a column or has it with another type"), (odd, "a zip archive is not one of a single file that can be read")] {
            let Some(at) = at else { continue };
            for (n, k) in inp.in_order().into_iter().enumerate().skip(at) {
                apply(&mut a, i, k, FileEff::Shorter(0), "");
                if n == at {
                    apply(&mut a, i, k, FileEff::Broken { strict: true }, what);
                }
            }
        }
        for (k, f) in inp.files.iter().enumerate() {
            let Enc::User(e) = &f.enc else { continue };
            if let Some((n, _)) = e.fail {
                apply(&mut a, i, k, FileEff::Shorter(n as usize), "");
                apply(&mut a, i, k, FileEff::Broken { strict: true }, "a user-supplied source reports an error");
            }
            if e.refuse {
                apply(&mut a, i, k, FileEff::Shorter(0), "");
                apply(&mut a, i, k, FileEff::Broken { strict: true }, "a user-supplied source factory refuses a file");
            }
        }
        if let Loc::Http(h) = &inp.loc {
            if h.status != 200 || h.malformed.is_some() || (h.looped && !h.redirects.is_empty()) {
                a.must_succeed = false;
                a.must_fail = Some("HTTP error status, malformed response or endless redirection".into());
                a.untouched_old = true;
            }
        }
    }
    if let Some((i, k, row)) = c.bad_row {
        let ts = c.inputs[i].files[k].table.rows[row].ts;
        shorter_rows(&mut a, c, ts);
        apply(&mut a, i, k, FileEff::Shorter(row), "");
    }
    for (fi, f) in c.faults.iter().enumerate() {
        if fired.get(fi).copied().unwrap_or(0) == 0 {
            continue;
        }
        match f {
            Fault::ReadErr { once, errno, path, .. } => {
                a.must_succeed = false;
                if !*once && strict_ok {
                    a.must_fail = Some(format!("reading {} failed with errno {}", path, errno));
                }
            }
            Fault::Eof { path, offset } => {
                let mut hit = false;
                for (i, inp) in c.inputs.iter().enumerate() {
                    for (k, fs) in inp.files.iter().enumerate() {
                        if inp.key(k) != *path {
                            continue;
                        }
                        hit = true;
                        if *offset < 4 && !matches!(inp.loc, Loc::Http(_)) {
                            // shorter than it was when its first bytes were looked at
                            a.must_succeed = false;
                        }
                        let e = match &inp.loc {
                            Loc::Http(h) => {
                                let (resp, head) = http_response(h, &fs.bytes());
                                let total = resp.len() as u64;
                                if *offset >= total {
                                    FileEff::Whole
                                } else if *offset < head {
                                    FileEff::Broken { strict: true }
                                } else {
                                    match &h.framing {
                                        Framing::Length => FileEff::Broken { strict: true },
                                        Framing::Chunked { trailer, .. } => {
                                            if let Some(n) = inside_chunk(&resp, head, *offset) {
                                                chunk_cuts.push(fi);
                                                chunk_rows.push((i, k, match cut_effect(fs, n) {
                                                    FileEff::Shorter(rows) => Some(rows),
                                                    _ => None,
                                                }));
                                            }
                                            let tail = 5 + if *trailer { 14 } else { 0 };
                                            FileEff::Broken { strict: *offset + tail <= total }
                                        }
                                        Framing::Close => {
                                            if unrecognisable(inp.route, fs, *offset - head) {
                                                FileEff::Unknown
                                            } else {
                                                cut_effect(fs, *offset - head)
                                            }
                                        }
                                    }
                                }
                            }
                            // too little is left to recognise the format by
                            _ if unrecognisable(inp.route, fs, *offset) => FileEff::Unknown,
                            _ => cut_effect(fs, *offset),
                        };
                        apply(&mut a, i, k, e, &format!("{} ended after {} bytes", path, offset));
                    }
                }
                if !hit {
                    a.must_succeed = false;
                    a.unknown = true;
                }
            }
            Fault::OpenErr { nth, path, .. } => {
                a.must_succeed = false;
                if *nth == u32::MAX {
                    a.must_fail = Some(format!("opening {} failed", path));
                    if c.inputs.iter().any(|i| !matches!(i.loc, Loc::Dir { .. }) && i.key(0) == *path) {
                        a.untouched_old = true;
                    }
                }
            }
            Fault::OpendirErr { path, .. } | Fault::ReaddirErr { path, .. } => {
                a.must_succeed = false;
                a.must_fail = Some(format!("listing {} failed", path));
                a.untouched_old = true;
            }
            Fault::StatErr { .. } | Fault::SeekErr { .. } => a.must_succeed = false,
            Fault::WriteErr { once, path, errno, .. } => {
                a.must_succeed = false;
                if !*once {
                    a.must_fail = Some(format!("writing {} failed with errno {}", path, errno));
                }
            }
            Fault::CreateErr { path, .. } => {
                a.must_succeed = false;
                a.must_fail = Some(format!("creating {} failed", path));
            }
            Fault::Dns { host } | Fault::Connect { host, .. } | Fault::ConnectTimeout { host } => {
                a.must_succeed = false;
                a.must_fail = Some(format!("connecting to {} failed", host));
                a.untouched_old = true;
            }
            Fault::SendErr { host, .. } => {
                a.must_succeed = false;
                a.must_fail = Some(format!("sending to {} failed", host));
                a.untouched_old = true;
            }
            Fault::Crash { .. } | Fault::AllocFail { .. } => a.must_succeed = false,
        }
    }
    if !chunk_cuts.is_empty() {
        let mut rest = c.clone();
        let mut rest_fired = fired.to_vec();
        for i in chunk_cuts.into_iter().rev() {
            rest.faults.remove(i);
            if i < rest_fired.len() {
                rest_fired.remove(i);
            }
        }
        a.chunk_cut = allowed(&rest, &rest_fired).must_fail.is_none();
    }
    if !chunk_rows.is_empty() {
        let mut alt = shorter.clone();
        for (i, k, rows) in &chunk_rows {
            if let Some(n) = rows {
                alt.inputs[*i].files[*k].table.rows.truncate(*n);
            }
        }
        a.chunk_alt = Some(if chunk_rows.iter().all(|x| x.2.is_some()) { Ok(Accept::of(&expected(&alt))) } else { Err(()) });
    }
    a.accepts = vec![Accept::of(&expected(if any_shorter { &shorter } else { c }))];
    if c.inputs.len() > 1 && !a.unknown {
        let heads: Vec<Table> = c.inputs.iter().map(|i| i.seen()).collect();
        if heads.iter().any(|h| h.names != heads[0].names || h.types != heads[0].types) {
            a.must_succeed = false;
            a.must_fail = Some("the inputs have different columns".into());
            // not a row is written
            let none = Table { rows: vec![], ..heads[0].clone() };
            a.accepts = vec![Accept { bytes: model::render(&none, out_is_dc(c), &c.csv_out), dc: if out_is_dc(c) { Some(none) } else { None } }];
        }
    }
    a
}

/// the exit itself: hangs, foreign signals
pub fn exit_sane(r: &RunResult) -> Verdict {
    match r.exit {
        Exit::Wall => Verdict::Inconclusive("the run did not finish in the harness's wall-clock limit".into()),
        Exit::Hang => bad("hang", format!("the run waits for something that can never happen (after {} operations)", r.ops)),
        Exit::Budget => bad("hang", format!("the run did not finish within {} simulated operations", r.ops)),
        Exit::Cpu => bad("hang", "the run used up its processor time without finishing".into()),
        Exit::JournalFull => bad("runaway-output", "the run writes without end".into()),
        Exit::Signal(s) if s != libc::SIGABRT => bad("killed-by-signal", format!("the run died from signal {}", s)),
        _ => Verdict::Ok,
    }
}

/// files and connections open at a time: a few per input, however many files a directory has
pub fn held_open(c: &CliCase, r: &RunResult) -> Option<Verdict> {
    let redirects: usize = c.inputs.iter().map(|i| if let Loc::Http(h) = &i.loc { if h.looped { 8 } else { h.redirects.len() } } else { 0 }).sum();
    let limit = (2 * c.inputs.len() + redirects + 4) as u64;
    if r.fds_peak > limit {
        return Some(bad("held-open", format!("{} files or connections were open at a time for {} inputs", r.fds_peak, c.inputs.len())));
    }
    None
}

pub fn judge(c: &CliCase, b: &Built, r: &RunResult, prefix: bool) -> Verdict {
    let v = exit_sane(r);
    if v != Verdict::Ok {
        return v;
    }
    let a = allowed(c, &r.fired);
    let t = trace(b, r, &a.accepts, prefix && !a.unknown);
    if let Some(m) = &t.input_modified {
        return bad("input-modified", m.clone());
    }
    if a.unknown {
        return Verdict::Ok;
    }
    if let Some(v) = held_open(c, r) {
        return v;
    }
    if r.ok() {
        if let Some(m) = a.must_fail {
            if a.chunk_cut {
                return bad("chunk-cut-accepted", format!("{} (inside the data of a chunk) but the run reported success", m));
            }
            return bad("success-despite-failure", format!("{} but the run reported success", m));
        }
        let fin = t.fin.clone().unwrap_or_default();
        if t.fin.is_none() {
            return bad("wrong-output", "success was reported but there is no output file".into());
        }
        if !a.accepts.iter().any(|x| x.equal(&fin)) {
            if a.chunk_cut {
                return bad("chunk-cut-accepted", "a response ended early (inside the data of a chunk) but the run reported success with rows missing".into());
            }
            return bad("wrong-output", format!("success was reported with a wrong output: {}", first_diff(&fin, &a.accepts[0].bytes)));
        }
        // with another (equivalent) encoding the prefix is judged against what was finally written
        if let Some(m) = &t.not_prefix {
            if t.fin.as_deref() == Some(&a.accepts[0].bytes[..]) {
                return bad("not-a-prefix", m.clone());
            }
        }
        return Verdict::Ok;
    }
    if a.must_succeed && r.exit != Exit::Crash {
        return bad("unexpected-failure", format!("nothing went wrong, but the run failed ({:?}): {}", r.exit, r.stderr().chars().take(400).collect::<String>()));
    }
    // (a closed pipe is not reported; who reads it knows)
    let hushed = c.faults.iter().enumerate().any(|(i, f)| r.fired.get(i).map_or(false, |n| *n > 0) && f.errno() == Some(libc::EPIPE))
        || c.inputs.iter().flat_map(|i| &i.files).any(|f| matches!(&f.enc, Enc::User(e) if e.fail.is_some()));
    if c.lib.is_none() && matches!(r.exit, Exit::Code(_)) && !hushed && r.stderr().trim().is_empty() {
        return bad("silent-failure", format!("the run failed ({:?}) without a word on the standard error stream", r.exit));
    }
    if let Some(m) = &t.not_prefix {
        let by_cut = match &a.chunk_alt {
            None => false,
            Some(Err(())) => true,
            Some(Ok(alt)) => trace(b, r, std::slice::from_ref(alt), true).not_prefix.is_none(),
        };
        if by_cut {
            return bad("chunk-cut-accepted", format!("a response ended early (inside the data of a chunk) and the run went on after it: {}", m));
        }
        return bad("not-a-prefix", m.clone());
    }
    if a.untouched_old && b.old.is_some() && t.touched {
        return bad("old-output-lost", format!("an input could not be opened ({}), but the existing output was changed", a.must_fail.unwrap_or_default()));
    }
    Verdict::Ok
}

/// final output of a run
pub fn final_output(b: &Built, r: &RunResult) -> Option<Vec<u8>> {
    trace(b, r, &[], false).fin
}
