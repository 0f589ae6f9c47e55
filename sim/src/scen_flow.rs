//! Streaming: bounded memory and read-ahead, inputs that never end.
use crate::case::*;
use crate::codec::{self, Container};
use crate::gen::{self, Knobs};
use crate::model::{self, CsvEnc, CsvOut, DcEnc, Row, Table, Ty, V};
use crate::oracle::{self, bad, exit_sane, first_diff, Accept, Verdict};
use crate::rng::Rng;
use crate::runner::Ctx;
use crate::scen_cli::{probe_case, shrink_cli};
use crate::simos::{self, Fault, Grow, Plan, World};
use serde::{Deserialize, Serialize};
use std::sync::Arc;

// ------------------------------------------------------------------ long inputs

/// two runs over inputs of which one is eight times as long
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct MemCase {
    pub data_seed: u64,
    /// rows per input in the shorter run
    pub rows: u32,
    pub dc: bool,
    pub cols: u32,
    pub conts: Vec<Container>,
    /// file, stdin, http, dir (one entry per input)
    pub locs: Vec<u8>,
    /// 0 interleaved, 1 one input after the other, 2 all the same, 3 one input much denser
    pub pattern: u8,
    pub out_dc: bool,
    /// rows before begin, in percent of all rows
    pub skip: u8,
    pub plan: Plan,
    pub out_plan: Plan,
}

const SLACK: u64 = 256 << 10;
const HEAP_SLACK: i64 = 160 << 10;
const FACTOR: u32 = 8;

fn mem_case(m: &MemCase, rows: u32) -> CliCase {
    let n = m.conts.len();
    let mut names: Vec<String> = (0..m.cols).map(|i| format!("c{}", i)).collect();
    let mut types: Vec<Ty> = if m.dc { vec![Ty::Str, Ty::J, Ty::D, Ty::I] } else { vec![Ty::Str] };
    types = (0..m.cols as usize).map(|i| types[i % types.len()]).collect();
    if !m.dc {
        names.insert(0, "ts".into());
        types.insert(0, Ty::Str);
    }
    let base = 1_500_000_000_000_000_000u64;
    let mut inputs = vec![];
    for i in 0..n {
        let mut r = Rng::new(crate::rng::mix(m.data_seed, i as u64));
        let mut rs = Vec::with_capacity(rows as usize);
        for k in 0..rows as u64 {
            let ts = base
                + match m.pattern {
                    0 => k * n as u64 + i as u64,
                    1 => i as u64 * rows as u64 + k,
                    2 => 0,
                    _ => {
                        if i == 0 {
                            k
                        } else {
                            k / 10
                        }
                    }
                };
            let mut v: Vec<V> = Vec::with_capacity(names.len());
            if !m.dc {
                v.push(V::T(ts.to_string()));
            }
            for t in types.iter().skip(v.len()) {
                let x = r.u64();
                v.push(match t {
                    Ty::J => V::J(x as i64),
                    Ty::D => V::D((x >> 12) as f64 as u64),
                    Ty::I => V::I(x as i32),
                    _ => V::T(format!("{:x}", x >> (r.below(6) * 4))),
                });
            }
            rs.push(Row { ts, v });
        }
        let enc = if m.dc { Enc::Dc(DcEnc::default()) } else { Enc::Csv(CsvEnc::default()) };
        let mut cont = m.conts[i].clone();
        if let Container::Zip { name, .. } = &mut cont {
            *name = format!("data{}", if m.dc { ".dc" } else { ".csv" });
        }
        let table = Table { names: names.clone(), types: types.clone(), rows: rs };
        let (loc, files) = match m.locs[i] {
            l @ (3 | 4) => {
                // 4: the number of files grows with the input, not their size
                let per = if l == 3 { (rows as usize + 3) / 4 } else { (m.rows as usize / 40).max(5) };
                let n = (rows as usize + per - 1) / per;
                let mut t = table;
                let mut files = vec![];
                for f in 0..n {
                    let rest = t.rows.split_off(per.min(t.rows.len()));
                    files.push(FileSpec { stem: format!("f{:03}", f), table: t.clone(), enc: enc.clone(), cont: cont.clone(), plan: m.plan.clone(), damage: vec![] });
                    t.rows = rest;
                }
                (Loc::Dir { path: format!("d{}", i), order: (0..n).rev().collect(), subdirs: vec![] }, files)
            }
            l => {
                let f = FileSpec { stem: format!("in{}", i), table, enc, cont, plan: m.plan.clone(), damage: vec![] };
                let loc = match l {
                    1 => Loc::Stdin,
                    2 => Loc::Http(HttpOpt {
                        host: format!("h{}.test", i),
                        framing: match m.data_seed % 3 {
                            0 => Framing::Length,
                            1 => Framing::Close,
                            _ => Framing::Chunked { sizes: vec![4000, 70, 9000], ext: false, trailer: false },
                        },
                        http10: false,
                        keep_alive: false,
                        lower: false,
                        extra_headers: 0,
                        redirects: vec![],
                        status: 200,
                        malformed: None,
        cross: false,
        looped: false,
        chunk_eintr: false,
                    }),
                    _ => Loc::File,
                };
                (loc, vec![f])
            }
        };
        let route = if loc == Loc::Stdin { Route::User } else { Route::Name };
        inputs.push(Input { loc, route, files, list: None });
    }
    let mut args: Vec<String> = vec!["-E".into()];
    if !m.dc {
        args.extend(["--csv-in-ts-col", "ts", "--csv-in-epoch", "ns", "--csv-in-delimiter", ",", "--csv-in-has-header", "yes"].iter().map(|s| s.to_string()));
    }
    let mut begin = None;
    if m.skip > 0 {
        let mut all: Vec<u64> = inputs.iter().flat_map(|i| i.files.iter()).flat_map(|f| f.table.rows.iter()).map(|r| r.ts).collect();
        all.sort();
        let b = all[(all.len() * m.skip as usize / 100).min(all.len() - 1)];
        begin = Some(b);
        args.extend(["-b".into(), b.to_string()]);
    }
    CliCase {
        inputs,
        args,
        env: vec![],
        inputs_last: false,
        out: if m.out_dc { Some("out.dc".into()) } else { None },
        old_out: None,
        csv_out: CsvOut { delim: ",".into(), print_time: true, time_name: None, epoch: true, gran: "ns".into(), off_min: 0, zone: None },
        begin,
        end: None,
        ts_col: None,
        sched: Sched { out_plan: m.out_plan.clone(), ..Default::default() },
        faults: vec![],
        bad_row: None,
        unmodelled: false,
        lib: None,
    }
}

pub fn eval_mem(m: &MemCase, cx: &mut Ctx) -> Verdict {
    let small = mem_case(m, m.rows);
    probe_case(cx, &small);
    let (b, r) = cx.cli(&small);
    let v = oracle::judge(&small, &b, &r, true);
    if v != Verdict::Ok {
        return v;
    }
    let peak = r.heap_peak;
    if let Some(v) = lag(&small, &b, &r, cx) {
        return v;
    }
    let large = mem_case(m, m.rows * FACTOR);
    let (b, r) = cx.cli(&large);
    let v = oracle::judge(&large, &b, &r, true);
    if v != Verdict::Ok {
        return v;
    }
    if r.heap_peak > peak + HEAP_SLACK {
        return bad("memory-grows", format!("an input {} times as long needs {} bytes of memory instead of {}", FACTOR, r.heap_peak, peak));
    }
    cx.probe(&format!("heap peak below {} KiB", (r.heap_peak / 1024 + 1).next_power_of_two_i64()));
    if let Some(v) = lag(&large, &b, &r, cx) {
        return v;
    }
    Verdict::Ok
}

trait Pow2 {
    fn next_power_of_two_i64(self) -> i64;
}
impl Pow2 for i64 {
    fn next_power_of_two_i64(self) -> i64 {
        (self.max(1) as u64).next_power_of_two() as i64
    }
}

/// how much input was consumed that the output did not yet show
fn lag(c: &CliCase, b: &Built, r: &crate::run::RunResult, cx: &mut Ctx) -> Option<Verdict> {
    // the directory at the end of an archive is read first
    if c.inputs.iter().any(|i| i.files.iter().any(|f| matches!(f.cont, Container::Zip { .. }))) {
        return None;
    }
    let e = expected(c);
    // ends of the rows in the output
    let ends: Vec<u64> = if e.dc {
        model::dc_encode(&e.table, &DcEnc::default()).1.into_iter().skip(1).collect()
    } else {
        e.bytes.iter().enumerate().filter(|(_, x)| **x == b'\n').map(|(i, _)| i as u64 + 1).skip(1).collect()
    };
    if ends.len() != e.table.rows.len() {
        return None;
    }
    let n = c.inputs.len();
    let size: Vec<u64> = c.inputs.iter().map(|i| i.files.iter().map(|f| f.bytes().len() as u64).sum::<u64>()).collect();
    let rows: Vec<u64> = c.inputs.iter().map(|i| i.files.iter().map(|f| f.table.rows.len() as u64).sum::<u64>()).collect();
    let skipped: Vec<u64> = c.inputs.iter().map(|i| i.files.iter().flat_map(|f| f.table.rows.iter()).filter(|r| c.begin.map_or(false, |b| r.ts < b)).count() as u64).collect();
    let total: u64 = size.iter().sum();
    let allow = SLACK * n as u64 + total / 20;
    let mut done = vec![0u64; n];
    let mut at = 0usize;
    let mut len = 0u64;
    let mut worst = 0u64;
    for rec in simos::journal_iter(&r.journal) {
        let is_out = match rec.kind {
            simos::J_STDOUT => c.out.is_none(),
            simos::J_WRITE => rec.node >= b.n_nodes || Some(rec.node) == b.old_node,
            _ => false,
        };
        if !is_out {
            continue;
        }
        // before this write, everything consumed so far had led to `len` bytes of output
        while at < ends.len() && ends[at] <= len {
            done[e.src[at]] += 1;
            at += 1;
        }
        let needed: u64 = (0..n).map(|i| if rows[i] == 0 { size[i] } else { (size[i] as u128 * (skipped[i] + done[i]) as u128 / rows[i] as u128) as u64 }).sum();
        let l = rec.consumed.saturating_sub(needed);
        worst = worst.max(l);
        if l > allow {
            return Some(bad(
                "reads-ahead",
                format!("{} bytes of input had been consumed when the output showed {} of {} rows, for which about {} bytes are needed (allowed distance {})", rec.consumed, at, ends.len(), needed, allow),
            ));
        }
        len += rec.data.len() as u64;
    }
    cx.probe(&format!("read-ahead below {} KiB", ((worst / 1024 + 1) as u64).next_power_of_two()));
    None
}

pub fn gen_mem(r: &mut Rng) -> MemCase {
    let n = *r.pick(&[1usize, 1, 2, 3]);
    let dc = r.chance(1, 2);
    let cols = r.range(1, 5) as u32;
    let conts = (0..n)
        .map(|_| match r.below(9) {
            0 | 1 => Container::Plain,
            2 => Container::Gz { members: if r.chance(1, 2) { vec![5000, 90_000] } else { vec![] }, level: *r.pick(&[1u32, 6]), name: false, extra: 0, comment: false },
            3 => Container::Lz4 { frames: if r.chance(1, 2) { vec![5000, 90_000] } else { vec![] }, block: 65536, independent: r.chance(1, 2), bsum: r.chance(1, 2), csum: r.chance(1, 2), csize: false, skip: vec![] },
            4 => Container::Lz4Block { level: 0, block: *r.pick(&[4096u32, 65536]), compress: r.chance(1, 2) },
            5 => Container::Lzf { block: *r.pick(&[1000u32, 30000, 65535]), compress: r.chance(1, 2) },
            6 | 7 => Container::Zst { frames: if r.chance(1, 2) { vec![5000, 90_000] } else { vec![] }, block: *r.pick(&[1000u32, 20_000]), rle: false, csum: r.chance(1, 2), single: false, csize: 0, window: r.below(41) as u8, skip: vec![] },
            _ => Container::Zip { method: *r.pick(&[0u16, 8, 12]), name: String::new(), comment: 0, descriptor: false, extra: 0, zip64: false, utf8: false, shape: 0 },
        })
        .collect::<Vec<_>>();
    let locs: Vec<u8> = (0..n)
        .map(|i| match r.below(6) {
            0 if n == 1 && !matches!(conts[i], Container::Zip { .. }) => 1,
            1 if !matches!(conts[i], Container::Zip { .. }) => 2,
            2 => *r.pick(&[3u8, 4]),
            _ => 0,
        })
        .collect();
    let sizes = |r: &mut Rng| -> Plan {
        match r.below(4) {
            0 => Plan { sizes: vec![r.range(300, 5000) as u32], cycle: true, eintr: vec![] },
            1 => Plan { sizes: vec![8191, 1, 0, 100], cycle: true, eintr: vec![2] },
            _ => Plan::default(),
        }
    };
    let plan = sizes(r);
    let out_plan = sizes(r);
    // the shorter run is about 300 to 500 kB, enough to fill every fixed-size buffer
    let per_row = if dc { 14 + 9 * cols } else { 22 + 15 * cols };
    let rows = (r.range(300_000, 500_000) as u32 / per_row / n as u32).max(100);
    MemCase { data_seed: r.u64() >> 11, rows, dc, cols, conts, locs, pattern: r.below(4) as u8, out_dc: r.chance(1, 3), skip: if r.chance(1, 4) { r.range(1, 90) as u8 } else { 0 }, plan, out_plan }
}

pub fn shrink_mem(m: &MemCase) -> Vec<MemCase> {
    let mut v = vec![];
    for i in 0..m.conts.len() {
        if m.conts.len() > 1 {
            let mut d = m.clone();
            d.conts.remove(i);
            d.locs.remove(i);
            v.push(d);
        }
        if m.conts[i] != Container::Plain {
            let mut d = m.clone();
            d.conts[i] = Container::Plain;
            v.push(d);
        }
        if m.locs[i] != 0 {
            let mut d = m.clone();
            d.locs[i] = 0;
            v.push(d);
        }
    }
    let mut d = m.clone();
    d.plan = Plan::default();
    d.out_plan = Plan::default();
    v.push(d);
    if m.skip > 0 {
        let mut d = m.clone();
        d.skip = 0;
        v.push(d);
    }
    v
}

// ------------------------------------------------------------------ inputs that never end

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct EndlessCase {
    pub case: CliCase,
    /// inputs that repeat their last record forever
    pub endless: Vec<usize>,
    /// the output takes this many bytes and then fails; otherwise the end bound stops the run
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub closed: Option<(u64, i32)>,
}

/// one further piece of an endless file: the last record again, at least `min` bytes of it
fn piece(f: &FileSpec, min: usize) -> (Vec<u8>, usize) {
    let last = f.table.rows.last().unwrap().clone();
    let mut t = Table { names: f.table.names.clone(), types: f.table.types.clone(), rows: vec![last.clone()] };
    let enc = |t: &Table| -> Vec<u8> {
        match &f.enc {
            Enc::Csv(e) => model::csv_encode(t, &CsvEnc { header: false, no_final_eol: false, ..e.clone() }).0,
            Enc::Dc(e) => {
                let h = model::dc_header(&t.names, &t.types, e).len();
                model::dc_encode(t, e).0[h..].to_vec()
            }
            Enc::User(_) => crate::usrc::rows(t),
            Enc::Raw(b) => b.clone(),
        }
    };
    let one = enc(&t).len().max(1);
    let k = (min / one + 1).min(5000);
    t.rows = vec![last; k];
    let plain = enc(&t);
    let bytes = match &f.cont {
        Container::Plain => plain,
        c => codec::encode(c, &plain).bytes,
    };
    (bytes, k)
}

fn record_len(c: &CliCase) -> u64 {
    c.inputs.iter().flat_map(|i| i.files.iter()).flat_map(|f| f.table.rows.iter()).map(|r| r.v.iter().map(|v| v.text().map_or(8, |t| t.len() as u64 + 8)).sum::<u64>()).max().unwrap_or(0)
}

pub fn eval_endless(e: &EndlessCase, cx: &mut Ctx) -> Verdict {
    let c = &e.case;
    if e.endless.iter().any(|i| *i >= c.inputs.len() || c.inputs[*i].files[0].table.rows.is_empty()) {
        return Verdict::Inconclusive("nothing to repeat".into());
    }
    if e.closed.is_none() {
        let Some(end) = c.end else { return Verdict::Inconclusive("no end".into()) };
        if e.endless.iter().any(|i| c.inputs[*i].files[0].table.rows.last().unwrap().ts < end) {
            return Verdict::Inconclusive("would not end".into());
        }
    }
    probe_case(cx, c);
    cx.probe(if e.closed.is_some() { "endless input: output closes" } else { "endless input: end bound" });
    let mut full = c.clone();
    let mut run = c.clone();
    // stored bytes per byte of data: tiny blocks blow small records up
    let blow = e.endless.iter().map(|i| {
        let f = &c.inputs[*i].files[0];
        f.bytes().len() as u64 / (f.plain().0.len() as u64).max(1) + 1
    }).max().unwrap_or(1);
    let slack = SLACK * blow + 4 * record_len(c);
    let mut tails: Vec<(String, Arc<Vec<u8>>, u64)> = vec![];
    for i in &e.endless {
        let f = &c.inputs[*i].files[0];
        let (bytes, _) = piece(f, 3000);
        let mut room = slack;
        if let Some((at, _)) = e.closed {
            // enough repetitions to fill the output
            // what an output buffer holds back has been read, too
            let k = at as usize + 16_384;
            let last = f.table.rows.last().unwrap().clone();
            let row_out = {
                let mut t = full.clone();
                t.inputs[*i].files[0].table.rows = vec![last.clone()];
                let seen = t.inputs[*i].seen();
                let dc = out_is_dc(c);
                let one = model::render(&seen, dc, &c.csv_out).len();
                let mut none = seen.clone();
                none.rows.clear();
                (one - model::render(&none, dc, &c.csv_out).len()).max(1)
            };
            let k = k / row_out + 2;
            full.inputs[*i].files[0].table.rows.extend(std::iter::repeat(last).take(k));
            let (p, per) = piece(f, 3000);
            room += (k / per + 2) as u64 * p.len() as u64;
        }
        let key = c.inputs[*i].key(0);
        let head = match &c.inputs[*i].loc {
            Loc::Http(h) => http_response(h, &f.bytes()).0.len() as u64,
            _ => f.bytes().len() as u64,
        };
        tails.push((key, Arc::new(bytes), head + room));
    }
    if let Some((offset, errno)) = e.closed {
        let path = c.out.as_ref().map(|o| format!("/w/{}", o)).unwrap_or("stdout".into());
        run.faults.push(Fault::WriteErr { path, offset, errno, once: false });
    }
    let prep = |w: &mut World| {
        for (key, bytes, limit) in &tails {
            for (k, n) in w.nodes.iter_mut().enumerate() {
                if n.path == *key || (key == "stdin" && w.stdin == Some(k)) {
                    let b = bytes.clone();
                    n.grow = Some(Grow { next: Arc::new(move |_| b.to_vec()), index: 0, limit: *limit });
                }
            }
        }
    };
    let (b, r) = cx.cli_with(&run, &prep);
    if r.exit == crate::run::Exit::Budget {
        return bad("does-not-stop", format!("an input that never ends is read on and on ({} bytes consumed)", r.consumed_total));
    }
    let v = exit_sane(&r);
    if v != Verdict::Ok {
        return v;
    }
    let ex = expected(if e.closed.is_some() { &full } else { c });
    let acc = [Accept::of(&ex)];
    let t = oracle::trace(&b, &r, &acc, true);
    if let Some(m) = t.not_prefix {
        return bad("not-a-prefix", m);
    }
    let fin = t.fin.unwrap_or_default();
    if e.closed.is_some() {
        if r.fired.last().copied().unwrap_or(0) == 0 {
            return Verdict::Inconclusive("the output did not close".into());
        }
        if !r.failed_loudly() {
            return bad("success-despite-failure", format!("writing fails but the run reported {:?}", r.exit));
        }
        return Verdict::Ok;
    }
    if !r.ok() {
        return bad("unexpected-failure", format!("the run failed ({:?}): {}", r.exit, r.stderr().chars().take(400).collect::<String>()));
    }
    if !acc[0].equal(&fin) {
        return bad("wrong-output", format!("output is wrong: {}", first_diff(&fin, &ex.bytes)));
    }
    Verdict::Ok
}

pub fn gen_endless(r: &mut Rng) -> EndlessCase {
    loop {
        let mut case = gen::gen_cli(r, &Knobs { inputs: (1, 3), dir: 0, ranges: 0, empty: 0, short_records: 5, http: 12, cont: 45, stdin: 40, custom: 12, big: 2, max_rows: 60, ..Default::default() });
        for i in &mut case.inputs {
            let f = &mut i.files[0];
            if matches!(f.cont, Container::Zip { .. } | Container::Lz4Block { .. }) {
                f.cont = Container::Plain;
            }
            if let Enc::Csv(e) = &mut f.enc {
                e.no_final_eol = false;
            }
            if let Loc::Http(h) = &mut i.loc {
                h.framing = Framing::Close;
                h.keep_alive = false;
            }
        }
        if case.inputs.iter().any(|i| i.files[0].table.rows.is_empty()) {
            continue;
        }
        // the format given to standard input names its container
        let mut endless: Vec<usize> = (0..case.inputs.len()).filter(|_| r.chance(2, 3)).collect();
        if endless.is_empty() {
            endless.push(r.us(case.inputs.len()));
        }
        for i in &endless {
            if let Enc::User(e) = &mut case.inputs[*i].files[0].enc {
                e.open = true;
            }
        }
        if r.chance(1, 5) {
            let len = expected(&case).bytes.len() as u64;
            let at = if r.chance(1, 2) { r.below(len + 1) } else { len + r.skew(30_000) as u64 };
            let errno = if case.out.is_none() { *r.pick(&[libc::EPIPE, libc::EIO]) } else { libc::ENOSPC };
            return EndlessCase { case, endless, closed: Some((at, errno)) };
        }
        let m = endless.iter().map(|i| case.inputs[*i].files[0].table.rows.last().unwrap().ts).min().unwrap();
        if m > 6_900_000_000_000_000_000 {
            continue;
        }
        let all: Vec<u64> = case.inputs.iter().flat_map(|i| i.files[0].table.rows.iter().map(|r| r.ts)).filter(|t| *t <= m).collect();
        let p = match r.below(3) {
            0 => m,
            1 => m.saturating_sub(1),
            _ => *r.pick(&all),
        };
        let (v, s, _) = gen::range_arg(r, p, gen::Zone::UTC, false);
        case.end = Some(v);
        case.args.extend([(*r.pick(&["-e", "--end"])).to_string(), s]);
        if r.chance(1, 4) {
            let p = *r.pick(&all);
            let (v, s, _) = gen::range_arg(r, p, gen::Zone::UTC, false);
            case.begin = Some(v);
            case.args.extend([(*r.pick(&["-b", "--begin"])).to_string(), s]);
        }
        return EndlessCase { case, endless, closed: None };
    }
}

pub fn shrink_endless(e: &EndlessCase) -> Vec<EndlessCase> {
    let mut v = vec![];
    let n = e.case.inputs.len();
    for i in 0..e.endless.len() {
        if e.endless.len() > 1 {
            let mut d = e.clone();
            d.endless.remove(i);
            v.push(d);
        }
    }
    for c in shrink_cli(&e.case) {
        if c.inputs.len() == n && (e.closed.is_some() || c.end == e.case.end) {
            v.push(EndlessCase { case: c, ..e.clone() });
        }
    }
    v
}
