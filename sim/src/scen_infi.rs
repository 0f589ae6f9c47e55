//! The sample server (util/infistream): its two endless streams are real code; the HTTP server around
//! them, which does not build with the compilers at hand, is replaced by one that does what actix-web does
//! with the items of a streaming body: each becomes a chunk, and an empty one ends the response.
use crate::case::{expected, CliCase, Enc, FileSpec, Framing, HttpOpt, Input, Loc, Route};
use crate::codec::Container;
use crate::gen;
use crate::model::{CsvEnc, Row, Table, Ty, V};
use crate::oracle::{self, bad, exit_sane, first_diff, Accept, Verdict};
use crate::rng::Rng;
use crate::run::Exit;
use crate::runner::Ctx;
use crate::scen_cli::shrink_cli;
use crate::simos::{Fault, Grow, Plan, World};
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct InfiCase {
    /// the table of each input holds the rows that matter, more follow
    pub case: CliCase,
    /// the output takes this many bytes and then fails; otherwise the end bound stops the run
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub closed: Option<(u64, i32)>,
    /// the connection of an input breaks after so many bytes
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub broken: Option<(usize, u64, i32)>,
}

type Chunks = Box<dyn FnMut() -> Vec<u8> + Send>;

#[cfg(feature = "infistream")]
mod real {
    use super::Chunks;
    use futures::{Async, Stream};
    pub mod actix_web {
        #[derive(Debug)]
        pub struct Error;
    }
    #[allow(dead_code, unused_imports, clippy::all)]
    mod inficsv {
        use super::actix_web;
        include!(concat!(env!("OUT_DIR"), "/inficsv.rs"));
    }
    #[allow(dead_code, unused_imports, clippy::all)]
    mod inficsvgz {
        use super::actix_web;
        include!(concat!(env!("OUT_DIR"), "/inficsvgz.rs"));
    }
    /// what the server puts on the connection for the next item; nothing once the response has ended
    fn chunks<S>(mut s: S) -> Chunks
    where
        S: Stream + Send + 'static,
        S::Item: AsRef<[u8]>,
    {
        let mut ended = false;
        Box::new(move || {
            if ended {
                return vec![];
            }
            match s.poll() {
                Ok(Async::Ready(Some(b))) if !b.as_ref().is_empty() => {
                    let b = b.as_ref();
                    let mut o = format!("{:X}\r\n", b.len()).into_bytes();
                    o.extend_from_slice(b);
                    o.extend_from_slice(b"\r\n");
                    o
                }
                Ok(Async::Ready(_)) => {
                    ended = true;
                    b"0\r\n\r\n".to_vec()
                }
                // the server drops the connection, or waits for somebody to wake it, which nobody does
                _ => {
                    ended = true;
                    vec![]
                }
            }
        })
    }
    pub fn open(gz: bool) -> Option<Chunks> {
        Some(if gz { chunks(inficsvgz::InfiCSVGZ::new()) } else { chunks(inficsv::InfiCSV::new()) })
    }
}
#[cfg(not(feature = "infistream"))]
mod real {
    pub fn open(_: bool) -> Option<super::Chunks> {
        None
    }
}

pub fn available() -> bool {
    real::open(false).is_some()
}

const UNITS: [(&str, u64); 4] = [("s", 1_000_000_000), ("ms", 1_000_000), ("us", 1000), ("ns", 1)];

fn sample(rows: u64, unit: u64) -> Table {
    let cell = |p: &str, k: u64| V::T(format!("{}{}", p, k));
    Table {
        names: (0..7).map(|i| format!("c{}", i)).collect(),
        types: vec![Ty::Str; 7],
        rows: (0..rows).map(|k| Row { ts: k * unit, v: ["", "a", "b", "c", "d", "e", "f"].iter().map(|p| cell(p, k)).collect() }).collect(),
    }
}

pub fn gen(r: &mut Rng) -> InfiCase {
    let n = r.ur(1, 3) as usize;
    let (un, unit) = *r.pick(&UNITS);
    // sometimes past the first pieces the compressor hands out
    let rows = 2 + match r.below(4) {
        _ if r.chance(1, 200) => 66_000,
        0 => r.below(20),
        1 => r.below(400),
        2 => r.below(4000),
        _ => r.skew(15_000) as u64,
    };
    let sched = gen::gen_sched(r, 40, true);
    let inputs: Vec<Input> = (0..n)
        .map(|i| {
            let gz = r.chance(1, 2);
            Input {
                loc: Loc::Http(HttpOpt {
                    host: format!("h{}.test:8182", i),
                    framing: Framing::Chunked { sizes: vec![], ext: false, trailer: false },
                    http10: false,
                    keep_alive: r.chance(1, 2),
                    lower: r.chance(1, 2),
                    extra_headers: *r.pick(&[0, 1]),
                    redirects: vec![],
                    status: 200,
                    malformed: None,
                    cross: false,
                    looped: false,
                    chunk_eintr: false,
                }),
                route: Route::Name,
                files: vec![FileSpec {
                    stem: "infinite".into(),
                    table: sample(rows, unit),
                    enc: Enc::Csv(CsvEnc { header: false, ..Default::default() }),
                    cont: if gz { Container::Gz { members: vec![], level: 6, name: false, extra: 0, comment: false } } else { Container::Plain },
                    damage: vec![],
                    plan: gen::gen_plan(r, 50 * rows, true),
                }],
                list: None,
            }
        })
        .collect();
    let mut args: Vec<String> = ["--csv-in-ts-col", "0", "--csv-in-epoch", un].iter().map(|s| s.to_string()).collect();
    if r.chance(1, 2) {
        args.extend(["--csv-in-delimiter".to_string(), ",".into()]);
    }
    if r.chance(1, 2) {
        args.extend(["--csv-in-has-header".to_string(), "no".into()]);
    }
    let mut env = vec![];
    let csv_out = gen::gen_csv_out(r, &mut args, &mut env, gen::Zone::UTC, false, true);
    let mut case = CliCase {
        inputs,
        args,
        env,
        inputs_last: false,
        out: if r.chance(1, 2) { Some((*r.pick(&["o.csv", "o.dc"])).to_string()) } else { None },
        old_out: None,
        csv_out,
        begin: None,
        end: None,
        ts_col: Some(0),
        sched,
        faults: vec![],
        bad_row: None,
        unmodelled: false,
        lib: None,
    };
    let mut closed = None;
    if r.chance(1, 6) {
        let len = expected(&case).bytes.len() as u64;
        // what an output buffer holds back counts, too
        let at = r.below(len.max(1));
        closed = Some((at, if case.out.is_none() { libc::EPIPE } else { libc::ENOSPC }));
    } else {
        let (v, s, _) = gen::range_arg(r, (rows - 1) * unit, gen::Zone::UTC, false);
        // a bound the rows never get to would not stop the run
        let v = if v > (rows - 1) * unit { None } else { Some((v, s)) };
        let (v, s) = v.unwrap_or_else(|| ((rows - 1) * unit, crate::model::human((rows - 1) * unit, 0, "ns")));
        case.end = Some(v);
        case.args.extend(["-e".to_string(), s]);
        if r.chance(1, 4) {
            let (v, s, _) = gen::range_arg(r, r.clone().below(rows) * unit, gen::Zone::UTC, false);
            case.begin = Some(v);
            case.args.extend(["-b".to_string(), s]);
        }
    }
    let broken = if closed.is_none() && r.chance(1, 5) {
        let i = r.us(n);
        // (an early end of a chunked response of text is the known finding of C12)
        let errnos: &[i32] = if case.inputs[i].files[0].cont == Container::Plain { &[libc::ECONNRESET, libc::ETIMEDOUT] } else { &[0, libc::ECONNRESET, libc::ETIMEDOUT] };
        Some((i, r.skew(30_000) as u64, *r.pick(errnos)))
    } else {
        None
    };
    InfiCase { case, closed, broken }
}

pub fn eval(e: &InfiCase, cx: &mut Ctx) -> Verdict {
    let c = &e.case;
    if !available() {
        return Verdict::Inconclusive("util/infistream does not build".into());
    }
    let rows = c.inputs.iter().map(|i| i.files[0].table.rows.len()).min().unwrap_or(0);
    if rows == 0 || (e.closed.is_none() && c.end.map_or(true, |t| c.inputs.iter().any(|i| i.files[0].table.rows.last().map_or(true, |r| r.ts < t)))) {
        return Verdict::Inconclusive("would not end".into());
    }
    let mut full = c.clone();
    let mut run = c.clone();
    if let Some((offset, errno)) = e.closed {
        let path = c.out.as_ref().map(|o| format!("/w/{}", o)).unwrap_or("stdout".into());
        run.faults.push(Fault::WriteErr { path, offset, errno, once: false });
        let unit = c.inputs[0].files[0].table.rows.get(1).map_or(1, |r| r.ts.max(1));
        for i in &mut full.inputs {
            i.files[0].table = sample(rows as u64 + 4000, unit);
        }
    }
    if let Some((i, offset, errno)) = e.broken {
        if let Some(i) = c.inputs.get(i) {
            let path = i.key(0);
            run.faults.push(if errno == 0 { Fault::Eof { path, offset } } else { Fault::ReadErr { path, offset, errno, once: false } });
        }
    }
    for i in &c.inputs {
        cx.probe(if i.files[0].cont == Container::Plain { "endless stream" } else { "endless compressed stream" });
    }
    let gz: Vec<(String, bool)> = c.inputs.iter().map(|i| (i.key(0), i.files[0].cont != Container::Plain)).collect();
    let limit = full.inputs[0].files[0].table.rows.len() as u64 * 80 + 600_000;
    let prep = |w: &mut World| {
        for (key, gz) in &gz {
            for n in w.nodes.iter_mut().filter(|n| n.path == *key) {
                let head = n.chunked.map_or(0, |c| c.0);
                n.content.truncate(head as usize);
                let s = Mutex::new(real::open(*gz).unwrap());
                n.grow = Some(Grow { next: Arc::new(move |_| (s.lock().unwrap())()), index: 0, limit });
            }
        }
    };
    // the model has no use for the files the inputs stand for
    for i in &mut run.inputs {
        i.files[0].table.rows.truncate(1);
    }
    let (b, r) = cx.cli_with(&run, &prep);
    if r.exit == Exit::Budget {
        return bad("does-not-stop", format!("the stream is read on and on ({} bytes consumed)", r.consumed_total));
    }
    let v = exit_sane(&r);
    if v != Verdict::Ok {
        return v;
    }
    let ex = expected(if e.closed.is_some() { &full } else { c });
    let acc = [Accept::of(&ex)];
    let t = oracle::trace(&b, &r, &acc, true);
    if let Some(m) = t.not_prefix {
        return bad("not-a-prefix", m);
    }
    let hit = r.fired.iter().any(|n| *n > 0);
    if e.closed.is_some() {
        if !hit {
            return Verdict::Inconclusive("the output did not close".into());
        }
        return if r.failed_loudly() { Verdict::Ok } else { bad("success-despite-failure", format!("the run reported {:?}", r.exit)) };
    }
    // what breaks after the rows up to the bound have come may go unnoticed
    if hit && r.failed_loudly() {
        return Verdict::Ok;
    }
    if !r.ok() {
        return bad("unexpected-failure", format!("the run failed ({:?}): {}", r.exit, r.stderr().chars().take(400).collect::<String>()));
    }
    let fin = t.fin.unwrap_or_default();
    if !acc[0].equal(&fin) {
        return bad("wrong-output", format!("output is wrong: {}", first_diff(&fin, &ex.bytes)));
    }
    Verdict::Ok
}

pub fn shrink(e: &InfiCase) -> Vec<InfiCase> {
    let mut v = vec![];
    if e.broken.is_some() {
        v.push(InfiCase { broken: None, ..e.clone() });
    }
    for i in 0..e.case.inputs.len() {
        if e.case.inputs.len() > 1 {
            let mut d = e.clone();
            d.case.inputs.remove(i);
            d.broken = None;
            v.push(d);
        }
        let mut d = e.clone();
        if d.case.inputs[i].files[0].plan != Plan::default() {
            d.case.inputs[i].files[0].plan = Plan::default();
            v.push(d);
        }
    }
    // the options and the schedule only: the rows are what the server sends
    for c in shrink_cli(&e.case) {
        if c.inputs == e.case.inputs && c.end == e.case.end && c.ts_col == e.case.ts_col && c.args.iter().take(4).eq(e.case.args.iter().take(4)) {
            v.push(InfiCase { case: c, ..e.clone() });
        }
    }
    v
}
