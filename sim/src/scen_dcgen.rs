//! The sample data generator (util/dcgen), compiled into the simulation.
use crate::case::{CliCase, Enc, FileSpec, Input, Loc, Old, Route, Sched};
use crate::codec::Container;
use crate::gen;
use crate::model::{self, CsvOut, DcEnc, Row, Table, Ty, V};
use crate::oracle::{self, bad, exit_sane, first_diff, same_table, Verdict};
use crate::rng::Rng;
use crate::run::Exit;
use crate::runner::Ctx;
use crate::simos::{self, DirEnt, Fault, Node, Plan, World};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[cfg(not(feature = "dcgen"))]
mod dcgen {
    pub fn run() -> bool {
        false
    }
}
#[cfg(feature = "dcgen")]
#[allow(dead_code, unused_imports, clippy::all)]
mod dcgen {
    include!(concat!(env!("OUT_DIR"), "/dcgen.rs"));
    pub fn run() -> bool {
        let code = std::process::Termination::report(main());
        format!("{:?}", code) == format!("{:?}", std::process::ExitCode::SUCCESS)
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct GenCase {
    pub out: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub old: Option<Old>,
    pub sched: Sched,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub faults: Vec<Fault>,
    /// faults were there when the first run was made, and a second run follows without them
    #[serde(default)]
    pub again: bool,
}

/// the published sample: 100 rows counting from 0, in every column
fn sample() -> Table {
    Table {
        names: ["a_double", "an_int", "an_int_timestamp", "a_string"].iter().map(|s| s.to_string()).collect(),
        types: vec![Ty::D, Ty::I, Ty::I, Ty::Str],
        rows: (0..100).map(|i| Row { ts: i, v: vec![V::D((i as f64).to_bits()), V::I(i as i32), V::I(i as i32), V::T(i.to_string())] }).collect(),
    }
}

fn run_once(c: &GenCase, cx: &mut Ctx, old: &Option<Vec<u8>>, faults: &[Fault]) -> (crate::run::RunResult, Option<Vec<u8>>) {
    let path = if c.out.starts_with('/') { c.out.clone() } else { format!("/w/{}", c.out) };
    let mk = || {
        let mut w = World { op_budget: 3_000_000, ..Default::default() };
        w.rand_seed = c.sched.rand_seed;
        w.clock_start_ns = c.sched.clock_start_ns;
        w.latency = c.sched.latency.clone();
        w.faults = faults.to_vec();
        w.out_plans = BTreeMap::from([(path.clone(), c.sched.out_plan.clone())]);
        let mut root = vec![];
        if let Some(o) = old {
            w.nodes.push(Node::file(&path, o.clone(), Plan::default()));
            root.push(DirEnt { name: c.out.clone(), is_dir: false });
        }
        w.nodes.push(Node::dir("/w", root));
        w.nodes.push(Node::dir("/", vec![]));
        w
    };
    let r = cx.world(&mk, &["dcgen".to_string(), c.out.clone()], &|| Box::new(|| if dcgen::run() { 0 } else { 1 }));
    // final content of the file
    let mut content: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
    let mut name: BTreeMap<String, usize> = BTreeMap::new();
    if let Some(o) = old {
        content.insert(0, o.clone());
        name.insert(path.clone(), 0);
    }
    for rec in simos::journal_iter(&r.journal) {
        match rec.kind {
            simos::J_CREATE => {
                name.insert(String::from_utf8_lossy(rec.data).into_owned(), rec.node);
                content.insert(rec.node, vec![]);
            }
            simos::J_TRUNC => content.entry(rec.node).or_default().resize(rec.a as usize, 0),
            simos::J_WRITE => {
                let f = content.entry(rec.node).or_default();
                let off = rec.a as usize;
                if f.len() < off + rec.data.len() {
                    f.resize(off + rec.data.len(), 0);
                }
                f[off..off + rec.data.len()].copy_from_slice(rec.data);
            }
            simos::J_UNLINK => name.retain(|_, v| *v != rec.node),
            simos::J_RENAME => {
                name.retain(|_, v| *v != rec.node);
                name.insert(String::from_utf8_lossy(rec.data).into_owned(), rec.node);
            }
            _ => {}
        }
    }
    let fin = name.get(&path).and_then(|n| content.get(n)).cloned();
    (r, fin)
}

pub fn available() -> bool {
    cfg!(feature = "dcgen")
}

pub fn eval(c: &GenCase, cx: &mut Ctx) -> Verdict {
    if !available() {
        return Verdict::Inconclusive("util/dcgen does not build".into());
    }
    let old = c.old.as_ref().map(|o| o.bytes());
    let (r, fin) = run_once(c, cx, &old, &c.faults);
    let v = judge(c, cx, &r, &fin, &c.faults);
    if v != Verdict::Ok || !c.again {
        return v;
    }
    let (r, fin) = run_once(c, cx, &fin, &[]);
    judge(c, cx, &r, &fin, &[])
}

fn judge(c: &GenCase, cx: &mut Ctx, r: &crate::run::RunResult, fin: &Option<Vec<u8>>, faults: &[Fault]) -> Verdict {
    let v = exit_sane(r);
    if v != Verdict::Ok {
        return v;
    }
    let fired: Vec<String> = faults.iter().zip(&r.fired).filter(|(_, n)| **n > 0).map(|(f, _)| format!("{:?}", f)).collect();
    if !r.ok() {
        if fired.is_empty() && r.exit != Exit::Crash {
            return bad("unexpected-failure", format!("nothing went wrong, but the generator failed ({:?}): {}", r.exit, r.stderr().chars().take(300).collect::<String>()));
        }
        return Verdict::Ok;
    }
    // a transient error may be survived, but never with an incomplete file
    let strict = faults.iter().zip(&r.fired).any(|(f, n)| *n > 0 && matches!(f, Fault::WriteErr { once: false, .. } | Fault::CreateErr { .. }));
    if strict {
        return bad("success-despite-failure", format!("{} but the generator reported success", fired.join(", ")));
    }
    let Some(bytes) = fin else { return bad("no-file", "success was reported but there is no file".into()) };
    let want = model::dc_encode(&sample(), &DcEnc { user: b"example".to_vec(), hints: vec![-1, -1, 0, -1], nameless: vec![], long_form: false }).0;
    match model::dc_decode(bytes) {
        Ok((t, _)) => {
            if !same_table(&t, &sample()) {
                return bad("wrong-file", format!("the file does not hold the sample data: {}", first_diff(bytes, &want)));
            }
        }
        Err(e) => return bad("wrong-file", format!("success was reported but the file cannot be decoded ({}): {}", e, first_diff(bytes, &want))),
    }
    if bytes != &want {
        cx.probe("another valid encoding of the sample");
    }
    // the tool itself reads it
    let f = FileSpec { stem: "sample".into(), table: sample(), enc: Enc::Raw(bytes.clone()), cont: Container::Plain, plan: Plan::default(), damage: vec![] };
    let mut d = CliCase {
        inputs: vec![Input { loc: Loc::Stdin, route: Route::Content, files: vec![f], list: None }],
        args: vec!["-E".into()],
        env: vec![],
        inputs_last: false,
        out: None,
        old_out: None,
        csv_out: CsvOut { delim: ",".into(), print_time: true, time_name: None, epoch: true, gran: "ns".into(), off_min: 0, zone: None },
        begin: None,
        end: None,
        ts_col: None,
        sched: Sched::default(),
        faults: vec![],
        bad_row: None,
        unmodelled: false,
        lib: None,
    };
    d.sched.rand_seed = c.sched.rand_seed;
    let (b, rr) = cx.cli(&d);
    let v = exit_sane(&rr);
    if v != Verdict::Ok {
        return v;
    }
    let out = oracle::final_output(&b, &rr).unwrap_or_default();
    let want = model::render(&sample(), false, &d.csv_out);
    if !rr.ok() || out != want {
        return bad("not-readable", format!("chopper reads the sample file differently ({:?}): {}", rr.exit, first_diff(&out, &want)));
    }
    Verdict::Ok
}

pub fn gen(r: &mut Rng) -> GenCase {
    let mut sched = gen::gen_sched(r, 80, false);
    if sched.out_plan.is_default() && r.chance(2, 3) {
        sched.out_plan = gen::gen_plan(r, 3500, true);
    }
    let len = 3500u64;
    let out = r.pick(&["sample.dc", "x", "/w/y.dc"]).to_string();
    let path = if out.starts_with('/') { out.clone() } else { format!("/w/{}", out) };
    let mut faults = vec![];
    match r.below(10) {
        0..=3 => {}
        4 => faults.push(Fault::CreateErr { path, errno: *r.pick(&[libc::EACCES, libc::ENOSPC, libc::EROFS]) }),
        5 => faults.push(Fault::Crash { op: r.range(1, 1200), torn: r.below(9) as u32 }),
        6 => faults.push(Fault::WriteErr { path, offset: r.below(len), errno: libc::EIO, once: true }),
        _ => faults.push(Fault::WriteErr { path, offset: if r.chance(1, 3) { r.below(130) } else { r.below(len + 100) }, errno: *r.pick(&crate::scen_cli::WRITE_ERRNOS), once: false }),
    }
    let old = match r.below(4) {
        0 => Some(Old::Fill(b'Q', 1 + r.skew(20_000) as u32)),
        _ => None,
    };
    let again = !faults.is_empty() && r.chance(1, 3);
    GenCase { out, old, sched, faults, again }
}

pub fn shrink(c: &GenCase) -> Vec<GenCase> {
    let mut v = vec![];
    let mut d = c.clone();
    d.old = None;
    v.push(d);
    let mut d = c.clone();
    d.sched.out_plan = Plan::default();
    v.push(d);
    let mut d = c.clone();
    d.sched.latency.clear();
    v.push(d);
    let mut d = c.clone();
    d.again = false;
    v.push(d);
    let mut d = c.clone();
    d.faults.clear();
    v.push(d);
    v
}
