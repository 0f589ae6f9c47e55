//! Cases: everything one simulated run depends on, as plain data. A case is generated from a seed,
//! can be written to a replay file, and rebuilt into a `World` plus command line.
use crate::codec::{self, Container};
use crate::model::{self, CsvEnc, CsvOut, DcEnc, Row, Table, Ty, V};
use crate::simos::{DirEnt, Fault, Node, Plan, World};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Enc {
    Csv(CsvEnc),
    Dc(DcEnc),
    /// the format of a user-supplied source factory
    User(crate::usrc::UserEnc),
    /// arbitrary bytes (no model; only compared between runs)
    Raw(Vec<u8>),
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Route {
    /// format recognised from the file name
    Name,
    /// format given by the user
    User,
    /// format detected from content
    Content,
    /// compression from the name, format from content
    NameThenContent,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Damage {
    /// keep only the first n bytes
    Cut(u64),
    Flip(u64, u8),
    /// overwrite bytes
    Set(u64, Vec<u8>),
    Drop(u64, u64),
    Insert(u64, Vec<u8>),
    /// repeat a range
    Dup(u64, u64),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct FileSpec {
    /// name without extensions
    pub stem: String,
    pub table: Table,
    pub enc: Enc,
    pub cont: Container,
    #[serde(default, skip_serializing_if = "Plan::is_default")]
    pub plan: Plan,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub damage: Vec<Damage>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Framing {
    Length,
    Chunked { sizes: Vec<u32>, ext: bool, trailer: bool },
    Close,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct HttpOpt {
    pub host: String,
    pub framing: Framing,
    pub http10: bool,
    pub keep_alive: bool,
    pub lower: bool,
    pub extra_headers: u16,
    /// (status, absolute location)
    pub redirects: Vec<(u16, bool)>,
    pub status: u16,
    /// raw bytes replacing the head of the response
    #[serde(default)]
    pub malformed: Option<Vec<u8>>,
    /// redirects lead to other hosts
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub cross: bool,
    /// the last redirect leads back to the beginning
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub looped: bool,
    /// reading the body of a chunked response is interrupted, too
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub chunk_eintr: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Loc {
    File,
    Stdin,
    Http(HttpOpt),
    /// listing order (indices into files, then into subdirs), sub-directory names
    Dir { path: String, order: Vec<usize>, subdirs: Vec<String> },
    /// served by a user-supplied transport
    Custom,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Input {
    pub loc: Loc,
    pub route: Route,
    pub files: Vec<FileSpec>,
    /// the files of a directory are named one by one by a program using the library
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub list: Option<List>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum List {
    /// columns as in the first file
    Files,
    /// the program asks for these columns of the first file, in this order
    Cols(Vec<usize>),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Old {
    Bytes(Vec<u8>),
    Fill(u8, u32),
}
impl Old {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Old::Bytes(b) => b.clone(),
            Old::Fill(b, n) => vec![*b; *n as usize],
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Sched {
    pub rand_seed: u64,
    pub clock_start_ns: u64,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub latency: Vec<u64>,
    #[serde(default, skip_serializing_if = "Plan::is_default")]
    pub out_plan: Plan,
    #[serde(default, skip_serializing_if = "Plan::is_default")]
    pub send_plan: Plan,
    pub connect_async: bool,
    pub dtype_unknown: bool,
    /// inputs that are symbolic links: chosen per path by this number (0 = none)
    #[serde(default, skip_serializing_if = "is_zero")]
    pub links: u64,
}
fn is_zero(n: &u64) -> bool {
    *n == 0
}
impl Default for Sched {
    fn default() -> Self {
        Sched {
            rand_seed: 1,
            clock_start_ns: 1_600_000_000_000_000_000,
            latency: vec![],
            out_plan: Plan::default(),
            send_plan: Plan::default(),
            connect_async: false,
            dtype_unknown: false,
            links: 0,
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct CliCase {
    pub inputs: Vec<Input>,
    /// options other than inputs, output and -f
    pub args: Vec<String>,
    #[serde(default)]
    pub env: Vec<(String, String)>,
    /// put the inputs after the options
    #[serde(default)]
    pub inputs_last: bool,
    /// output path (None = standard output)
    pub out: Option<String>,
    #[serde(default)]
    pub old_out: Option<Old>,
    pub csv_out: CsvOut,
    pub begin: Option<u64>,
    pub end: Option<u64>,
    /// index of the column whose text is the time (text inputs)
    #[serde(default)]
    pub ts_col: Option<usize>,
    #[serde(default)]
    pub sched: Sched,
    #[serde(default)]
    pub faults: Vec<Fault>,
    /// (input, file, row) of a record that cannot be represented
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub bad_row: Option<(usize, usize, usize)>,
    /// what the tool makes of the inputs is up to its guesses; only runs are compared
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub unmodelled: bool,
    /// the job is done by a program written against the library instead of the command line tool
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub lib: Option<crate::libmain::Lib>,
}

pub const OUT_DIR: &str = "/w";

impl Enc {
    pub fn ext(&self) -> &'static str {
        match self {
            Enc::Dc(_) => ".dc",
            Enc::User(e) if e.like_csv => ".u.csv",
            Enc::User(_) => ".utab",
            _ => ".csv",
        }
    }
}

impl FileSpec {
    pub fn plain(&self) -> (Vec<u8>, Vec<u64>) {
        match &self.enc {
            Enc::Csv(e) => model::csv_encode(&self.table, e),
            Enc::Dc(e) => model::dc_encode(&self.table, e),
            Enc::User(e) => (crate::usrc::encode(&self.table, e), vec![]),
            Enc::Raw(b) => (b.clone(), vec![]),
        }
    }
    pub fn inner_ext(&self) -> &'static str {
        self.enc.ext()
    }
    pub fn file_name(&self, route: Route) -> String {
        match route {
            Route::Name => format!("{}{}{}", self.stem, self.inner_ext(), self.cont.ext()),
            Route::NameThenContent => format!("{}.dat{}", self.stem, self.cont.ext()),
            Route::User | Route::Content => format!("{}.dat", self.stem),
        }
    }
    pub fn fmt_arg(&self) -> String {
        match self.cont {
            // the archive is recognised from its magic number; what is inside is what the format names
            Container::Zip { .. } => self.inner_ext()[1..].to_string(),
            _ => format!("{}{}", &self.inner_ext()[1..], self.cont.ext()),
        }
    }
    /// stored bytes before damage, offsets where a cut leaves a complete shorter file
    pub fn encoded(&self) -> (Vec<u8>, Vec<u64>) {
        let (plain, bounds) = self.plain();
        match &self.cont {
            Container::Plain => (plain, bounds),
            Container::ZstFixture { .. } => {
                let e = codec::encode(&self.cont, &[]);
                (e.bytes, e.clean_cuts)
            }
            c => {
                let e = codec::encode(c, &plain);
                (e.bytes, e.clean_cuts)
            }
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let (mut b, _) = self.encoded();
        for d in &self.damage {
            apply_damage(&mut b, d);
        }
        b
    }
    /// the table chopper sees in this file
    pub fn seen(&self) -> Table {
        match &self.enc {
            Enc::Csv(e) => model::csv_seen(&self.table, e.header),
            Enc::Dc(e) => {
                let mut t = self.table.clone();
                for i in &e.nameless {
                    if *i < t.names.len() {
                        t.names[*i] = format!("col_{}", i);
                    }
                }
                t
            }
            Enc::User(_) => self.table.clone(),
            Enc::Raw(_) => Table::default(),
        }
    }
}

pub fn apply_damage(b: &mut Vec<u8>, d: &Damage) {
    let n = b.len();
    match d {
        Damage::Cut(k) => b.truncate(*k as usize),
        Damage::Flip(o, m) => {
            if (*o as usize) < n {
                b[*o as usize] ^= m
            }
        }
        Damage::Set(o, v) => {
            for (i, x) in v.iter().enumerate() {
                if *o as usize + i < n {
                    b[*o as usize + i] = *x;
                }
            }
        }
        Damage::Drop(o, k) => {
            let s = (*o as usize).min(n);
            let e = (s + *k as usize).min(n);
            b.drain(s..e);
        }
        Damage::Insert(o, v) => {
            let s = (*o as usize).min(n);
            b.splice(s..s, v.iter().copied());
        }
        Damage::Dup(o, k) => {
            let s = (*o as usize).min(n);
            let e = (s + *k as usize).min(n);
            let c = b[s..e].to_vec();
            b.splice(e..e, c);
        }
    }
}

impl Input {
    pub fn path(&self) -> String {
        match &self.loc {
            Loc::File => self.files[0].file_name(self.route),
            Loc::Stdin => "-".into(),
            Loc::Http(h) => format!("http://{}/{}", h.host, self.files[0].file_name(self.route)),
            Loc::Dir { path, .. } => path.clone(),
            Loc::Custom => format!("mem:{}", self.files[0].file_name(self.route)),
        }
    }
    /// key of the stream of file `i` in faults
    pub fn key(&self, i: usize) -> String {
        match &self.loc {
            Loc::File => format!("/w/{}", self.path()),
            Loc::Stdin => "stdin".into(),
            Loc::Http(h) => format!("http:{}/{}", h.host, self.files[0].file_name(self.route)),
            Loc::Dir { path, .. } => format!("/w/{}/{}", path, self.files[i].file_name(self.route)),
            Loc::Custom => self.path(),
        }
    }
    /// files in name order
    pub fn in_order(&self) -> Vec<usize> {
        let mut idx: Vec<usize> = (0..self.files.len()).collect();
        idx.sort_by(|a, b| self.files[*a].file_name(self.route).as_bytes().cmp(self.files[*b].file_name(self.route).as_bytes()));
        idx
    }
    /// position (in name order) of the first file of a directory that lacks a column of the first one
    /// or has it with another type
    pub fn header_problem(&self) -> Option<usize> {
        if !matches!(self.loc, Loc::Dir { .. }) {
            return None;
        }
        let idx = self.in_order();
        let first = self.wanted(self.files.get(*idx.first()?)?.seen());
        idx.iter().position(|i| {
            let t = self.files[*i].seen();
            first.names.iter().zip(&first.types).any(|(n, ty)| t.names.iter().position(|m| m == n).map_or(true, |k| t.types[k] != *ty))
        })
    }
    /// the columns the caller asks for
    fn wanted(&self, t: Table) -> Table {
        match &self.list {
            Some(List::Cols(c)) => {
                let c: Vec<usize> = c.iter().copied().filter(|i| *i < t.names.len()).collect();
                Table { names: c.iter().map(|i| t.names[*i].clone()).collect(), types: c.iter().map(|i| t.types[*i]).collect(), rows: t.rows }
            }
            _ => t,
        }
    }
    pub fn seen(&self) -> Table {
        if !matches!(self.loc, Loc::Dir { .. }) {
            return self.files[0].seen();
        }
        let idx = self.in_order();
        let mut out = Table::default();
        for (k, i) in idx.iter().enumerate() {
            let t = self.files[*i].seen();
            if k == 0 {
                out = self.wanted(t.clone());
                if !matches!(self.list, Some(List::Cols(_))) {
                    continue;
                }
                out.rows.clear();
            }
            let map: Vec<Option<usize>> = out.names.iter().map(|n| t.names.iter().position(|m| m == n)).collect();
            for r in &t.rows {
                out.rows.push(Row { ts: r.ts, v: map.iter().map(|m| m.and_then(|m| r.v.get(m).cloned()).unwrap_or(V::N)).collect() });
            }
        }
        out
    }
}

pub fn http_response(h: &HttpOpt, body: &[u8]) -> (Vec<u8>, u64) {
    let mut o = Vec::new();
    let name = |s: &str| if h.lower { s.to_lowercase() } else { s.to_string() };
    let reason = match h.status {
        200 => "OK",
        204 => "No Content",
        301 => "Moved Permanently",
        304 => "Not Modified",
        404 => "Not Found",
        500 => "Internal Server Error",
        _ => "Whatever",
    };
    o.extend_from_slice(format!("HTTP/1.{} {} {}\r\n", if h.http10 { 0 } else { 1 }, h.status, reason).as_bytes());
    o.extend_from_slice(format!("{}: application/octet-stream\r\n", name("Content-Type")).as_bytes());
    for i in 0..h.extra_headers {
        o.extend_from_slice(format!("{}{}: {}\r\n", name("X-Extra-"), i, "v".repeat(i as usize % 300)).as_bytes());
    }
    match &h.framing {
        Framing::Length => o.extend_from_slice(format!("{}: {}\r\n", name("Content-Length"), body.len()).as_bytes()),
        Framing::Chunked { .. } => o.extend_from_slice(format!("{}: chunked\r\n", name("Transfer-Encoding")).as_bytes()),
        Framing::Close => {}
    }
    if !h.keep_alive {
        o.extend_from_slice(format!("{}: close\r\n", name("Connection")).as_bytes());
    } else if h.http10 {
        o.extend_from_slice(format!("{}: keep-alive\r\n", name("Connection")).as_bytes());
    }
    o.extend_from_slice(b"\r\n");
    let head = o.len() as u64;
    match &h.framing {
        Framing::Chunked { sizes, ext, trailer } => {
            let mut p = 0;
            let mut i = 0;
            while p < body.len() {
                let s = (if sizes.is_empty() { body.len() } else { sizes[i % sizes.len()].max(1) as usize }).min(body.len() - p);
                i += 1;
                if i % 2 == 0 {
                    o.extend_from_slice(format!("{:X}", s).as_bytes());
                } else {
                    o.extend_from_slice(format!("{:x}", s).as_bytes());
                }
                if *ext {
                    o.extend_from_slice(b";name=value");
                }
                o.extend_from_slice(b"\r\n");
                o.extend_from_slice(&body[p..p + s]);
                o.extend_from_slice(b"\r\n");
                p += s;
            }
            o.extend_from_slice(b"0\r\n");
            if *trailer {
                o.extend_from_slice(b"X-Trailer: 1\r\n");
            }
            o.extend_from_slice(b"\r\n");
        }
        _ => o.extend_from_slice(body),
    }
    if let Some(m) = &h.malformed {
        let mut n = m.clone();
        n.extend_from_slice(body);
        let hl = m.len() as u64;
        return (n, hl);
    }
    (o, head)
}

pub struct Built {
    pub world: World,
    pub args: Vec<String>,
    pub env: Vec<(String, Option<String>)>,
    /// node index of an existing output file
    pub out_path: Option<String>,
    /// initial nodes (before the run)
    pub n_nodes: usize,
    pub old: Option<Vec<u8>>,
    pub old_node: Option<usize>,
    pub has_custom: bool,
}

pub fn build(c: &CliCase) -> Built {
    let mut w = World { op_budget: 3_000_000, ..Default::default() };
    let mut root: Vec<DirEnt> = Vec::new();
    w.rand_seed = c.sched.rand_seed;
    w.clock_start_ns = c.sched.clock_start_ns;
    w.latency = c.sched.latency.clone();
    w.send_plan = c.sched.send_plan.clone();
    w.connect_async = c.sched.connect_async;
    w.dtype_unknown = c.sched.dtype_unknown;
    w.faults = c.faults.clone();
    let mut has_custom = false;
    let mut paths = Vec::new();
    let mut fmts: Vec<String> = Vec::new();
    let mut any_user = false;
    for inp in &c.inputs {
        match &inp.loc {
            Loc::File => {
                w.nodes.push(Node::file(&inp.key(0), inp.files[0].bytes(), inp.files[0].plan.clone()));
                root.push(DirEnt { name: inp.path(), is_dir: false });
                paths.push(inp.path());
            }
            Loc::Stdin => {
                w.nodes.push(Node::file("/dev/stdin-stream", inp.files[0].bytes(), inp.files[0].plan.clone()));
                w.stdin = Some(w.nodes.len() - 1);
            }
            Loc::Http(h) => {
                let body = inp.files[0].bytes();
                let (resp, head) = http_response(h, &body);
                let mut node = Node::file(&inp.key(0), resp, inp.files[0].plan.clone());
                node.keep_alive = h.keep_alive;
                if matches!(h.framing, Framing::Chunked { .. }) {
                    node.chunked = Some((head, h.chunk_eintr));
                }
                w.nodes.push(node);
                let last = w.nodes.len() - 1;
                let hn = h.host.split(':').next().unwrap().to_string();
                if !w.hosts.contains(&hn) {
                    w.hosts.push(hn);
                }
                let file = inp.files[0].file_name(inp.route);
                let mut url = format!("http://{}/{}", h.host, file);
                for (k, (st, abs)) in h.redirects.iter().enumerate() {
                    let next_path = format!("/r{}/{}", k + 1, file);
                    let host = if h.cross {
                        let n = format!("x{}-{}", k + 1, h.host);
                        w.hosts.push(n.split(':').next().unwrap().to_string());
                        n
                    } else {
                        h.host.clone()
                    };
                    let next = format!("http://{}{}", host, next_path);
                    let abs = &(*abs || h.cross);
                    let (next, next_path) = if h.looped && k + 1 == h.redirects.len() { (format!("http://{}/{}", h.host, file), format!("/{}", file)) } else { (next, next_path) };
                    let head = format!(
                        "HTTP/1.1 {} Moved\r\nLocation: {}\r\nContent-Length: 0\r\nConnection: close\r\n\r\n",
                        st,
                        if *abs { next.clone() } else { next_path }
                    );
                    w.nodes.push(Node::file(&format!("redirect:{}", url), head.into_bytes(), inp.files[0].plan.clone()));
                    let rn = w.nodes.len() - 1;
                    w.urls.insert(url, rn);
                    url = next;
                }
                if !h.looped || h.redirects.is_empty() {
                    w.urls.insert(url, last);
                }
                paths.push(inp.path());
            }
            Loc::Dir { path, order, subdirs } => {
                let mut ents: Vec<DirEnt> = Vec::new();
                for i in order {
                    if *i < inp.files.len() {
                        ents.push(DirEnt { name: inp.files[*i].file_name(inp.route), is_dir: false });
                    } else if *i - inp.files.len() < subdirs.len() {
                        ents.push(DirEnt { name: subdirs[*i - inp.files.len()].clone(), is_dir: true });
                    }
                }
                w.nodes.push(Node::dir(&format!("/w/{}", path), ents));
                for s in subdirs {
                    w.nodes.push(Node::dir(&format!("/w/{}/{}", path, s), vec![]));
                }
                for (i, f) in inp.files.iter().enumerate() {
                    w.nodes.push(Node::file(&inp.key(i), f.bytes(), f.plan.clone()));
                }
                root.push(DirEnt { name: path.clone(), is_dir: true });
                paths.push(path.clone());
            }
            Loc::Custom => {
                has_custom = true;
                w.nodes.push(Node::file(&inp.key(0), inp.files[0].bytes(), inp.files[0].plan.clone()));
                paths.push(inp.path());
            }
        }
        match inp.route {
            Route::User => {
                any_user = true;
                fmts.push(inp.files[0].fmt_arg());
            }
            _ => fmts.push("auto".into()),
        }
    }
    let out_path = c.out.as_ref().map(|o| if o.starts_with('/') { o.clone() } else { format!("/w/{}", o) });
    let old = c.old_out.as_ref().map(|o| o.bytes());
    let mut old_node = None;
    if let (Some(p), Some(o)) = (&out_path, &old) {
        w.nodes.push(Node::file(p, o.clone(), Plan::default()));
        old_node = Some(w.nodes.len() - 1);
        root.push(DirEnt { name: c.out.clone().unwrap(), is_dir: false });
    }
    w.nodes.push(Node::dir("/w", root));
    if c.sched.links != 0 {
        let l = w.nodes.iter().filter(|n| n.path.starts_with("/w/") && crate::rng::hash_bytes(c.sched.links, n.path.as_bytes()) & 16 != 0).map(|n| n.path.clone()).collect();
        w.links = l;
    }
    w.nodes.push(Node::dir("/", vec![]));
    let mut plans = BTreeMap::new();
    if !c.sched.out_plan.is_default() {
        plans.insert(out_path.clone().unwrap_or("stdout".into()), c.sched.out_plan.clone());
    }
    w.out_plans = plans;
    let mut args = vec!["chopper".to_string()];
    // standard input is used when no input is named
    if !c.inputs_last {
        args.extend(paths.iter().cloned());
    }
    args.extend(c.args.iter().cloned());
    if any_user {
        while fmts.len() > 1 && fmts[fmts.len() - 1] == fmts[fmts.len() - 2] {
            fmts.pop();
        }
        args.push("-f".into());
        args.push(fmts.join(","));
    }
    if let Some(o) = &c.out {
        args.push("-o".into());
        args.push(o.clone());
    }
    if c.inputs_last && !paths.is_empty() {
        args.push("--".into());
        args.extend(paths.iter().cloned());
    }
    let mut env: Vec<(String, Option<String>)> = vec![("CHOPPER_TZ".into(), None), ("RUST_BACKTRACE".into(), None), ("TZ".into(), None), ("http_proxy".into(), None)];
    for (k, v) in &c.env {
        env.push((k.clone(), Some(v.clone())));
    }
    let n_nodes = w.nodes.len();
    Built { world: w, args, env, out_path, n_nodes, old, old_node, has_custom }
}

pub struct Expect {
    pub table: Table,
    /// input of each row
    pub src: Vec<usize>,
    pub bytes: Vec<u8>,
    pub dc: bool,
}

pub fn out_is_dc(c: &CliCase) -> bool {
    c.out.as_ref().map_or(false, |o| o.ends_with("dc"))
}

pub fn expected_from(c: &CliCase, seen: &[Table]) -> Expect {
    let ins: Vec<Vec<Row>> = seen.iter().map(|t| model::in_range(&t.rows, c.begin, c.end)).collect();
    let m = model::merge(&ins);
    let table = Table {
        names: seen[0].names.clone(),
        types: seen[0].types.clone(),
        rows: m.iter().map(|x| x.1.clone()).collect(),
    };
    let dc = out_is_dc(c);
    let bytes = model::render(&table, dc, &c.csv_out);
    Expect { src: m.iter().map(|x| x.0).collect(), table, bytes, dc }
}

pub fn expected(c: &CliCase) -> Expect {
    let seen: Vec<Table> = c.inputs.iter().map(|i| i.seen()).collect();
    expected_from(c, &seen)
}

pub fn v_ty(v: &V) -> Option<Ty> {
    Some(match v {
        V::N => return None,
        V::B(_) => Ty::B,
        V::C(_) => Ty::C,
        V::D(_) => Ty::D,
        V::F(_) => Ty::F,
        V::I(_) => Ty::I,
        V::J(_) => Ty::J,
        V::S(_) => Ty::S,
        V::T(_) | V::R(..) => Ty::Str,
    })
}
