//! Processing graphs: random chains of splits, merges, filters and nodes that drop, multiply, hold
//! back or change rows, driven by the real driver over the real header graph; what every sink sees
//! is compared with a reference evaluator.
use crate::gen;
use crate::model::{self, CsvOut, Row, Table, Ty, V};
use crate::oracle::{bad, exit_sane, first_diff, same_table, Verdict};
use crate::rng::Rng;
use crate::run::Exit;
use crate::runner::Ctx;
use crate::simos::{self, Fault, Node as OsNode, Plan, World};
use chopper::chopper::chopper::{ChopperDriver, DataSink, HeaderSink, MergeHeaderSink, Source};
use chopper::chopper::header_graph::{HeaderChain, HeaderCountTracker, HeaderGraph, HeaderNode};
use chopper::chopper::types as ct;
use chopper::driver::{driver::Driver, merge_join::MergeJoin, split::Split};
use chopper::error::{CliResult, Error};
use chopper::filter::{column_filter_delete_col::ColumnFilterDelete, row_filter_equal_value::RowFilterEqualValue, row_filter_greater_value::RowFilterGreaterValue};
use chopper::write::factory;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum N {
    /// records header, rows and flushes
    Tap(u32),
    /// changes a value of the first column
    Tag(i32),
    /// adds to the time
    Later(u64),
    /// appends a column
    Add(String, V),
    /// drops every row whose number is r modulo m
    DropMod(u32, u32),
    /// n copies, numbered in the first column
    Dup(u32),
    /// collects n rows, then passes all of them on
    Hold(u32),
    /// answers with rows of its own: one with fewer fields changed (the last column cleared)
    Clear,
    Del(String),
    Eq(String, V),
    Gt(String, V),
    Split(Vec<usize>),
    Merge(usize),
    MergeStart(usize),
    /// a merge of the user's own, whose sink works like the node
    UserMerge(usize, Box<N>),
    /// clears the column that bears exactly this name
    ClearNamed(String),
    /// gives a column another name
    Rename(usize, String),
    /// gives a column another type and clears its values
    Retype(usize, Ty),
    /// a real sink: file name
    File(String),
    ErrRow(u32),
    ErrFlush(u32),
    ErrHead,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Src {
    pub rows: Vec<Row>,
    /// names of its columns, if they differ from the common ones
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub names: Option<Vec<String>>,
    /// fails instead of delivering row n
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub err: Option<usize>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct GraphCase {
    pub names: Vec<String>,
    pub types: Vec<Ty>,
    pub sources: Vec<Src>,
    pub chains: Vec<Vec<N>>,
    pub begin: Option<u64>,
    pub end: Option<u64>,
    pub rand_seed: u64,
    #[serde(default, skip_serializing_if = "BTreeMap::is_empty")]
    pub plans: BTreeMap<String, Plan>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub faults: Vec<Fault>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Ev {
    Head(u32, Vec<String>, Vec<Ty>),
    Row(u32, Row),
    /// a sink was not given exactly one row
    Arity(u32, usize),
    Flush(u32),
    Err(String),
    Result(bool, String),
}
fn emit(e: &Ev) {
    simos::lib_event(&serde_json::to_vec(e).unwrap());
}

// ------------------------------------------------------------------ conversions

pub fn to_type(t: Ty) -> ct::FieldType {
    match t {
        Ty::Z => ct::FieldType::Boolean,
        Ty::B => ct::FieldType::Byte,
        Ty::Buf => ct::FieldType::ByteBuf,
        Ty::C => ct::FieldType::Char,
        Ty::D => ct::FieldType::Double,
        Ty::F => ct::FieldType::Float,
        Ty::I => ct::FieldType::Int,
        Ty::J => ct::FieldType::Long,
        Ty::S => ct::FieldType::Short,
        Ty::Str => ct::FieldType::String,
    }
}
fn from_type(t: ct::FieldType) -> Ty {
    match t {
        ct::FieldType::Boolean => Ty::Z,
        ct::FieldType::Byte => Ty::B,
        ct::FieldType::ByteBuf => Ty::Buf,
        ct::FieldType::Char => Ty::C,
        ct::FieldType::Double => Ty::D,
        ct::FieldType::Float => Ty::F,
        ct::FieldType::Int => Ty::I,
        ct::FieldType::Long => Ty::J,
        ct::FieldType::Short => Ty::S,
        ct::FieldType::String => Ty::Str,
    }
}
pub fn to_value(v: &V) -> ct::FieldValue {
    match v {
        V::N => ct::FieldValue::None,
        V::B(x) => ct::FieldValue::Byte(*x),
        V::C(x) => ct::FieldValue::Char(*x),
        V::D(x) => ct::FieldValue::Double(f64::from_bits(*x)),
        V::F(x) => ct::FieldValue::Float(f32::from_bits(*x)),
        V::I(x) => ct::FieldValue::Int(*x),
        V::J(x) => ct::FieldValue::Long(*x),
        V::S(x) => ct::FieldValue::Short(*x),
        V::T(_) | V::R(..) => ct::FieldValue::String(v.text().unwrap()),
    }
}
fn from_value(v: &ct::FieldValue) -> V {
    match v {
        ct::FieldValue::Byte(x) => V::B(*x),
        ct::FieldValue::Char(x) => V::C(*x),
        ct::FieldValue::Double(x) => V::D(x.to_bits()),
        ct::FieldValue::Float(x) => V::F(x.to_bits()),
        ct::FieldValue::Int(x) => V::I(*x),
        ct::FieldValue::Long(x) => V::J(*x),
        ct::FieldValue::Short(x) => V::S(*x),
        ct::FieldValue::String(x) => V::T(x.clone()),
        ct::FieldValue::None => V::N,
        ct::FieldValue::Boolean(_) | ct::FieldValue::ByteBuf(_) => V::T("unsupported".into()),
    }
}
fn to_row(r: &Row) -> ct::Row {
    ct::Row { timestamp: r.ts, field_values: r.v.iter().map(to_value).collect() }
}
fn from_row(r: &ct::Row) -> Row {
    Row { ts: r.timestamp, v: r.field_values.iter().map(from_value).collect() }
}

// ------------------------------------------------------------------ nodes plugged into the library

struct MemSource {
    header: ct::Header,
    rows: std::vec::IntoIter<ct::Row>,
    given: usize,
    err: Option<usize>,
}
impl Source for MemSource {
    fn header(&self) -> &ct::Header {
        &self.header
    }
    fn next_row(&mut self) -> CliResult<Option<ct::Row>> {
        if self.err == Some(self.given) {
            emit(&Ev::Err("injected: source".into()));
            return Err(Error::from("injected: source"));
        }
        self.given += 1;
        Ok(self.rows.next())
    }
}

struct Plug(N);
struct Data {
    n: N,
    count: u32,
    flushes: u32,
    held: Vec<ct::Row>,
    column: usize,
}
impl Data {
    fn new(n: N) -> Self {
        Data { n, count: 0, flushes: 0, held: vec![], column: 0 }
    }
}
struct OwnMerge {
    count: usize,
    header: Option<ct::Header>,
    n: N,
    data: Option<Box<dyn DataSink>>,
}
impl MergeHeaderSink for OwnMerge {
    fn check_header(&mut self, header: &ct::Header) -> CliResult<()> {
        if self.n == N::ErrHead {
            emit(&Ev::Err("injected: header".into()));
            return Err(Error::from("injected: header"));
        }
        match &self.header {
            Some(h) if h != header => Err(Error::from("columns differ")),
            Some(_) => Ok(()),
            None => {
                self.header = Some(header.clone());
                Ok(())
            }
        }
    }
    fn process_header(&mut self) -> ct::Header {
        let mut h = self.header.take().unwrap();
        self.data = Some(Box::new(Plug(self.n.clone())).process_header(&mut h).unwrap());
        h
    }
    fn get_data_sink(mut self: Box<Self>) -> CliResult<Box<dyn DataSink>> {
        Ok(self.data.take().unwrap())
    }
    fn get_new_header_count_tracker(&self) -> HeaderCountTracker {
        HeaderCountTracker { unprocessed_count: self.count }
    }
}
impl HeaderSink for Plug {
    fn process_header(self: Box<Self>, header: &mut ct::Header) -> CliResult<Box<dyn DataSink>> {
        let mut column = 0;
        match &self.0 {
            N::ClearNamed(name) => column = header.get_field_index(name)?,
            N::Tap(id) => emit(&Ev::Head(*id, header.field_names().clone(), header.field_types().iter().map(|t| from_type(*t)).collect())),
            N::Add(name, v) => {
                header.field_names_mut().push(name.clone());
                header.field_types_mut().push(to_type(type_of(v)));
            }
            N::Rename(k, name) => {
                // there are two ways to do it
                if name.len() % 2 == 0 {
                    let mut n = header.field_names().clone();
                    if let Some(x) = n.get_mut(*k) {
                        *x = name.clone();
                    }
                    header.update_field_names(n);
                } else if let Some(x) = header.field_names_mut().get_mut(*k) {
                    *x = name.clone();
                }
            }
            N::Retype(k, t) => {
                if *k % 2 == 0 {
                    let mut n = header.field_types().clone();
                    if let Some(x) = n.get_mut(*k) {
                        *x = to_type(*t);
                    }
                    header.update_field_types(n);
                } else if let Some(x) = header.field_types_mut().get_mut(*k) {
                    *x = to_type(*t);
                }
            }
            N::ErrHead => {
                emit(&Ev::Err("injected: header".into()));
                return Err(Error::from("injected: header"));
            }
            _ => {}
        }
        Ok(Box::new(Data { column, ..Data::new(self.0) }))
    }
}
impl DataSink for Data {
    fn write_row(&mut self, rows: &mut Vec<ct::Row>) -> CliResult<()> {
        self.count += 1;
        match &self.n {
            N::Tap(id) => {
                if rows.len() != 1 {
                    emit(&Ev::Arity(*id, rows.len()));
                }
                for r in rows.iter() {
                    emit(&Ev::Row(*id, from_row(r)));
                }
            }
            N::Tag(d) => {
                if let Some(ct::FieldValue::Int(x)) = rows[0].field_values.get_mut(0) {
                    *x = x.wrapping_add(*d);
                }
            }
            N::Later(d) => rows[0].timestamp += d,
            N::Add(_, v) => rows[0].field_values.push(to_value(v)),
            N::DropMod(m, k) => {
                if (self.count - 1) % m == *k {
                    rows.clear();
                }
            }
            N::Dup(n) => {
                let r = rows[0].clone();
                for i in 1..*n {
                    let mut x = r.clone();
                    if let Some(ct::FieldValue::Int(v)) = x.field_values.get_mut(0) {
                        *v = v.wrapping_add((i as i32) << 20);
                    }
                    rows.push(x);
                }
            }
            N::Hold(n) => {
                self.held.append(rows);
                if self.held.len() as u32 >= *n {
                    std::mem::swap(&mut self.held, rows);
                }
            }
            N::Clear => {
                let mut r = rows[0].clone();
                if let Some(l) = r.field_values.last_mut() {
                    *l = ct::FieldValue::None;
                }
                *rows = vec![r];
            }
            N::ClearNamed(_) => rows[0].field_values[self.column] = ct::FieldValue::None,
            N::Retype(k, _) => {
                if let Some(x) = rows[0].field_values.get_mut(*k) {
                    *x = ct::FieldValue::None;
                }
            }
            N::ErrRow(at) => {
                if self.count == *at {
                    emit(&Ev::Err("injected: row".into()));
                    return Err(Error::from("injected: row"));
                }
            }
            _ => {}
        }
        Ok(())
    }
    fn flush(&mut self) -> CliResult<()> {
        self.flushes += 1;
        match &self.n {
            N::Tap(id) => emit(&Ev::Flush(*id)),
            N::ErrFlush(at) => {
                if self.flushes == *at {
                    emit(&Ev::Err("injected: flush".into()));
                    return Err(Error::from("injected: flush"));
                }
            }
            _ => {}
        }
        Ok(())
    }
    fn boxed(self) -> Box<dyn DataSink> {
        Box::new(self)
    }
}

fn type_of(v: &V) -> Ty {
    match v {
        V::B(_) => Ty::B,
        V::C(_) => Ty::C,
        V::D(_) => Ty::D,
        V::F(_) => Ty::F,
        V::I(_) => Ty::I,
        V::J(_) => Ty::J,
        V::S(_) => Ty::S,
        _ => Ty::Str,
    }
}

fn drive(c: &GraphCase) -> CliResult<()> {
    let h = ct::Header::new(c.names.clone(), c.types.iter().map(|t| to_type(*t)).collect());
    let mut sources: Vec<Box<dyn Source>> = Vec::new();
    let mut headers = Vec::new();
    for s in &c.sources {
        let rows: Vec<ct::Row> = s.rows.iter().map(to_row).collect();
        let h = match &s.names {
            Some(n) => ct::Header::new(n.clone(), h.field_types().clone()),
            None => h.clone(),
        };
        sources.push(Box::new(MemSource { header: h.clone(), rows: rows.into_iter(), given: 0, err: s.err }));
        headers.push(h);
    }
    let mut chains = Vec::new();
    for ch in &c.chains {
        let mut nodes = Vec::new();
        for n in ch {
            nodes.push(match n {
                N::Del(name) => HeaderNode::HeaderSink(ColumnFilterDelete::new(name)),
                N::Eq(name, v) => HeaderNode::HeaderSink(RowFilterEqualValue::new(name, to_value(v))),
                N::Gt(name, v) => HeaderNode::HeaderSink(RowFilterGreaterValue::new(name, to_value(v))),
                N::File(f) => HeaderNode::HeaderSink(factory::new_header_sink(Some(f), None)?),
                N::Split(ids) => {
                    let s = Split::new(ids.clone());
                    let t = s.get_new_header_count_tracker();
                    HeaderNode::SplitHeaderSink(s, t)
                }
                N::MergeStart(k) => {
                    let m = MergeJoin::new(*k)?;
                    let t = m.get_new_header_count_tracker();
                    HeaderNode::MergeHeaderSink(m, t)
                }
                N::UserMerge(k, n) => {
                    let m = OwnMerge { count: *k, header: None, n: (**n).clone(), data: None };
                    let t = m.get_new_header_count_tracker();
                    HeaderNode::MergeHeaderSink(Box::new(m), t)
                }
                N::Merge(id) => HeaderNode::Merge(*id),
                n => HeaderNode::HeaderSink(Box::new(Plug(n.clone()))),
            });
        }
        chains.push(HeaderChain::new(nodes));
    }
    let range = ct::TimestampRange { begin: c.begin, end: c.end };
    Driver::new(sources, HeaderGraph::new(chains), range, headers)?.drive()
}

// ------------------------------------------------------------------ reference evaluator

/// what every sink gets without errors
#[derive(Default)]
struct Expected {
    heads: BTreeMap<u32, (Vec<String>, Vec<Ty>)>,
    rows: BTreeMap<u32, Vec<Row>>,
    files: BTreeMap<String, Table>,
    /// the graph does not fit together or a row cannot be handled: the run must fail
    fail: Option<String>,
}
struct Eval<'a> {
    c: &'a GraphCase,
    out: Expected,
    /// per node: rows seen, rows held
    count: BTreeMap<(usize, usize), u32>,
    held: BTreeMap<(usize, usize), Vec<Row>>,
    arrived: BTreeMap<usize, usize>,
    merged: BTreeMap<usize, Head>,
    /// position of the named column at each filter
    col: BTreeMap<(usize, usize), usize>,
    /// node visits so far, and how many are allowed
    work: u64,
    cap: u64,
}
type Head = (Vec<String>, Vec<Ty>);
impl<'a> Eval<'a> {
    fn head(&mut self, chain: usize, mut h: Head) {
        let Some(nodes) = self.c.chains.get(chain) else {
            self.out.fail = Some(format!("there is no chain {}", chain));
            return;
        };
        if let Some(N::MergeStart(k) | N::UserMerge(k, _)) = nodes.first() {
            if self.merged.entry(chain).or_insert_with(|| h.clone()) != &h {
                self.out.fail = Some(format!("the headers merged by chain {} differ", chain));
                return;
            }
            let a = self.arrived.entry(chain).or_default();
            *a += 1;
            if *a > *k {
                self.out.fail = Some(format!("chain {} merges more than the {} it is for", chain, k));
                return;
            }
            if a != k {
                return;
            }
        }
        for i in 0..self.c.chains[chain].len() {
            if self.out.fail.is_some() {
                return;
            }
            let node = match &self.c.chains[chain][i] {
                N::UserMerge(_, n) => &**n,
                n => n,
            };
            match node {
                N::ClearNamed(n) => {
                    let Some(k) = h.0.iter().position(|x| x == n) else {
                        self.out.fail = Some(format!("there is no column {}", n));
                        return;
                    };
                    self.col.insert((chain, i), k);
                }
                N::Tap(id) => {
                    self.out.heads.insert(*id, h.clone());
                    self.out.rows.insert(*id, vec![]);
                }
                N::Add(n, v) => {
                    h.0.push(n.clone());
                    h.1.push(type_of(v));
                }
                N::Del(n) | N::Eq(n, _) | N::Gt(n, _) => {
                    let Some(k) = h.0.iter().position(|x| x.eq_ignore_ascii_case(n)) else {
                        self.out.fail = Some(format!("there is no column {}", n));
                        return;
                    };
                    self.col.insert((chain, i), k);
                    if let N::Del(_) = &self.c.chains[chain][i] {
                        h.0.remove(k);
                        h.1.remove(k);
                    }
                }
                N::File(f) => {
                    self.out.files.insert(f.clone(), Table { names: h.0.clone(), types: h.1.clone(), rows: vec![] });
                }
                N::Split(ids) => {
                    if ids.is_empty() {
                        self.out.fail = Some("a split into nothing".into());
                        return;
                    }
                    for id in ids.clone() {
                        self.head(id, h.clone());
                        if self.out.fail.is_some() {
                            return;
                        }
                    }
                }
                N::Rename(k, n) => {
                    if let Some(x) = h.0.get_mut(*k) {
                        *x = n.clone();
                    }
                }
                N::Retype(k, t) => {
                    if let Some(x) = h.1.get_mut(*k) {
                        *x = *t;
                    }
                }
                N::Merge(id) => {
                    let id = *id;
                    if !matches!(self.c.chains.get(id).and_then(|c| c.first()), Some(N::MergeStart(_) | N::UserMerge(..))) {
                        self.out.fail = Some(format!("chain {} does not begin with a merge", id));
                        return;
                    }
                    self.head(id, h.clone());
                }
                _ => {}
            }
        }
    }
    /// one row enters node i of a chain
    fn row(&mut self, chain: usize, i: usize, mut r: Row) {
        let Some(n) = self.c.chains[chain].get(i) else { return };
        let n = match n {
            N::UserMerge(_, n) => &**n,
            n => n,
        };
        self.work += 1;
        if self.work > self.cap || self.out.fail.is_some() {
            return;
        }
        let key = (chain, i);
        let cnt = {
            let x = self.count.entry(key).or_default();
            *x += 1;
            *x
        };
        let mut outs: Vec<Row> = Vec::new();
        match n {
            N::Tap(id) => {
                self.out.rows.get_mut(id).unwrap().push(r.clone());
                outs.push(r);
            }
            N::File(f) => {
                self.out.files.get_mut(f).unwrap().rows.push(r.clone());
                outs.push(r);
            }
            N::Tag(d) => {
                if let Some(V::I(x)) = r.v.get_mut(0) {
                    *x = x.wrapping_add(*d);
                }
                outs.push(r);
            }
            N::Later(d) => {
                r.ts += d;
                outs.push(r);
            }
            N::Add(_, v) => {
                r.v.push(match v.text() {
                    Some(t) => V::T(t),
                    None => v.clone(),
                });
                outs.push(r);
            }
            N::DropMod(m, k) => {
                if (cnt - 1) % m != *k {
                    outs.push(r);
                }
            }
            N::Dup(k) => {
                for x in 0..*k {
                    let mut y = r.clone();
                    if x > 0 {
                        if let Some(V::I(v)) = y.v.get_mut(0) {
                            *v = v.wrapping_add((x as i32) << 20);
                        }
                    }
                    outs.push(y);
                }
            }
            N::Hold(k) => {
                let h = self.held.entry(key).or_default();
                h.push(r);
                if h.len() as u32 >= *k {
                    outs = std::mem::take(h);
                }
            }
            N::Clear => {
                if let Some(l) = r.v.last_mut() {
                    *l = V::N;
                }
                outs.push(r);
            }
            N::Del(_) => {
                r.v.remove(self.col[&key]);
                outs.push(r);
            }
            N::Eq(_, v) => {
                if v_eq(&r.v[self.col[&key]], v) {
                    outs.push(r);
                }
            }
            N::Gt(_, v) => {
                match v_gt(&r.v[self.col[&key]], v) {
                    Some(true) => outs.push(r),
                    Some(false) => {}
                    None => {
                        self.out.fail = Some("values that cannot be compared".into());
                        return;
                    }
                }
            }
            N::ClearNamed(_) => {
                r.v[self.col[&key]] = V::N;
                outs.push(r);
            }
            N::Retype(k, _) => {
                if let Some(x) = r.v.get_mut(*k) {
                    *x = V::N;
                }
                outs.push(r);
            }
            N::Split(ids) => {
                for id in ids.clone() {
                    self.row(id, 0, r.clone());
                }
                outs.push(r);
            }
            N::Merge(id) => {
                let id = *id;
                self.row(id, 0, r.clone());
                outs.push(r);
            }
            N::UserMerge(..) => unreachable!(),
            N::Rename(..) | N::MergeStart(_) | N::ErrRow(_) | N::ErrFlush(_) | N::ErrHead => outs.push(r),
        }
        for o in outs {
            self.row(chain, i + 1, o);
        }
    }
}
fn v_eq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::D(x), V::D(y)) => f64::from_bits(*x) == f64::from_bits(*y),
        (V::F(x), V::F(y)) => f32::from_bits(*x) == f32::from_bits(*y),
        _ => match (a.text(), b.text()) {
            (Some(x), Some(y)) => x == y,
            _ => a == b,
        },
    }
}
/// None: such values cannot be compared
fn v_gt(a: &V, b: &V) -> Option<bool> {
    Some(match (a, b) {
        (V::N, V::N) => false,
        (V::D(x), V::D(y)) => f64::from_bits(*x) > f64::from_bits(*y),
        (V::F(x), V::F(y)) => f32::from_bits(*x) > f32::from_bits(*y),
        (V::I(x), V::I(y)) => x > y,
        (V::J(x), V::J(y)) => x > y,
        (V::S(x), V::S(y)) => x > y,
        (V::B(x), V::B(y)) => x > y,
        (V::C(x), V::C(y)) => x > y,
        _ => match (a.text(), b.text()) {
            (Some(x), Some(y)) => x > y,
            _ => return None,
        },
    })
}
fn plain_rows(rows: &[Row]) -> Vec<Row> {
    rows.iter().map(|r| Row { ts: r.ts, v: r.v.iter().map(|v| v.text().map(V::T).unwrap_or(v.clone())).collect() }).collect()
}
fn evaluate(c: &GraphCase) -> Expected {
    evaluate_within(c, u64::MAX).unwrap()
}
fn evaluate_within(c: &GraphCase, cap: u64) -> Option<Expected> {
    let mut e = Eval { c, out: Expected::default(), count: BTreeMap::new(), held: BTreeMap::new(), arrived: BTreeMap::new(), merged: BTreeMap::new(), col: BTreeMap::new(), work: 0, cap };
    if c.chains.iter().flatten().any(|n| matches!(n, N::MergeStart(0))) {
        e.out.fail = Some("a merge of nothing".into());
    }
    if c.sources.len() > c.chains.len() {
        e.out.fail = Some("more sources than chains".into());
    }
    for i in 0..c.sources.len() {
        if e.out.fail.is_none() {
            e.head(i, (c.sources[i].names.clone().unwrap_or(c.names.clone()), c.types.clone()));
        }
    }
    for (i, ch) in c.chains.iter().enumerate() {
        if let (Some(N::MergeStart(k) | N::UserMerge(k, _)), Some(a)) = (ch.first(), e.arrived.get(&i)) {
            if a < k && e.out.fail.is_none() {
                e.out.fail = Some(format!("chain {} is to merge {} inputs and gets only {}", i, k, a));
            }
        }
    }
    if e.out.fail.is_some() {
        return Some(e.out);
    }
    let ins: Vec<Vec<Row>> = c.sources.iter().map(|s| model::in_range(&plain_rows(&s.rows), c.begin, c.end)).collect();
    for (i, r) in model::merge(&ins) {
        e.row(i, 0, r);
    }
    if e.work > cap {
        None
    } else {
        Some(e.out)
    }
}

// ------------------------------------------------------------------ one run

fn csv_default() -> CsvOut {
    CsvOut { delim: ",".into(), print_time: true, time_name: None, epoch: true, gran: "ns".into(), off_min: 0, zone: None }
}

pub fn eval(c: &GraphCase, cx: &mut Ctx) -> Verdict {
    let mk = || {
        let mut w = World { op_budget: 3_000_000, ..Default::default() };
        w.rand_seed = c.rand_seed;
        w.clock_start_ns = 1_600_000_000_000_000_000;
        w.faults = c.faults.clone();
        w.out_plans = c.plans.clone();
        w.nodes.push(OsNode::dir("/w", vec![]));
        w.nodes.push(OsNode::dir("/", vec![]));
        w
    };
    let run = || -> Box<dyn FnOnce() -> i32 + Send> {
        let c = c.clone();
        Box::new(move || {
            let r = drive(&c);
            emit(&match &r {
                Ok(()) => Ev::Result(true, String::new()),
                Err(e) => Ev::Result(false, e.to_string()),
            });
            r.is_err() as i32
        })
    };
    let r = cx.world(&mk, &["graph".to_string()], &run);
    for ch in &c.chains {
        for n in ch {
            cx.probe(match n {
                N::Tap(_) => "node:recorder",
                N::UserMerge(..) => "node:user merge",
                N::Tag(_) | N::Later(_) | N::Clear | N::ClearNamed(_) => "node:changes rows",
                N::Add(..) => "node:adds column",
                N::DropMod(..) => "node:drops rows",
                N::Dup(_) => "node:multiplies rows",
                N::Hold(_) => "node:holds rows back",
                N::Del(_) | N::Eq(..) | N::Gt(..) => "node:library filter",
                N::Split(_) => "node:split",
                N::Merge(_) | N::MergeStart(_) => "node:merge",
                N::Rename(..) | N::Retype(..) => "node:changes header",
                N::File(_) => "node:library file sink",
                N::ErrRow(_) => "error:row",
                N::ErrFlush(_) => "error:flush",
                N::ErrHead => "error:header",
            });
        }
    }
    if c.sources.iter().any(|s| s.err.is_some()) {
        cx.probe("error:source");
    }
    if c.sources.iter().any(|s| s.rows.is_empty()) {
        cx.probe("source without rows");
    }
    let v = exit_sane(&r);
    if v != Verdict::Ok {
        return v;
    }
    let mut heads: BTreeMap<u32, (Vec<String>, Vec<Ty>)> = BTreeMap::new();
    let mut rows: BTreeMap<u32, Vec<Row>> = BTreeMap::new();
    let mut flushed: BTreeMap<u32, bool> = BTreeMap::new();
    let mut injected: Option<String> = None;
    let mut result: Option<(bool, String)> = None;
    let mut after: Option<String> = None;
    let mut files: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut node_name: BTreeMap<usize, String> = BTreeMap::new();
    for rec in simos::journal_iter(&r.journal) {
        match rec.kind {
            simos::J_LIB => {}
            simos::J_CREATE => {
                let p = String::from_utf8_lossy(rec.data).into_owned();
                files.insert(p.clone(), vec![]);
                node_name.insert(rec.node, p);
                continue;
            }
            simos::J_TRUNC => {
                if let Some(f) = node_name.get(&rec.node).and_then(|n| files.get_mut(n)) {
                    f.resize(rec.a as usize, 0);
                }
                continue;
            }
            simos::J_WRITE => {
                if let Some(f) = node_name.get(&rec.node).and_then(|n| files.get_mut(n)) {
                    let off = rec.a as usize;
                    if f.len() < off + rec.data.len() {
                        f.resize(off + rec.data.len(), 0);
                    }
                    f[off..off + rec.data.len()].copy_from_slice(rec.data);
                }
                continue;
            }
            _ => continue,
        }
        let e: Ev = match serde_json::from_slice(rec.data) {
            Ok(e) => e,
            Err(_) => return Verdict::Inconclusive("unreadable event".into()),
        };
        match e {
            Ev::Head(id, n, t) => {
                if heads.insert(id, (n, t)).is_some() {
                    return bad("header-twice", format!("recorder {} was given a header more than once", id));
                }
            }
            Ev::Row(id, row) => {
                if injected.is_some() {
                    after.get_or_insert(format!("recorder {} was given a row after the error", id));
                }
                rows.entry(id).or_default().push(row);
                flushed.insert(id, false);
            }
            Ev::Arity(id, n) => return bad("not-one-row", format!("recorder {} was given {} rows in one call", id, n)),
            Ev::Flush(id) => {
                flushed.insert(id, true);
            }
            Ev::Err(m) => {
                if injected.is_some() {
                    after.get_or_insert("the failing node was used again after its error".into());
                }
                injected = Some(m)
            }
            Ev::Result(ok, m) => result = Some((ok, m)),
        }
    }
    let x = evaluate(c);
    let fired: Vec<&Fault> = c.faults.iter().zip(&r.fired).filter(|(_, n)| **n > 0).map(|(f, _)| f).collect();
    let failed = match (&result, r.exit) {
        (Some((true, _)), Exit::Code(0)) => false,
        (Some((false, _)), _) => true,
        (None, Exit::Code(c)) if c != 0 => true,
        (None, Exit::Signal(_)) => true,
        _ => return bad("no-result", format!("the run ended ({:?}) without a result", r.exit)),
    };
    if let Some(m) = &x.fail {
        cx.probe("graph or row that must be refused");
        if !failed {
            return bad("error-swallowed", format!("the run reported success although {}", m));
        }
    }
    if !failed {
        if let Some(m) = &injected {
            return bad("error-swallowed", format!("the error \"{}\" was not reported", m));
        }
        if let Some(f) = fired.first() {
            return bad("error-swallowed", format!("a sink's file could not be written ({:?}) but the run reported success", f));
        }
    } else if injected.is_none() && fired.is_empty() && x.fail.is_none() {
        return bad("unexpected-failure", format!("nothing went wrong, but the run failed ({:?} {:?}): {}", r.exit, result, r.stderr().chars().take(300).collect::<String>()));
    }
    if let (Some(m), Some((_, got))) = (&injected, &result) {
        if fired.is_empty() && !got.contains(m.as_str()) {
            return bad("wrong-error", format!("the run returned \"{}\" instead of the error \"{}\"", got, m));
        }
    }
    if let Some(m) = after {
        return bad("row-after-error", m);
    }
    for (id, h) in &heads {
        match x.heads.get(id) {
            Some(e) if e == h => {}
            e => return bad("wrong-header", format!("recorder {} was given header {:?}, expected {:?}", id, h, e)),
        }
    }
    for (id, got) in &rows {
        let empty = vec![];
        let e = x.rows.get(id).unwrap_or(&empty);
        if let Some(k) = (0..got.len()).find(|k| e.get(*k) != Some(&got[*k])) {
            return bad("wrong-rows", format!("recorder {}: row {} is {:?}, expected {:?}", id, k, got[k], e.get(k)));
        }
    }
    if !failed {
        for (id, h) in &x.heads {
            if !heads.contains_key(id) {
                return bad("wrong-header", format!("recorder {} was not given its header {:?}", id, h));
            }
            let n = rows.get(id).map_or(0, |r| r.len());
            if n != x.rows[id].len() {
                return bad("wrong-rows", format!("recorder {} was given {} rows, expected {}", id, n, x.rows[id].len()));
            }
            if flushed.get(id) != Some(&true) {
                return bad("not-flushed", format!("recorder {} was not flushed after its last row", id));
            }
        }
    }
    // the library's own sinks
    for (name, t) in &x.files {
        let dc = name.ends_with("dc");
        let want = model::render(t, dc, &csv_default());
        let got = files.get(name).cloned().unwrap_or_default();
        if got == want {
            continue;
        }
        if !failed {
            if dc && matches!(model::dc_decode(&got), Ok((d, _)) if same_table(&d, t)) {
                continue;
            }
            return bad("wrong-file", format!("{}: {}", name, first_diff(&got, &want)));
        }
        if !want.starts_with(&got) && !(dc && crate::oracle::dc_prefix(&got, t)) {
            return bad("not-a-prefix", format!("{}: {}", name, first_diff(&got, &want)));
        }
    }
    Verdict::Ok
}

// ------------------------------------------------------------------ generator

struct Build {
    chains: Vec<Vec<N>>,
    taps: u32,
    files: u32,
    adds: u32,
}

fn value_for(r: &mut Rng, t: Ty, pool: &[V]) -> V {
    let same: Vec<&V> = pool.iter().filter(|v| **v != V::N && type_of(v) == t).collect();
    if !same.is_empty() && r.chance(3, 4) {
        return (*r.pick(&same)).clone();
    }
    loop {
        let v = gen::gen_value(r, t, false);
        if v != V::N {
            return v;
        }
    }
}

pub fn gen(r: &mut Rng, errors: bool) -> GraphCase {
    let ncols = r.ur(1, 6);
    let mut types = vec![Ty::I];
    types.extend(gen::gen_types(r, ncols - 1));
    let names = gen::gen_names(r, ncols, false);
    let ns = if r.chance(1, 150) { r.ur(6, 40) } else { r.ur(1, 5) };
    let long = if ns <= 5 && r.chance(1, 2500) { *r.pick(&[3000usize, 9000, 66_500]) } else { 0 };
    let small = r.chance(1, 2);
    let mut sources = Vec::new();
    let mut pool: Vec<Vec<V>> = vec![vec![]; ncols];
    let mut id = 0;
    for _ in 0..ns {
        let n = if r.chance(1, 5) { 0 } else { r.skew(if small { 6 } else { 40 }) };
        let n = if long > 0 && sources.is_empty() { long } else { n };
        let ts = gen::gen_ts(r, n, 1_000_000_000_000_000_000, 1, u64::MAX / 4);
        let mut rows = Vec::new();
        for t in ts {
            let mut v = vec![V::I(id)];
            id += 1;
            for ty in &types[1..] {
                v.push(gen::gen_value(r, *ty, false));
            }
            for (k, x) in v.iter().enumerate() {
                if pool[k].len() < 20 {
                    pool[k].push(x.clone());
                }
            }
            rows.push(Row { ts: t, v });
        }
        sources.push(Src { rows, err: None, names: None });
    }
    let own_names = r.chance(1, 6);
    if own_names {
        for s in &mut sources {
            if r.chance(1, 2) {
                let mut n = names.clone();
                let k = r.us(n.len());
                n[k] = format!("other_{}", r.below(3));
                s.names = Some(n);
            }
        }
    }
    // (chain, header, still may be extended)
    let mut b = Build { chains: vec![vec![]; ns], taps: 0, files: 0, adds: 0 };
    let h0: Head = (names.clone(), types.clone());
    let mut open: Vec<(usize, Head)> = (0..ns).map(|i| (i, (sources[i].names.clone().unwrap_or(h0.0.clone()), h0.1.clone()))).collect();
    // a source's own chain may begin with a merge that other sources feed
    if ns >= 2 && !own_names && r.chance(1, 5) {
        let k = r.us(ns);
        let mut m = 1;
        b.chains[k].push(N::MergeStart(0));
        for j in 0..ns {
            if j != k && r.chance(1, 2) {
                if r.chance(1, 2) {
                    let n = tap(&mut b);
                    b.chains[j].push(n);
                }
                b.chains[j].push(N::Merge(k));
                m += 1;
            }
        }
        b.chains[k][0] = N::MergeStart(m);
    }
    let steps = r.ur(1, 14);
    for _ in 0..steps {
        let o = r.us(open.len());
        let (ch, h) = open[o].clone();
        match r.below(16) {
            0 | 1 if b.chains.len() < 24 => {
                let k = r.ur(1, 3);
                let mut ids = Vec::new();
                for _ in 0..k {
                    b.chains.push(vec![]);
                    ids.push(b.chains.len() - 1);
                    open.push((b.chains.len() - 1, h.clone()));
                }
                b.chains[ch].push(N::Split(ids));
            }
            2..=4 => {
                let same: Vec<usize> = (0..open.len()).filter(|i| open[*i].1 == h).collect();
                let mut pick: Vec<usize> = same.into_iter().filter(|_| r.chance(1, 2)).collect();
                if pick.is_empty() {
                    pick.push(o);
                }
                if r.chance(1, 10) {
                    // the same chain may feed a merge twice
                    pick.push(pick[0]);
                }
                let mut h = h;
                let mut start = N::MergeStart(pick.len());
                if r.chance(1, 4) {
                    let n = match r.below(5) {
                        0 => node(r, &mut b, &h, &pool, &names),
                        _ => tap(&mut b),
                    };
                    if matches!(n, N::Tap(_) | N::Tag(_) | N::Later(_) | N::Add(..) | N::DropMod(..) | N::Dup(_) | N::Hold(_) | N::Clear | N::ClearNamed(_)) {
                        start = N::UserMerge(pick.len(), Box::new(n.clone()));
                        if let N::Add(x, v) = &n {
                            h.0.push(x.clone());
                            h.1.push(type_of(v));
                        }
                    }
                }
                b.chains.push(vec![start]);
                let t = b.chains.len() - 1;
                for p in &pick {
                    b.chains[open[*p].0].push(N::Merge(t));
                }
                open.push((t, h));
            }
            _ => {
                let n = node(r, &mut b, &h, &pool, &names);
                let mut h = h;
                match &n {
                    N::Add(x, v) => {
                        h.0.push(x.clone());
                        h.1.push(type_of(v));
                    }
                    N::Del(x) => {
                        let k = h.0.iter().position(|y| y.eq_ignore_ascii_case(x)).unwrap();
                        h.0.remove(k);
                        h.1.remove(k);
                    }
                    _ => {}
                }
                b.chains[ch].push(n);
                open[o].1 = h;
            }
        }
    }
    for (ch, _) in &open {
        if b.chains[*ch].is_empty() || r.chance(3, 4) {
            let n = if r.chance(1, 8) { file(&mut b, r) } else { tap(&mut b) };
            b.chains[*ch].push(n);
        }
    }
    // chains other than the sources' may have any number
    let n = b.chains.len();
    let mut perm: Vec<usize> = (ns..n).collect();
    r.shuffle(&mut perm);
    let map = |i: usize| if i < ns { i } else { perm[i - ns] };
    let mut chains = vec![vec![]; n];
    for (i, ch) in b.chains.into_iter().enumerate() {
        chains[map(i)] = ch
            .into_iter()
            .map(|x| match x {
                N::Split(v) => N::Split(v.into_iter().map(map).collect()),
                N::Merge(k) => N::Merge(map(k)),
                x => x,
            })
            .collect();
    }
    let all: Vec<u64> = sources.iter().flat_map(|s| s.rows.iter().map(|x| x.ts)).collect();
    let mut bound = |r: &mut Rng| -> Option<u64> {
        if all.is_empty() || !r.chance(1, 6) {
            None
        } else {
            Some(*r.pick(&all) + r.below(3) - 1)
        }
    };
    let begin = bound(r);
    let end = bound(r);
    let mut c = GraphCase { names, types, sources, chains, begin, end, rand_seed: r.u64(), plans: BTreeMap::new(), faults: vec![] };
    // splits and copies multiply; keep the number of rows bounded
    while evaluate_within(&c, 6000).is_none() {
        for s in &mut c.sources {
            let n = s.rows.len();
            s.rows.truncate(n / 2);
        }
    }
    let files: Vec<String> = c.chains.iter().flatten().filter_map(|n| if let N::File(f) = n { Some(f.clone()) } else { None }).collect();
    for f in &files {
        if r.chance(1, 3) {
            c.plans.insert(f.clone(), gen::gen_plan(r, 2000, true));
        }
    }
    if r.chance(1, 12) {
        misfit(r, &mut c);
    }
    if errors {
        add_error(r, &mut c, &files);
    }
    c
}

/// make parts of the graph not fit together (most of the time)
fn misfit(r: &mut Rng, c: &mut GraphCase) {
    let find = |c: &GraphCase, f: &dyn Fn(&N) -> bool| -> Vec<(usize, usize)> {
        let mut v = Vec::new();
        for (i, ch) in c.chains.iter().enumerate() {
            for (k, n) in ch.iter().enumerate() {
                if f(n) {
                    v.push((i, k));
                }
            }
        }
        v
    };
    let merges = find(c, &|n| matches!(n, N::Merge(_)));
    let starts = find(c, &|n| matches!(n, N::MergeStart(_) | N::UserMerge(..)));
    let any = |r: &mut Rng, c: &GraphCase| {
        let ch = r.us(c.chains.len());
        let lo = matches!(c.chains[ch].first(), Some(N::MergeStart(_) | N::UserMerge(..))) as usize;
        (ch, r.ur(lo, c.chains[ch].len()))
    };
    let w = c.names.len() + 1;
    match r.below(12) {
        0..=3 if !merges.is_empty() => {
            let (i, k) = *r.pick(&merges);

            let x = r.us(w);
            let m = match r.below(5) {
                0 => N::Retype(x, *r.pick(&[Ty::I, Ty::J, Ty::D, Ty::Str, Ty::S])),
                1 => {
                    // names of columns are compared exactly
                    let s = c.names.get(x).cloned().unwrap_or_default();
                    N::Rename(x, if r.chance(1, 2) { s.to_uppercase() } else { s.to_lowercase() })
                }
                2 => N::Add("one_more".into(), V::I(1)),
                3 => match c.names.get(x) {
                    Some(s) => N::Del(s.clone()),
                    None => N::Rename(x, "other".into()),
                },
                _ => N::Rename(x, "other".into()),
            };
            c.chains[i].insert(k, m);
        }
        4 => {
            let (i, k) = any(r, c);
            let name = "no_such_column".to_string();
            c.chains[i].insert(
                k,
                match r.below(4) {
                    3 => N::ClearNamed(name),
                    0 => N::Del(name),
                    1 => N::Eq(name, V::I(1)),
                    _ => N::Gt(name, V::I(1)),
                },
            );
        }
        5 | 6 if !starts.is_empty() => {
            let (i, k) = *r.pick(&starts);
            let more = r.chance(1, 2);
            match &mut c.chains[i][k] {
                N::MergeStart(n) | N::UserMerge(n, _) if more => *n += 1,
                N::MergeStart(n) => *n -= 1,
                N::UserMerge(n, _) if *n > 1 => *n -= 1,
                _ => {}
            }
        }
        7 if !merges.is_empty() => {
            let (i, k) = *r.pick(&merges);
            let t = r.us(c.chains.len() + 2);
            c.chains[i][k] = N::Merge(t);
            // its former target must not wait for it
            for (a, b) in &starts {
                if let N::MergeStart(n) | N::UserMerge(n, _) = &mut c.chains[*a][*b] {
                    *n = 1;
                }
            }
        }
        8 if c.chains.len() <= 6 => {
            while c.sources.len() <= c.chains.len() {
                c.sources.push(Src { rows: vec![], err: None, names: None });
            }
        }
        9 => {
            let (i, k) = any(r, c);
            let t = c.chains.len() + 1 + r.us(3);
            c.chains[i].insert(k, N::Split(if r.chance(1, 3) { vec![] } else { vec![t] }));
        }
        _ => {
            let (i, k) = any(r, c);
            let x = r.us(w);
            c.chains[i].insert(k, N::Rename(x, "other".into()));
        }
    }
}

fn tap(b: &mut Build) -> N {
    b.taps += 1;
    N::Tap(b.taps)
}
fn file(b: &mut Build, r: &mut Rng) -> N {
    b.files += 1;
    N::File(format!("/w/o{}.{}", b.files, if r.chance(1, 2) { "csv" } else { "dc" }))
}

fn node(r: &mut Rng, b: &mut Build, h: &Head, pool: &[Vec<V>], names: &[String]) -> N {
    loop {
        return match r.below(20) {
            0..=4 => tap(b),
            5 => N::Tag(r.range(1, 1000) as i32),
            6 => N::Later(r.below(3)),
            7 => {
                b.adds += 1;
                let n = if r.chance(1, 6) { h.0.first().cloned().unwrap_or("again".into()) } else { format!("added_{}", b.adds) };
                let t = *r.pick(&[Ty::I, Ty::Str, Ty::D]);
                N::Add(n, value_for(r, t, &[]))
            }
            8 | 9 => {
                let m = r.range(1, 4) as u32;
                N::DropMod(m, r.below(m as u64) as u32)
            }
            10 | 11 => N::Dup(r.range(1, 4) as u32),
            12 => N::Hold(r.range(1, 4) as u32),
            13 if r.chance(1, 2) && !h.0.is_empty() => N::ClearNamed(r.pick(&h.0).clone()),
            13 => N::Clear,
            14 => {
                if h.0.len() < 2 {
                    continue;
                }
                let k = r.us(h.0.len());
                N::Del(case_mix(r, &h.0[k].clone()))
            }
            15 | 16 => {
                let k = r.us(h.0.len());
                if h.0.is_empty() {
                    continue;
                }
                let orig = names.iter().position(|n| *n == h.0[k]);
                let p: &[V] = orig.and_then(|o| pool.get(o)).map(|v| v.as_slice()).unwrap_or(&[]);
                let t = if r.chance(1, 12) { *r.pick(&[Ty::I, Ty::Str, Ty::D]) } else { h.1[k] };
                let t = if h.0.iter().position(|y| y.eq_ignore_ascii_case(&h.0[k])) == Some(k) { t } else { continue };
                N::Eq(case_mix(r, &h.0[k]), if r.chance(1, 15) { V::N } else { value_for(r, t, p) })
            }
            17 => {
                if h.0.is_empty() {
                    continue;
                }
                // comparing an empty value or one of another type is an error, so mostly the first column
                let k = if r.chance(2, 3) { 0 } else { r.us(h.0.len()) };
                if h.0.iter().position(|y| y.eq_ignore_ascii_case(&h.0[k])) != Some(k) {
                    continue;
                }
                let t = if r.chance(1, 20) { *r.pick(&[Ty::I, Ty::Str, Ty::D]) } else { h.1[k] };
                let orig = names.iter().position(|n| *n == h.0[k]);
                let p: &[V] = orig.and_then(|o| pool.get(o)).map(|v| v.as_slice()).unwrap_or(&[]);
                N::Gt(case_mix(r, &h.0[k]), if r.chance(1, 20) { V::N } else { value_for(r, t, p) })
            }
            18 => file(b, r),
            _ => tap(b),
        };
    }
}
fn case_mix(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_ascii_uppercase(),
        1 => s.to_ascii_lowercase(),
        _ => s.to_string(),
    }
}

fn add_error(r: &mut Rng, c: &mut GraphCase, files: &[String]) {
    let at = |r: &mut Rng, c: &mut GraphCase, n: N| {
        let ch = r.us(c.chains.len());
        let lo = matches!(c.chains[ch].first(), Some(N::MergeStart(_) | N::UserMerge(..))) as usize;
        if lo == 1 && r.chance(1, 3) {
            // errors of a user's merge
            if let N::UserMerge(_, x) = &mut c.chains[ch][0] {
                if matches!(**x, N::Clear | N::Tag(_) | N::Later(_)) {
                    **x = n;
                    return;
                }
            }
        }
        let k = r.ur(lo, c.chains[ch].len());
        c.chains[ch].insert(k, n);
    };
    match r.below(10) {
        0..=3 => {
            let i = r.us(c.sources.len());
            let n = c.sources[i].rows.len();
            c.sources[i].err = Some(if r.chance(1, 3) { n } else { r.us(n + 1) });
        }
        4..=6 => {
            let n = 1 + r.skew(40) as u32;
            at(r, c, N::ErrRow(n))
        }
        7 => {
            let n = r.range(1, 3) as u32;
            at(r, c, N::ErrFlush(n))
        }
        8 => at(r, c, N::ErrHead),
        _ => {
            if let Some(f) = files.first() {
                let f = if r.chance(1, 2) { f.clone() } else { r.pick(files).clone() };
                c.faults.push(if r.chance(1, 8) {
                    Fault::CreateErr { path: f, errno: libc::EACCES }
                } else {
                    Fault::WriteErr { path: f, offset: r.skew(3000) as u64, errno: *r.pick(&crate::scen_cli::WRITE_ERRNOS), once: false }
                });
            }
        }
    }
}

// ------------------------------------------------------------------ shrinking

pub fn shrink(c: &GraphCase) -> Vec<GraphCase> {
    let mut v = Vec::new();
    for i in 0..c.sources.len() {
        let n = c.sources[i].rows.len();
        if n > 0 {
            for (a, b) in [(0, n / 2), (n / 2, n), (0, n - 1), (1, n)] {
                if b - a < n {
                    let mut d = c.clone();
                    d.sources[i].rows = c.sources[i].rows[a..b].to_vec();
                    v.push(d);
                }
            }
        }
    }
    for i in 0..c.chains.len() {
        for k in 0..c.chains[i].len() {
            match &c.chains[i][k] {
                N::Split(_) | N::Merge(_) | N::MergeStart(_) | N::UserMerge(..) | N::Add(..) | N::Del(_) => continue,
                _ => {}
            }
            if c.chains[i].len() == 1 {
                continue;
            }
            let mut d = c.clone();
            d.chains[i].remove(k);
            v.push(d);
        }
    }
    if c.begin.is_some() || c.end.is_some() {
        let mut d = c.clone();
        d.begin = None;
        d.end = None;
        v.push(d);
    }
    if !c.plans.is_empty() {
        let mut d = c.clone();
        d.plans.clear();
        v.push(d);
    }
    if !c.faults.is_empty() {
        let mut d = c.clone();
        d.faults.clear();
        v.push(d);
    }
    v
}
