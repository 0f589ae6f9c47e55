//! The executable reference model: tables, their text and binary encodings, k-way merging,
//! time ranges and rendering. Written independently of chopper (own calendar, own encoders);
//! only the shortest float rendering (`dtoa`) is shared, because it is not a property here.
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty {
    Z,
    B,
    Buf,
    C,
    D,
    F,
    I,
    J,
    S,
    Str,
}
impl Ty {
    pub fn dc_name(self) -> &'static str {
        match self {
            Ty::Z => "Z",
            Ty::B => "B",
            Ty::Buf => "Ljava.lang.ByteBuffer;",
            Ty::C => "C",
            Ty::D => "D",
            Ty::F => "F",
            Ty::I => "I",
            Ty::J => "J",
            Ty::S => "S",
            Ty::Str => "Ljava.lang.String;",
        }
    }
}

/// a field value; doubles and floats are kept as bit patterns
#[derive(Serialize, Deserialize, Clone, PartialEq, Eq, Debug)]
pub enum V {
    N,
    B(u8),
    C(u16),
    D(u64),
    F(u32),
    I(i32),
    J(i64),
    S(i16),
    T(String),
    /// a string repeated n times (keeps case files small)
    R(String, u32),
}
impl V {
    pub fn text(&self) -> Option<String> {
        match self {
            V::T(s) => Some(s.clone()),
            V::R(s, n) => Some(s.repeat(*n as usize)),
            _ => None,
        }
    }
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub struct Row {
    pub ts: u64,
    pub v: Vec<V>,
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug, Default)]
pub struct Table {
    pub names: Vec<String>,
    pub types: Vec<Ty>,
    pub rows: Vec<Row>,
}

// ------------------------------------------------------------------ binary format

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug, Default)]
pub struct DcEnc {
    #[serde(default)]
    pub user: Vec<u8>,
    /// display hint of column i (missing = -1)
    #[serde(default)]
    pub hints: Vec<i32>,
    /// columns stored without a name although the table names them col_<i>
    #[serde(default)]
    pub nameless: Vec<usize>,
    /// write short strings in the long form
    #[serde(default)]
    pub long_form: bool,
}

fn put_sized(o: &mut Vec<u8>, s: &str) {
    o.extend_from_slice(&(s.len() as u32).to_be_bytes());
    o.extend_from_slice(s.as_bytes());
}

pub fn put_value(o: &mut Vec<u8>, v: &V, long_form: bool) {
    match v {
        V::N => {}
        V::B(x) => o.push(*x),
        V::C(x) => o.extend_from_slice(&x.to_be_bytes()),
        V::D(x) => o.extend_from_slice(&x.to_be_bytes()),
        V::F(x) => o.extend_from_slice(&x.to_be_bytes()),
        V::I(x) => o.extend_from_slice(&x.to_be_bytes()),
        V::J(x) => o.extend_from_slice(&x.to_be_bytes()),
        V::S(x) => o.extend_from_slice(&x.to_be_bytes()),
        V::T(_) | V::R(..) => {
            let s = v.text().unwrap();
            let b = s.as_bytes();
            if b.len() <= 32767 && !long_form {
                o.extend_from_slice(&(b.len() as i16).to_be_bytes());
            } else {
                o.extend_from_slice(&(-1i16).to_be_bytes());
                o.extend_from_slice(&(b.len() as u32).to_be_bytes());
            }
            o.extend_from_slice(b);
        }
    }
}

pub fn dc_header(names: &[String], types: &[Ty], e: &DcEnc) -> Vec<u8> {
    let mut o = Vec::new();
    o.extend_from_slice(&0x4443_4154u64.to_be_bytes());
    o.extend_from_slice(&2u16.to_be_bytes());
    o.extend_from_slice(&(e.user.len() as u32).to_be_bytes());
    o.extend_from_slice(&e.user);
    o.extend_from_slice(&(types.len() as u32).to_be_bytes());
    for i in 0..types.len() {
        let n = if e.nameless.contains(&i) { "" } else { names[i].as_str() };
        put_sized(&mut o, n);
        put_sized(&mut o, types[i].dc_name());
        o.extend_from_slice(&e.hints.get(i).copied().unwrap_or(-1).to_be_bytes());
    }
    o
}

pub fn dc_row(o: &mut Vec<u8>, ncols: usize, r: &Row, long_form: bool) {
    o.extend_from_slice(&r.ts.to_be_bytes());
    let mut bits = vec![0u8; (ncols + 7) / 8];
    for i in 0..ncols {
        if matches!(r.v.get(i), None | Some(V::N)) {
            bits[i / 8] |= 1 << (i % 8);
        }
    }
    o.extend_from_slice(&bits);
    for v in r.v.iter().take(ncols) {
        put_value(o, v, long_form);
    }
}

/// bytes and the offsets at which a file may end without cutting a record (header end, row ends)
pub fn dc_encode(t: &Table, e: &DcEnc) -> (Vec<u8>, Vec<u64>) {
    let mut o = dc_header(&t.names, &t.types, e);
    let mut b = vec![o.len() as u64];
    for r in &t.rows {
        dc_row(&mut o, t.types.len(), r, e.long_form);
        b.push(o.len() as u64);
    }
    (o, b)
}

/// complete rows of a file that ends inside a record; None if not even the header is complete
pub fn dc_decode_prefix(b: &[u8]) -> Option<(Table, bool)> {
    let mut t = Table::default();
    match dc_decode_into(b, &mut t) {
        Ok(_) => Some((t, true)),
        Err((header_done, e)) => {
            if !header_done {
                None
            } else {
                Some((t, e.starts_with("ends inside")))
            }
        }
    }
}

/// independent decoder
pub fn dc_decode(b: &[u8]) -> Result<(Table, usize), String> {
    let mut t = Table::default();
    match dc_decode_into(b, &mut t) {
        Ok(h) => Ok((t, h)),
        Err((_, e)) => Err(e),
    }
}

fn dc_decode_into(b: &[u8], t: &mut Table) -> Result<usize, (bool, String)> {
    let mut header_done = false;
    dc_decode_inner(b, t, &mut header_done).map_err(|e| (header_done, e))
}

fn dc_decode_inner(b: &[u8], t: &mut Table, header_done: &mut bool) -> Result<usize, String> {
    struct C<'a>(&'a [u8], usize);
    impl<'a> C<'a> {
        fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
            if self.1 + n > self.0.len() {
                return Err(format!("ends inside a record at {}", self.0.len()));
            }
            let r = &self.0[self.1..self.1 + n];
            self.1 += n;
            Ok(r)
        }
        fn u16(&mut self) -> Result<u16, String> {
            Ok(u16::from_be_bytes(self.take(2)?.try_into().unwrap()))
        }
        fn u32(&mut self) -> Result<u32, String> {
            Ok(u32::from_be_bytes(self.take(4)?.try_into().unwrap()))
        }
        fn u64(&mut self) -> Result<u64, String> {
            Ok(u64::from_be_bytes(self.take(8)?.try_into().unwrap()))
        }
        fn s(&mut self) -> Result<String, String> {
            let n = self.u32()? as usize;
            String::from_utf8(self.take(n)?.to_vec()).map_err(|e| e.to_string())
        }
    }
    let mut c = C(b, 0);
    if c.u64()? != 0x4443_4154 {
        return Err("wrong magic".into());
    }
    if c.u16()? != 2 {
        return Err("wrong version".into());
    }
    let ul = c.u32()? as usize;
    c.take(ul)?;
    let n = c.u32()? as usize;
    for i in 0..n {
        let name = c.s()?;
        t.names.push(if name.is_empty() { format!("col_{}", i) } else { name });
        let ty = c.s()?;
        t.types.push(match ty.as_str() {
            "B" => Ty::B,
            "C" => Ty::C,
            "D" => Ty::D,
            "F" => Ty::F,
            "I" => Ty::I,
            "J" => Ty::J,
            "S" => Ty::S,
            "Z" => Ty::Z,
            "Ljava.lang.ByteBuffer;" => Ty::Buf,
            "Ljava.lang.String;" => Ty::Str,
            x => return Err(format!("unknown type {:?}", x)),
        });
        c.u32()?;
    }
    let header = c.1;
    *header_done = true;
    while c.1 < b.len() {
        let ts = c.u64()?;
        let bits = c.take((n + 7) / 8)?.to_vec();
        let mut v = Vec::new();
        for i in 0..n {
            if bits[i / 8] >> (i % 8) & 1 == 1 {
                v.push(V::N);
                continue;
            }
            v.push(match t.types[i] {
                Ty::B => V::B(c.take(1)?[0]),
                Ty::C => V::C(c.u16()?),
                Ty::D => V::D(c.u64()?),
                Ty::F => V::F(c.u32()?),
                Ty::I => V::I(c.u32()? as i32),
                Ty::J => V::J(c.u64()? as i64),
                Ty::S => V::S(c.u16()? as i16),
                Ty::Str => {
                    let l = c.u16()?;
                    let l = if l == 0xffff { c.u32()? as usize } else { l as usize };
                    V::T(String::from_utf8(c.take(l)?.to_vec()).map_err(|e| e.to_string())?)
                }
                _ => return Err("unsupported type".into()),
            });
        }
        t.rows.push(Row { ts, v });
    }
    Ok(header)
}

// ------------------------------------------------------------------ text format

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub struct CsvEnc {
    pub delim: char,
    pub header: bool,
    #[serde(default)]
    pub crlf: bool,
    /// the last line has no line end
    #[serde(default)]
    pub no_final_eol: bool,
    /// quote every nth cell (0 = only when needed)
    #[serde(default)]
    pub quote_every: usize,
    /// surround every nth cell with blanks (0 = never); trimmed by the reader
    #[serde(default)]
    pub pad_every: usize,
    /// the tool has to find out itself whether there is a header line (every file has a record)
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub auto_header: bool,
}
impl Default for CsvEnc {
    fn default() -> Self {
        CsvEnc { delim: ',', header: true, crlf: false, no_final_eol: false, quote_every: 0, pad_every: 0, auto_header: false }
    }
}

/// text of a cell of a CSV input
pub fn csv_cell(v: &V) -> Option<String> {
    match v {
        V::N => None,
        V::T(_) | V::R(..) => v.text(),
        v => Some(render_value(v)),
    }
}

pub fn csv_encode(t: &Table, e: &CsvEnc) -> (Vec<u8>, Vec<u64>) {
    let mut o: Vec<u8> = Vec::new();
    let mut b = Vec::new();
    let eol: &[u8] = if e.crlf { b"\r\n" } else { b"\n" };
    let mut k = 0usize;
    let mut dl = [0u8; 4];
    let dl = e.delim.encode_utf8(&mut dl).as_bytes().to_vec();
    let put = |o: &mut Vec<u8>, cells: &[String], k: &mut usize| {
        for (i, c) in cells.iter().enumerate() {
            if i > 0 {
                o.extend_from_slice(&dl);
            }
            *k += 1;
            let needs = c.contains('"') || c.contains('\n') || c.contains('\r') || c.contains(e.delim) || (cells.len() == 1 && c.is_empty());
            let pad = e.pad_every > 0 && *k % e.pad_every == 0 && e.delim != ' ' && !needs;
            if pad {
                o.push(b' ');
            }
            if needs || (e.quote_every > 0 && *k % e.quote_every == 0 && !pad) {
                o.push(b'"');
                o.extend_from_slice(c.replace('"', "\"\"").as_bytes());
                o.push(b'"');
            } else {
                o.extend_from_slice(c.as_bytes());
            }
            if pad {
                o.extend_from_slice(b"  ");
            }
        }
    };
    if e.header {
        put(&mut o, &t.names, &mut k);
        o.extend_from_slice(eol);
    }
    b.push(o.len() as u64);
    let n = t.rows.len();
    for (i, r) in t.rows.iter().enumerate() {
        // trailing missing fields (V::N at the end) are simply not written
        let last = r.v.iter().rposition(|v| *v != V::N).map(|x| x + 1).unwrap_or(0);
        let cells: Vec<String> = r.v[..last].iter().map(|v| csv_cell(v).unwrap_or_default()).collect();
        put(&mut o, &cells, &mut k);
        if !(e.no_final_eol && i + 1 == n) {
            o.extend_from_slice(eol);
        }
        b.push(o.len() as u64);
    }
    (o, b)
}

/// the table chopper sees when it reads that CSV text: every column is a string
pub fn csv_seen(t: &Table, header: bool) -> Table {
    let names = if header { t.names.iter().map(|s| s.trim().to_string()).collect() } else { (0..t.names.len()).map(|i| format!("col_{}", i)).collect() };
    Table {
        names,
        types: vec![Ty::Str; t.names.len()],
        rows: t
            .rows
            .iter()
            .map(|r| {
                let last = r.v.iter().rposition(|v| *v != V::N).map(|x| x + 1).unwrap_or(0);
                Row {
                    ts: r.ts,
                    v: (0..t.names.len().max(last))
                        .map(|i| if i < last { V::T(csv_cell(&r.v[i]).unwrap_or_default().trim().to_string()) } else { V::N })
                        .collect(),
                }
            })
            .collect(),
    }
}

// ------------------------------------------------------------------ rendering

pub fn render_value(v: &V) -> String {
    match v {
        V::N => String::new(),
        V::B(x) => x.to_string(),
        V::C(x) => x.to_string(),
        V::D(x) => {
            let mut b = Vec::new();
            dtoa::write(&mut b, f64::from_bits(*x)).unwrap();
            String::from_utf8(b).unwrap()
        }
        V::F(x) => {
            let mut b = Vec::new();
            dtoa::write(&mut b, f32::from_bits(*x)).unwrap();
            String::from_utf8(b).unwrap()
        }
        V::I(x) => x.to_string(),
        V::J(x) => x.to_string(),
        V::S(x) => x.to_string(),
        V::T(s) => s.clone(),
        V::R(s, n) => s.repeat(*n as usize),
    }
}

/// civil date of a day count since 1970-01-01
pub fn civil(days: i64) -> (i64, u32, u32) {
    let mut y = 1970i64;
    let mut d = days;
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    // whole 400-year cycles first
    y += 400 * d.div_euclid(146_097);
    d = d.rem_euclid(146_097);
    loop {
        let n = if leap(y) { 366 } else { 365 };
        if d < n {
            break;
        }
        d -= n;
        y += 1;
    }
    let ml = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let mut m = 0;
    while d >= ml[m] {
        d -= ml[m];
        m += 1;
    }
    (y, m as u32 + 1, d as u32 + 1)
}

/// day count since 1970-01-01 of a civil date
pub fn days_from_civil(y: i64, m: u32, d: u32) -> i64 {
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let before = |y: i64| {
        let y = y - 1;
        y * 365 + y.div_euclid(4) - y.div_euclid(100) + y.div_euclid(400)
    };
    let ml = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    before(y) - before(1970) + ml[..m as usize - 1].iter().sum::<i64>() + d as i64 - 1
}

/// local date/time parts of a nanosecond timestamp at a fixed offset (minutes east of UTC)
pub fn parts(ts: u64, off_min: i32) -> (i64, u32, u32, u32, u32, u32, u32) {
    let secs = (ts / 1_000_000_000) as i64 + off_min as i64 * 60;
    let ns = (ts % 1_000_000_000) as u32;
    let days = secs.div_euclid(86_400);
    let s = secs.rem_euclid(86_400) as u32;
    let (y, m, d) = civil(days);
    (y, m, d, s / 3600, s / 60 % 60, s % 60, ns)
}

pub fn human(ts: u64, off_min: i32, gran: &str) -> String {
    let (y, mo, d, h, mi, s, ns) = parts(ts, off_min);
    let frac = match gran {
        "s" => String::new(),
        "ms" => format!(".{:03}", ns / 1_000_000),
        "us" => format!(".{:06}", ns / 1_000),
        _ => format!(".{:09}", ns),
    };
    let (sg, a) = if off_min < 0 { ('-', -off_min) } else { ('+', off_min) };
    format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}{}{}{:02}:{:02}", y, mo, d, h, mi, s, frac, sg, a / 60, a % 60)
}

/// minutes east of UTC at an instant in a zone of the time zone database
pub fn zone_off(name: &str, ts: u64) -> i32 {
    use chrono::{Offset, TimeZone};
    let tz: chrono_tz::Tz = name.parse().unwrap();
    tz.offset_from_utc_datetime(&chrono::NaiveDateTime::from_timestamp((ts / 1_000_000_000) as i64, 0)).fix().local_minus_utc().div_euclid(60)
}

/// is the local time at this instant one that no other instant has
pub fn zone_single(name: &str, ts: u64) -> bool {
    let off = zone_off(name, ts) as i64 * 60_000_000_000;
    zone_instants(name, ts as i128 + off as i128) == 1
}

/// how many instants have this local time (nanoseconds since 1970 on the local clock)
pub fn zone_instants(name: &str, local: i128) -> usize {
    use chrono::{LocalResult, TimeZone};
    let tz: chrono_tz::Tz = name.parse().unwrap();
    let n = chrono::NaiveDateTime::from_timestamp(local.div_euclid(1_000_000_000) as i64, 0);
    match tz.from_local_datetime(&n) {
        LocalResult::None => 0,
        LocalResult::Single(_) => 1,
        LocalResult::Ambiguous(..) => 2,
    }
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub struct CsvOut {
    pub delim: String,
    pub print_time: bool,
    pub time_name: Option<String>,
    pub epoch: bool,
    pub gran: String,
    /// minutes east of UTC
    pub off_min: i32,
    /// zone with changing offset
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub zone: Option<String>,
}
impl CsvOut {
    pub fn off(&self, ts: u64) -> i32 {
        match &self.zone {
            Some(z) => zone_off(z, ts),
            None => self.off_min,
        }
    }
}

pub fn csv_out_header(names: &[String], o: &CsvOut) -> String {
    let mut h = String::new();
    if o.print_time {
        h.push_str(&match &o.time_name {
            Some(n) => n.clone(),
            None if o.epoch => format!(
                "timestamp{}",
                match o.gran.as_str() {
                    "s" => "Seconds",
                    "ms" => "Millis",
                    "us" => "Micros",
                    _ => "Nanos",
                }
            ),
            None => "time".into(),
        });
        h.push_str(&o.delim);
    }
    h.push_str(&names.join(&o.delim));
    h.push('\n');
    h
}

pub fn csv_out_row(r: &Row, ncols: usize, o: &CsvOut) -> String {
    let mut s = String::new();
    let mut first = true;
    if o.print_time {
        if o.epoch {
            let t = match o.gran.as_str() {
                "s" => r.ts / 1_000_000_000,
                "ms" => r.ts / 1_000_000,
                "us" => r.ts / 1_000,
                _ => r.ts,
            };
            s.push_str(&t.to_string());
        } else {
            s.push_str(&human(r.ts, o.off(r.ts), &o.gran));
        }
        first = false;
    }
    for i in 0..ncols {
        if !first {
            s.push_str(&o.delim);
        }
        first = false;
        if let Some(v) = r.v.get(i) {
            s.push_str(&render_value(v));
        }
    }
    s.push('\n');
    s
}

/// output bytes for a table
pub fn render(t: &Table, dc: bool, o: &CsvOut) -> Vec<u8> {
    if dc {
        dc_encode(t, &DcEnc::default()).0
    } else {
        let mut s = csv_out_header(&t.names, o).into_bytes();
        for r in &t.rows {
            s.extend_from_slice(csv_out_row(r, t.names.len(), o).as_bytes());
        }
        s
    }
}

// ------------------------------------------------------------------ merging and ranges

pub fn in_range(rows: &[Row], begin: Option<u64>, end: Option<u64>) -> Vec<Row> {
    let mut v = Vec::new();
    for r in rows {
        if let Some(e) = end {
            if r.ts >= e {
                break;
            }
        }
        if begin.map_or(true, |b| r.ts >= b) {
            v.push(r.clone());
        }
    }
    v
}

/// repeatedly take the input with the smallest next timestamp, the first such input on ties;
/// returns (input, row)
pub fn merge(ins: &[Vec<Row>]) -> Vec<(usize, Row)> {
    let mut pos = vec![0usize; ins.len()];
    let mut out = Vec::new();
    loop {
        let mut best: Option<usize> = None;
        for i in 0..ins.len() {
            if pos[i] < ins[i].len() {
                match best {
                    None => best = Some(i),
                    Some(b) if ins[i][pos[i]].ts < ins[b][pos[b]].ts => best = Some(i),
                    _ => {}
                }
            }
        }
        match best {
            None => return out,
            Some(i) => {
                out.push((i, ins[i][pos[i]].clone()));
                pos[i] += 1;
            }
        }
    }
}
