//! Workload generation: tables, encodings, locations, schedules.
use crate::case::*;
use crate::codec::{Container, Skip};
use crate::model::{self, CsvEnc, CsvOut, DcEnc, Row, Table, Ty, V};
use crate::rng::Rng;
use crate::simos::Plan;

pub struct Knobs {
    pub inputs: (usize, usize),
    pub max_rows: usize,
    /// weights of text / binary / mixed inputs
    pub csv: u64,
    pub dc: u64,
    pub mixed: u64,
    /// percent of files in a container
    pub cont: u64,
    pub stdin: u64,
    pub http: u64,
    pub dir: u64,
    pub custom: u64,
    /// percent of inputs not recognised by plain file name
    pub routes: u64,
    pub ranges: u64,
    /// percent of streams with perturbed delivery
    pub benign: u64,
    pub short_records: u64,
    pub out_dc: u64,
    pub old_out: u64,
    /// percent of cases with very long values
    pub big: u64,
    pub stdout: u64,
    /// percent: inputs without rows
    pub empty: u64,
    /// percent of text command lines that leave time column, format, units or header line to be detected
    pub detect: u64,
    /// percent of values that are null (or empty)
    pub nulls: u64,
    pub checked_only: bool,
    /// one case in so many has an input of tens of thousands of rows (0: none)
    pub long: u64,
    /// one case in so many has tens of inputs (0: none)
    pub many: u64,
}
impl Default for Knobs {
    fn default() -> Self {
        Knobs {
            inputs: (1, 4),
            max_rows: 40,
            csv: 4,
            dc: 4,
            mixed: 1,
            cont: 20,
            stdin: 10,
            http: 8,
            dir: 8,
            custom: 5,
            routes: 25,
            ranges: 15,
            benign: 50,
            short_records: 15,
            out_dc: 35,
            old_out: 20,
            big: 4,
            stdout: 40,
            empty: 10,
            detect: 15,
            nulls: 16,
            checked_only: false,
            long: 800,
            many: 800,
        }
    }
}

/// a time zone; without offset it is one whose offset changes
#[derive(Clone, Copy, Debug)]
pub struct Zone {
    pub name: &'static str,
    fixed: Option<i32>,
}
const fn fixed(name: &'static str, off: i32) -> Zone {
    Zone { name, fixed: Some(off) }
}
pub const ZONES: [Zone; 5] = [fixed("UTC", 0), fixed("Etc/GMT+5", -300), fixed("Asia/Tokyo", 540), fixed("Asia/Kolkata", 330), fixed("Etc/GMT-14", 840)];
const fn moving(name: &'static str) -> Zone {
    Zone { name, fixed: None }
}
/// offsets are whole half hours since 1970
const MOVING: [Zone; 7] = [
    moving("America/New_York"),
    moving("Europe/London"),
    moving("Europe/Berlin"),
    moving("Australia/Lord_Howe"),
    moving("America/St_Johns"),
    moving("America/Sao_Paulo"),
    moving("Pacific/Apia"),
];
impl Zone {
    pub const UTC: Zone = ZONES[0];
    pub fn off(&self, ts: u64) -> i32 {
        self.fixed.unwrap_or_else(|| model::zone_off(self.name, ts))
    }
    fn single(&self, ts: u64) -> bool {
        self.fixed.is_some() || model::zone_single(self.name, ts)
    }
    /// the next change of the offset after `ts`
    fn change(&self, ts: u64) -> Option<u64> {
        if self.fixed.is_some() {
            return None;
        }
        let step = 7 * DAY;
        let mut a = ts;
        for _ in 0..80 {
            let b = a + step;
            if self.off(a) != self.off(b) {
                let (mut lo, mut hi) = (a, b);
                while hi - lo > 1_000_000_000 {
                    let m = lo + (hi - lo) / 2;
                    if self.off(m) == self.off(lo) { lo = m } else { hi = m }
                }
                return Some(hi - hi % 1_000_000_000);
            }
            a = b;
        }
        None
    }
    /// a local time that no instant or two have
    pub fn odd_local(name: &str, ts: u64, fmt: &str) -> Option<String> {
        let z = MOVING.iter().find(|z| z.name == name)?;
        let t = z.change(ts)?;
        let (a, b) = (z.off(t - 1_000_000_000), z.off(t));
        // the clock jumps from one to the other at t
        let text = naive_text(t, a.min(b), fmt);
        let local = t as i128 + a.min(b) as i128 * 60_000_000_000;
        if model::zone_instants(name, local) == 1 { None } else { Some(text) }
    }
    /// an offset of a moving zone keeps the phase of units up to this
    fn keeps_phase(&self, unit: u64) -> bool {
        self.fixed.is_some() || unit <= 1_800_000_000_000
    }
}

fn pct(r: &mut Rng, p: u64) -> bool {
    r.chance(p, 100)
}

// ------------------------------------------------------------------ values

pub fn gen_text(r: &mut Rng, hostile: bool) -> String {
    let n = match r.below(20) {
        0 | 1 => 0,
        2..=12 => r.ur(1, 8),
        13..=17 => r.ur(1, 24),
        18 => r.ur(20, 90),
        _ => r.ur(50, 400),
    };
    let mut s = String::new();
    let uni = r.chance(1, 5);
    for i in 0..n {
        let c = if uni && r.chance(1, 3) {
            *r.pick(&['é', 'ß', '中', '文', '😀', 'Ω', 'я', '\u{7ff}', '\u{800}', '\u{10ffff}'])
        } else if hostile && r.chance(1, 8) {
            *r.pick(&['"', ',', '\n', '\r', ';', '\t', ' ', '|', '\''])
        } else if r.chance(1, 12) && i > 0 && i + 1 < n {
            if hostile { ' ' } else { '_' }
        } else if r.chance(1, 4) {
            (b'0' + r.below(10) as u8) as char
        } else {
            (b'a' + r.below(26) as u8) as char
        };
        s.push(c);
    }
    s
}

fn big_text(r: &mut Rng) -> V {
    let n = *r.pick(&[8190u32, 8191, 8192, 8193, 16384, 20000, 32766, 32767, 32768, 65535, 65536, 70001]);
    V::R((*r.pick(&["x", "y", "7", "q"])).to_string(), n)
}

pub fn gen_value(r: &mut Rng, t: Ty, big: bool) -> V {
    gen_value_n(r, t, big, 16)
}
/// nulls: percent of nulls
pub fn gen_value_n(r: &mut Rng, t: Ty, big: bool, nulls: u64) -> V {
    if pct(r, nulls) {
        return V::N;
    }
    match t {
        Ty::B => V::B(*r.pick(&[0u8, 1, 127, 128, 255, 65])),
        Ty::C => V::C(*r.pick(&[0u16, 1, 255, 256, 0x7fff, 0x8000, 0xffff, 0x4142])),
        Ty::D => V::D(match r.below(7) {
            6 => *r.pick(&[f64::INFINITY.to_bits(), f64::NEG_INFINITY.to_bits(), f64::NAN.to_bits(), 0xfff8_0000_dead_beef, 0x7ff8_0000_0000_0001, 1, 0x8000_0000_0000_0001]),
            0 => 0f64.to_bits(),
            1 => (-0f64).to_bits(),
            2 => f64::MAX.to_bits(),
            3 => (r.below(2_000_000) as f64 / 1000.0 - 1000.0).to_bits(),
            4 => f64::MIN_POSITIVE.to_bits(),
            _ => {
                let b = r.u64();
                if f64::from_bits(b).is_finite() { b } else { 1.5f64.to_bits() }
            }
        }),
        Ty::F => V::F(match r.below(6) {
            5 => *r.pick(&[f32::INFINITY.to_bits(), f32::NEG_INFINITY.to_bits(), f32::NAN.to_bits(), 0xffc0_1234, 0x7fc0_0001, 1, 0x8000_0001]),
            0 => 0f32.to_bits(),
            1 => f32::MIN.to_bits(),
            2 => (r.below(20000) as f32 / 7.0).to_bits(),
            _ => {
                let b = r.u64() as u32;
                if f32::from_bits(b).is_finite() { b } else { 2.25f32.to_bits() }
            }
        }),
        Ty::I => V::I(*r.pick(&[0, 1, -1, i32::MAX, i32::MIN, 65536, -129, 77])),
        Ty::J => V::J(*r.pick(&[0, 1, -1, i64::MAX, i64::MIN, 1 << 33, -4_000_000_000, 12345])),
        Ty::S => V::S(*r.pick(&[0, 1, -1, i16::MAX, i16::MIN, 256, -257])),
        _ => {
            if big && r.chance(1, 6) {
                big_text(r)
            } else {
                let h = r.chance(1, 10);
                V::T(gen_text(r, h))
            }
        }
    }
}

pub fn gen_types(r: &mut Rng, n: usize) -> Vec<Ty> {
    let all = [Ty::B, Ty::C, Ty::D, Ty::F, Ty::I, Ty::J, Ty::S, Ty::Str];
    if r.chance(1, 12) {
        let one = *r.pick(&all);
        return vec![one; n];
    }
    (0..n).map(|_| *r.pick(&all)).collect()
}

pub fn gen_names(r: &mut Rng, n: usize, plain: bool) -> Vec<String> {
    let base = ["a", "b", "price", "size", "sym", "x", "y", "qty", "flag", "note", "Bid", "ASK", "longer_column_name"];
    let mut v: Vec<String> = Vec::new();
    for i in 0..n {
        let b = *r.pick(&base);
        let mut s = if i < 3 && r.chance(1, 2) && !v.iter().any(|x| x == b) { b.to_string() } else { format!("{}{}", b, alpha(i)) };
        if !plain && r.chance(1, 150) {
            s = format!("{}{}", s, "n".repeat(*r.pick(&[120usize, 250, 300, 8200, 20_000, 33_000])));
        }
        if !plain && r.chance(1, 15) {
            s.push_str(*r.pick(&["é", " z", "中"]));
        }
        while v.contains(&s) {
            s.push('q');
        }
        v.push(s);
    }
    v
}
fn alpha(mut i: usize) -> String {
    let mut s = String::from("_");
    loop {
        s.push((b'a' + (i % 26) as u8) as char);
        i /= 26;
        if i == 0 {
            return s;
        }
    }
}

pub fn gen_ncols(r: &mut Rng, min: usize) -> usize {
    match r.below(20) {
        0..=11 => r.ur(min.max(1), 5.max(min)),
        12..=16 => r.ur(min.max(1), 12.max(min)),
        17..=18 => *r.pick(&[7usize, 8, 9, 15, 16, 17]),
        _ if r.chance(1, 12) => *r.pick(&[127usize, 128, 129, 255, 256, 257, 300, 1000]),
        _ => *r.pick(&[24usize, 31, 32, 33, 63, 64, 65, 100]),
    }
}

/// non-decreasing timestamps with many ties; all multiples of `unit`
pub fn gen_ts(r: &mut Rng, n: usize, base: u64, unit: u64, max: u64) -> Vec<u64> {
    let mut t = base + r.below(4) * unit;
    let style = r.below(4);
    (0..n)
        .map(|_| {
            let step = match style {
                0 => *r.pick(&[0u64, 0, 1]),
                1 => *r.pick(&[0u64, 1, 1, 2, 3]),
                2 => *r.pick(&[1u64, 7, 100, 1000]),
                _ => *r.pick(&[0u64, 1, 2, 5000, 86_400]),
            };
            let next = t.saturating_add(step * unit);
            if next <= max {
                t = next;
            }
            t
        })
        .collect()
}

// ------------------------------------------------------------------ delivery

pub fn gen_plan(r: &mut Rng, len: u64, eintr: bool) -> Plan {
    let mut p = Plan::default();
    match r.below(8) {
        0 if len < 30_000 => {
            p.sizes = vec![1];
            p.cycle = true;
        }
        1 | 2 => {
            p.sizes = (0..r.ur(1, 12)).map(|_| r.ur(1, 17) as u32).collect();
            p.cycle = len < 60_000;
        }
        3 => {
            p.sizes = (0..r.ur(1, 8)).map(|_| r.ur(1, 3000) as u32).collect();
            p.cycle = true;
        }
        4 => {
            p.sizes = (0..r.ur(1, 6)).map(|_| *r.pick(&[8191u32, 8192, 8193, 1, 4096, 0, 2, 8190])).collect();
            p.cycle = true;
        }
        5 => {
            // stop shortly before or after the end of the preview
            let a = r.ur(8180, 8196) as u32;
            p.sizes = vec![a, 1, 1, 2, 0];
        }
        6 => {
            p.sizes = vec![r.range(1, len.max(1).min(1 << 20)) as u32, 0];
        }
        _ => {}
    }
    if eintr && r.chance(1, 2) {
        let n = r.ur(1, 5);
        let hi = *r.pick(&[3usize, 10, 40]);
        let mut v: Vec<u32> = (0..n).map(|_| r.ur(0, hi) as u32).collect();
        if r.chance(1, 4) {
            let s = v[0];
            v.extend([s + 1, s + 2]);
        }
        v.sort();
        v.dedup();
        p.eintr = v;
    }
    p
}

pub fn gen_sched(r: &mut Rng, benign: u64, http: bool) -> Sched {
    let mut s = Sched { rand_seed: r.u64() >> 11, ..Default::default() };
    if !pct(r, benign) {
        return s;
    }
    s.clock_start_ns = *r.pick(&[0u64, 1, 1_600_000_000_000_000_000, 4_102_444_800_000_000_000, 951_782_400_000_000_000]);
    if r.chance(1, 3) {
        let hi = if http { 500_000_000 } else { 90_000_000_000_000 };
        s.latency = (0..r.ur(1, 7)).map(|_| if r.chance(1, 2) { 0 } else { r.below(hi) }).collect();
    }
    if r.chance(2, 3) {
        s.out_plan = gen_plan(r, 8000, true);
    }
    if http {
        s.connect_async = r.chance(1, 2);
        if r.chance(1, 2) {
            s.send_plan = gen_plan(r, 200, true);
        }
    }
    s.dtype_unknown = r.chance(1, 3);
    if r.chance(1, 4) {
        s.links = r.u64() | 1;
    }
    s
}

// ------------------------------------------------------------------ containers

pub fn gen_container(r: &mut Rng, checked: bool, zip_ok: bool) -> Container {
    let cuts = |r: &mut Rng| -> Vec<u32> {
        match r.below(4) {
            0 | 1 => vec![],
            2 => vec![r.skew(3000) as u32],
            _ => (0..r.ur(2, 5)).map(|_| r.skew(2000) as u32).collect(),
        }
    };
    // not before the first frame: only a name tells then what this is
    let skip = |r: &mut Rng| -> Vec<Skip> {
        if checked || !r.chance(1, 6) {
            return vec![];
        }
        (0..r.ur(1, 3)).map(|_| Skip { at: r.ur(1, 4), kind: *r.pick(&[0u8, 1, 7, 14, 15]), len: *r.pick(&[0u32, 1, 4, 100, 8192, 20_000]) }).collect()
    };
    loop {
        let c = match r.below(7) {
            0 => Container::Gz { members: cuts(r), level: *r.pick(&[0u32, 1, 6, 9]), name: r.chance(1, 3), extra: *r.pick(&[0u16, 0, 1, 300]), comment: r.chance(1, 5) },
            1 if zip_ok => Container::Zip {
                method: *r.pick(&[0u16, 8, 8, 12]),
                name: String::new(),
                // damage should not always hit the comment
                comment: if checked { *r.pick(&[0u16, 0, 1, 40]) } else { *r.pick(&[0u16, 0, 0, 1, 100, 9000, 65513, 65535]) },
                descriptor: r.chance(1, 3),
                extra: *r.pick(&[0u16, 0, 4, 9, 40]),
                zip64: r.chance(1, 4),
                utf8: r.chance(1, 2),
                shape: if r.chance(1, 3) { 0 } else { (r.u64() & r.u64()) as u16 & 0x21ff | (r.chance(1, 12) as u16) << 9 },
            },
            2 => Container::Lz4 {
                frames: cuts(r),
                block: *r.pick(&[65536u32, 262144, 1 << 20, 4 << 20]),
                independent: r.chance(1, 2),
                bsum: r.chance(1, 2),
                csum: checked || r.chance(1, 2),
                csize: r.chance(1, 2),
                skip: skip(r),
            },
            3 => Container::Lz4Block { level: *r.pick(&[0u8, 1, 3, 6]), block: *r.pick(&[1u32, 13, 64, 500, 4096, 65536]), compress: r.chance(2, 3) },
            4 => Container::Lzf { block: *r.pick(&[1u32, 10, 100, 4096, 30000, 65535]), compress: r.chance(2, 3) },
            5 | 6 => Container::Zst {
                frames: cuts(r),
                block: *r.pick(&[1u32, 5, 100, 4000, 70000, 131072]),
                rle: r.chance(1, 2),
                csum: checked || r.chance(1, 2),
                single: r.chance(1, 2),
                csize: r.below(4) as u8,
                window: r.below(256) as u8 % 80,
                skip: skip(r),
            },
            _ => continue,
        };
        if checked && !c.checked() {
            continue;
        }
        return c;
    }
}

// ------------------------------------------------------------------ command lines

#[derive(Clone, Copy, PartialEq, Debug)]
enum TsKind {
    /// nanoseconds per unit
    Epoch(u64, &'static str),
    Iso,
    Naive(&'static str),
    /// format of the time column
    Split(&'static str),
}

impl TsKind {
    fn local(self) -> bool {
        matches!(self, TsKind::Naive(_) | TsKind::Split(_))
    }
}

pub fn naive_text(ts: u64, off: i32, fmt: &str) -> String {
    let (y, mo, d, h, mi, s, ns) = model::parts(ts, off);
    match fmt {
        "%Y-%m-%dT%H:%M:%S%.f" => format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:09}", y, mo, d, h, mi, s, ns),
        "%Y%m%d_%H%M%S" => format!("{:04}{:02}{:02}_{:02}{:02}{:02}", y, mo, d, h, mi, s),
        "%Y%m%d.%H%M%S" => format!("{:04}{:02}{:02}.{:02}{:02}{:02}", y, mo, d, h, mi, s),
        "%Y%m%d %H%M%S" => format!("{:04}{:02}{:02} {:02}{:02}{:02}", y, mo, d, h, mi, s),
        "%Y%m%d %H:%M:%S" => format!("{:04}{:02}{:02} {:02}:{:02}:{:02}", y, mo, d, h, mi, s),
        "%Y/%m/%d-%H:%M:%S" => format!("{:04}/{:02}/{:02}-{:02}:{:02}:{:02}", y, mo, d, h, mi, s),
        "%Y%m%d" => format!("{:04}{:02}{:02}", y, mo, d),
        "%H:%M:%S%.f" => format!("{:02}:{:02}:{:02}.{:09}", h, mi, s, ns),
        "%H%M%S%3f" => format!("{:02}{:02}{:02}{:03}", h, mi, s, ns / 1_000_000),
        "%H%M%S" => format!("{:02}{:02}{:02}", h, mi, s),
        "%H:%M:%S" => format!("{:02}:{:02}:{:02}", h, mi, s),
        "%-H:%M" => format!("{}:{:02}", h, mi),
        _ => unreachable!(),
    }
}
const DAY: u64 = 86_400_000_000_000;
fn naive_unit(r: &mut Rng, fmt: &str) -> u64 {
    match fmt {
        "%Y%m%d" => DAY,
        "%-H:%M" => 60_000_000_000,
        "%H%M%S%3f" => 1_000_000,
        "%Y-%m-%dT%H:%M:%S%.f" | "%H:%M:%S%.f" => *r.pick(&[1u64, 1, 1_000_000, 1_000_000_000]),
        _ => 1_000_000_000,
    }
}

/// Everything about text inputs that one command line fixes for all of them.
struct CsvStyle {
    enc: CsvEnc,
    kind: TsKind,
    /// columns holding the time
    ts: Vec<usize>,
    zone: Zone,
    hostile: bool,
    args: Vec<String>,
    unit: u64,
    /// the units are recognised from the first value, which only works for recent times
    recent: bool,
}

fn gen_csv_style(r: &mut Rng, names: &mut Vec<String>, zone: Zone, by_name: bool, allow_no_header: bool, detect: bool) -> CsvStyle {
    let mut args: Vec<String> = vec![];
    let mut enc = CsvEnc {
        delim: *r.pick(&[',', ',', ',', '\t', ' ', ';', '|']),
        header: by_name || !allow_no_header || r.chance(3, 4),
        crlf: r.chance(1, 5),
        no_final_eol: r.chance(1, 5),
        quote_every: if r.chance(1, 4) { r.ur(1, 6) } else { 0 },
        pad_every: if r.chance(1, 6) { r.ur(2, 7) } else { 0 },
        auto_header: false,
    };
    let kind = match r.below(10) {
        0..=5 => {
            let u = *r.pick(&[(1_000_000_000u64, "s"), (1_000_000, "ms"), (1_000, "us"), (1, "ns")]);
            TsKind::Epoch(u.0, u.1)
        }
        6 | 7 => TsKind::Iso,
        8 if detect => TsKind::Naive(*r.pick(&["%Y%m%d.%H%M%S", "%Y%m%d %H%M%S", "%Y%m%d %H:%M:%S", "%Y/%m/%d-%H:%M:%S", "%Y%m%d"])),
        8 => TsKind::Naive(*r.pick(&["%Y-%m-%dT%H:%M:%S%.f", "%Y%m%d_%H%M%S", "%Y%m%d.%H%M%S", "%Y%m%d"])),
        _ if detect => TsKind::Split(*r.pick(&["%H%M%S%3f", "%H%M%S", "%H:%M:%S", "%-H:%M"])),
        _ => TsKind::Split("%H:%M:%S%.f"),
    };
    let unit = match kind {
        TsKind::Epoch(u, _) => u,
        TsKind::Naive(f) | TsKind::Split(f) => naive_unit(r, f),
        _ => *r.pick(&[1u64, 1, 1_000_000, 1_000_000_000]),
    };
    // which column: named or numbered by the user, or found by its name, or the first one
    let split = matches!(kind, TsKind::Split(_));
    let find = detect && (if split { enc.header } else { true }) && r.chance(2, 3);
    let suffix = match kind {
        TsKind::Epoch(_, u) => match u {
            "s" => "Seconds",
            "ms" => "Millis",
            "us" => "Micros",
            _ => "Nanos",
        },
        _ => "",
    };
    let mut recent = detect && matches!(kind, TsKind::Epoch(..));
    // files of a directory may have their columns in another order
    let first_col = find && !split && !by_name && (!enc.header || r.chance(1, 4));
    let pos = if first_col { 0 } else { r.us(names.len() + 1) };
    let ts_name: String = if find && !first_col {
        if split {
            // the second name follows below
            "date".into()
        } else if matches!(kind, TsKind::Epoch(..)) && r.chance(1, 2) {
            recent = false;
            let p = *r.pick(&["time", "Time", "tradeTime", "recv_time"]);
            let s = if r.chance(1, 2) { suffix.to_string() } else { suffix.to_lowercase() };
            format!("{}{}", p, s)
        } else {
            (*r.pick(&["time", "Time", "date", "DATE", "tradeTime", "quoteDate", "exchTime"])).to_string()
        }
    } else if detect && !find && !split && enc.header && matches!(kind, TsKind::Epoch(..)) && r.chance(1, 4) {
        recent = false;
        format!("ts{}", suffix.to_lowercase())
    } else {
        (*r.pick(&["ts", "when", "t", "stamp"])).to_string()
    };
    names.insert(pos, ts_name);
    let mut ts = vec![pos];
    if split {
        let pos2 = r.us(names.len() + 1);
        if pos2 <= ts[0] {
            ts[0] += 1;
        }
        let second = if find {
            let p = *r.pick(&["", "", "trade", "x_"]);
            let up = r.chance(1, 3);
            let cap = |s: &str| if up { s.to_uppercase() } else { s.to_string() };
            names[pos] = format!("{}{}", p, cap("date"));
            format!("{}{}", p, cap("time"))
        } else {
            "clock".to_string()
        };
        names.insert(pos2, second);
        ts.push(pos2);
    }
    let name_ok = enc.header;
    let use_name = by_name || (name_ok && r.chance(1, 2));
    let col = |i: usize| if use_name { names[i].clone() } else { i.to_string() };
    if !find {
        match kind {
            TsKind::Split(_) => args.extend(["--csv-in-ts-col-date".into(), col(ts[0]), "--csv-in-ts-col-time".into(), col(ts[1])]),
            _ => args.extend(["--csv-in-ts-col".into(), col(ts[0])]),
        }
    }
    if !detect || r.chance(1, 4) {
        match kind {
            TsKind::Epoch(..) => recent = false,
            _ => {}
        }
        match kind {
            TsKind::Split(f) => args.extend(["--csv-in-ts-fmt-date".into(), "%Y%m%d".into(), "--csv-in-ts-fmt-time".into(), f.into()]),
            TsKind::Epoch(_, u) => args.extend(["--csv-in-epoch".into(), u.into()]),
            TsKind::Naive(f) => args.extend(["--csv-in-ts-fmt".into(), f.into()]),
            TsKind::Iso if r.chance(1, 2) => args.extend(["--csv-in-ts-fmt".into(), "%+".into()]),
            _ => {}
        }
    }
    // delimiter: explicit, or guessed where the documented rule is unambiguous
    let auto_ok = enc.header && names.len() >= 2 && [',', '\t', ' '].contains(&enc.delim) && names.iter().all(|n| n.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_'));
    let auto = auto_ok && enc.quote_every == 0 && r.chance(1, 3);
    if auto {
        enc.pad_every = 0;
    } else {
        args.push("--csv-in-delimiter".into());
        args.push(if enc.delim == '\t' && r.chance(1, 2) { "\\t".into() } else { enc.delim.to_string() });
    }
    let hostile = !auto && r.chance(1, 4);
    enc.auto_header = detect && enc.header && matches!(kind, TsKind::Epoch(..)) && enc.quote_every == 0 && !hostile && names.len() <= 12 && r.chance(1, 2);
    if !enc.auto_header {
        args.push("--csv-in-has-header".into());
        args.push(yes_no(r, enc.header));
    }
    CsvStyle { enc, kind, ts, zone, hostile, args, unit, recent }
}

fn csv_row(r: &mut Rng, st: &CsvStyle, ncols: usize, ts: u64, big: bool, short: bool, nulls: u64) -> Row {
    let mut v: Vec<V> = (0..ncols)
        .map(|_| {
            if big && r.chance(1, 8) {
                big_text(r)
            } else if pct(r, nulls * 6 / 10) {
                V::T(String::new())
            } else {
                V::T(gen_text(r, st.hostile))
            }
        })
        .collect();
    let c = *r.pick(&[0i32, 0, 60, -330, 540]);
    match st.kind {
        TsKind::Epoch(u, _) => v[st.ts[0]] = V::T((ts / u).to_string()),
        TsKind::Iso => v[st.ts[0]] = V::T(model::human(ts, c, "ns")),
        TsKind::Naive(f) => v[st.ts[0]] = V::T(naive_text(ts, st.zone.off(ts), f)),
        TsKind::Split(f) => {
            v[st.ts[0]] = V::T(naive_text(ts, st.zone.off(ts), "%Y%m%d"));
            v[st.ts[1]] = V::T(naive_text(ts, st.zone.off(ts), f));
        }
    }
    if short {
        let last = *st.ts.iter().max().unwrap();
        if last + 1 < ncols {
            let keep = r.ur(last + 1, ncols - 1);
            for x in v.iter_mut().skip(keep) {
                *x = V::N;
            }
        }
    }
    // a record consisting of one blank field would be an empty line
    Row { ts, v }
}

pub fn gen_http(r: &mut Rng, i: usize) -> HttpOpt {
    let http10 = r.chance(1, 6);
    let keep_alive = r.chance(1, 3);
    let framing = match r.below(5) {
        0 | 1 => Framing::Length,
        2 | 3 if !http10 => Framing::Chunked { sizes: (0..r.ur(0, 4)).map(|_| (1 + r.skew(9000)) as u32).collect(), ext: false, trailer: false },
        2 | 3 => Framing::Length,
        _ if !keep_alive => Framing::Close,
        _ => Framing::Length,
    };
    HttpOpt {
        host: if r.chance(1, 3) { format!("h{}.test:8080", i) } else { format!("h{}.test", i) },
        framing,
        http10,
        keep_alive,
        lower: r.chance(1, 3),
        extra_headers: *r.pick(&[0u16, 0, 1, 20]),
        redirects: if r.chance(1, 5) { (0..r.ur(1, 4)).map(|_| (*r.pick(&[301u16, 302, 303, 307, 308]), r.chance(1, 2))).collect() } else { vec![] },
        status: 200,
        malformed: None,
        cross: r.chance(1, 3),
        looped: false,
        chunk_eintr: false,
    }
}

pub fn gen_csv_out(r: &mut Rng, args: &mut Vec<String>, env: &mut Vec<(String, String)>, zone: Zone, need_tz: bool, human_ok: bool) -> CsvOut {
    let mut o = CsvOut { delim: ",".into(), print_time: true, time_name: None, epoch: false, gran: "ns".into(), off_min: zone.fixed.unwrap_or(0), zone: if zone.fixed.is_none() { Some(zone.name.into()) } else { None } };
    if !human_ok || r.chance(1, 2) {
        o.epoch = true;
        args.push((*r.pick(&["-E", "--epoch"])).into());
    } else if r.chance(1, 4) {
        args.push("-H".into());
    }
    if r.chance(1, 2) {
        o.gran = (*r.pick(&["s", "ms", "us", "ns"])).into();
        args.extend(["-g".into(), o.gran.clone()]);
    }
    if r.chance(1, 6) {
        o.print_time = false;
        args.extend(["--print-time".into(), yes_no(r, false)]);
    } else if r.chance(1, 12) {
        args.extend(["--print-time".into(), yes_no(r, true)]);
    }
    if r.chance(1, 5) {
        o.delim = (*r.pick(&["|", ";", "\t", "::", " "])).into();
        args.push(format!("--delimiter={}", o.delim));
    }
    if r.chance(1, 6) {
        let n = *r.pick(&["T", "the time", "clock"]);
        o.time_name = Some(n.into());
        args.extend(["--time-col-name".into(), n.into()]);
    }
    if need_tz || (!o.epoch && o.print_time) || r.chance(1, 4) {
        let zone_arg = zone_text(r, zone.name);
        if r.chance(1, 3) {
            env.push(("CHOPPER_TZ".into(), zone_arg.clone()));
        } else {
            args.extend(["-z".into(), zone_arg.clone()]);
        }
    }
    o
}

/// other output options for a job whose inputs do not depend on the time zone
pub fn other_output(r: &mut Rng, c: &mut CliCase) -> bool {
    if c.begin.is_some() || c.end.is_some() || c.inputs.iter().flat_map(|i| &i.files).any(|f| matches!(f.enc, Enc::Csv(_))) {
        return false;
    }
    let mut args = vec![];
    let mut it = c.args.iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "-E" | "--epoch" | "-H" => {}
            "-g" | "--print-time" | "--time-col-name" | "-z" => {
                it.next();
            }
            a if a.starts_with("--delimiter=") => {}
            _ => args.push(a.clone()),
        }
    }
    let zone = if r.chance(1, 2) { *r.pick(&ZONES) } else { *r.pick(&MOVING) };
    let mut env = vec![];
    let human = !c.csv_out.epoch;
    let mut o = gen_csv_out(r, &mut args, &mut env, zone, false, human);
    if r.chance(1, 2) && human && !o.epoch {
        // only the time zone differs
        args.retain(|a| !a.starts_with("--delimiter="));
        o.delim = ",".into();
        while let Some(k) = args.iter().position(|a| a == "-g") {
            args.drain(k..k + 2);
        }
        o.gran = c.csv_out.gran.clone();
        args.extend(["-g".into(), o.gran.clone()]);
    }
    c.args = args;
    c.env = env;
    c.csv_out = o;
    true
}

/// names for zones that the program using the library may add
pub fn zone_map() -> std::collections::HashMap<&'static str, chrono_tz::Tz> {
    TZ_MAP.iter().map(|(k, v)| (*k, v.parse().unwrap())).collect()
}
pub const TZ_MAP: [(&str, &str); 4] = [("HQ", "America/New_York"), ("LON", "Europe/London"), ("japan-desk", "Asia/Tokyo"), ("desk 7", "Asia/Kolkata")];

fn zone_text(r: &mut Rng, name: &str) -> String {
    match TZ_MAP.iter().find(|x| x.1 == name) {
        Some(x) if r.chance(1, 2) => x.0.into(),
        _ => name.into(),
    }
}

/// a bound at `ts` or as near as its notation can get: its value, its text, whether it needs a time zone
pub fn range_arg(r: &mut Rng, ts: u64, zone: Zone, tz_ok: bool) -> (u64, String, bool) {
    let digits_ok = |t: u64| (630_000_000_000_000_000..2_000_000_000_000_000_000).contains(&t);
    match r.below(12) {
        0..=4 if digits_ok(ts) => {
            let u = *r.pick(&[1_000_000_000u64, 1_000_000, 1_000, 1, 1, 1]);
            let v = ts / u;
            (v * u, v.to_string(), false)
        }
        // local time
        5..=8 if tz_ok && ts > 3 * DAY && zone.single(ts) => {
            let (y, mo, d, h, mi, s, ns) = model::parts(ts, zone.off(ts));
            let (frac, cut) = match r.below(5) {
                0 => (String::new(), 1_000_000_000),
                1 => (format!(".{:09}", ns), 1),
                2 => (format!(".{:03}", ns / 1_000_000), 1_000_000),
                3 => (format!(".{}", ns / 100_000_000), 100_000_000),
                _ => (format!(".{:06}", ns / 1000), 1000),
            };
            let date = match r.below(3) {
                0 => format!("{:04}{:02}{:02}", y, mo, d),
                1 => format!("{:04}/{:02}/{:02}", y, mo, d),
                _ => format!("{:04}-{:02}-{:02}", y, mo, d),
            };
            let time = if r.chance(1, 2) { format!("{:02}:{:02}:{:02}", h, mi, s) } else { format!("{:02}{:02}{:02}", h, mi, s) };
            (ts - ts % cut, format!("{}{}{}{}", date, r.pick(&[" ", "-", "T"]), time, frac), true)
        }
        // a local day, month or year
        9 | 10 if tz_ok && ts > 400 * DAY => {
            let (y, mo, d, ..) = model::parts(ts, zone.off(ts));
            let at = |y: i64, mo: u32, d: u32| {
                let local = model::days_from_civil(y, mo, d) as i128 * DAY as i128;
                if zone.fixed.is_none() && model::zone_instants(zone.name, local) != 1 {
                    return None;
                }
                // the offset is that of one of the neighbouring days
                [-(DAY as i128), 0, DAY as i128].iter().find_map(|x| {
                    let t = local - zone.off((local + x).max(0) as u64) as i128 * 60_000_000_000;
                    if t >= 0 && t + zone.off(t as u64) as i128 * 60_000_000_000 == local { Some(t as u64) } else { None }
                })
            };
            let (v, s) = match r.below(3) {
                0 => (at(y, mo, d), format!("{:04}{:02}{:02}", y, mo, d)),
                1 => (at(y, mo, 1), format!("{:04}{:02}", y, mo)),
                _ => (at(y, 1, 1), format!("{:04}", y)),
            };
            match v {
                Some(v) => (v, s, true),
                None => (ts, model::human(ts, 0, "ns"), false),
            }
        }
        // outside of what a row's time can be
        11 if r.chance(1, 4) => {
            if r.chance(1, 2) {
                (0, (*r.pick(&["1969-12-31T23:59:59Z", "1960-02-29T00:00:00+00:00", "0001-01-01T00:00:00Z", "1970-01-01T00:30:00+01:00"])).to_string(), false)
            } else {
                (u64::MAX, (*r.pick(&["2600-01-01T00:00:00Z", "9999-12-31T23:59:59Z", "2554-07-21T23:34:34Z"])).to_string(), false)
            }
        }
        _ => {
            let c = *r.pick(&[0, 330, -300]);
            if r.chance(1, 3) {
                // fewer digits
                let (g, cut) = *r.pick(&[("s", 1_000_000_000u64), ("ms", 1_000_000), ("us", 1000)]);
                (ts - ts % cut, model::human(ts, c, g), false)
            } else {
                (ts, model::human(ts, c, "ns"), false)
            }
        }
    }
}

/// where the header line is to be detected, the first two lines must be in the preview
fn settle_header(inputs: &mut [Input], args: &mut Vec<String>) {
    let wants = |f: &FileSpec| matches!(&f.enc, Enc::Csv(e) if e.auto_header);
    // so must the header line where the delimiter is to be detected
    if !args.iter().any(|a| a == "--csv-in-delimiter") {
        let d = inputs.iter().flat_map(|i| i.files.iter()).find_map(|f| match &f.enc {
            Enc::Csv(e) => {
                let (b, _) = f.plain();
                let n = b.iter().position(|c| *c == b'\n').unwrap_or(b.len());
                if n > 8000 { Some(e.delim) } else { None }
            }
            _ => None,
        });
        if let Some(d) = d {
            args.extend(["--csv-in-delimiter".to_string(), d.to_string()]);
        }
    }
    if !inputs.iter().flat_map(|i| i.files.iter()).any(wants) {
        return;
    }
    let ok = inputs.iter().flat_map(|i| i.files.iter()).filter(|f| wants(f)).all(|f| {
        let (b, bounds) = f.plain();
        bounds.len() > 1 && bounds[1] < 8000 && b.len() > 1
    });
    if !ok {
        for f in inputs.iter_mut().flat_map(|i| i.files.iter_mut()) {
            if let Enc::Csv(e) = &mut f.enc {
                e.auto_header = false;
            }
        }
        args.extend(["--csv-in-has-header".to_string(), "yes".to_string()]);
    }
}

fn files_for(r: &mut Rng, k: &Knobs, stem: &str, table: Table, enc: Enc, zip_ok: bool) -> FileSpec {
    let mut cont = Container::Plain;
    if k.checked_only || pct(r, k.cont) {
        cont = gen_container(r, k.checked_only, zip_ok);
    }
    let inner = enc.ext();
    if let Container::Zip { name, .. } = &mut cont {
        *name = format!("data{}", inner);
    }
    FileSpec { stem: stem.into(), table, enc, cont, plan: Plan::default(), damage: vec![] }
}

pub fn gen_cli(r: &mut Rng, k: &Knobs) -> CliCase {
    let mut zone = if r.chance(1, 4) { *r.pick(&MOVING) } else { *r.pick(&ZONES) };
    let tot = k.csv + k.dc + k.mixed;
    let f = r.below(tot);
    let (csv, dc) = if f < k.csv { (true, false) } else if f < k.csv + k.dc { (false, true) } else { (true, true) };
    let many = k.many > 0 && r.chance(1, k.many);
    let long = !many && k.long > 0 && r.chance(1, k.long);
    let n_in = if many { { let hi = *r.pick(&[40usize, 140, 300]); r.ur(13, hi) } } else if r.chance(1, 25) && k.inputs.1 > 2 { r.ur(k.inputs.0, k.inputs.1 * 4) } else { r.ur(k.inputs.0, k.inputs.1) };
    let mut big = pct(r, k.big);
    let mut max_rows = if r.chance(1, 12) { k.max_rows * 8 } else { k.max_rows };
    if n_in > 8 || big {
        max_rows = max_rows.min(30);
    }

    if long {
        big = false;
        max_rows = *r.pick(&[3000usize, 20_000, 70_000]);
    }
    if many {
        max_rows = 6;
    }
    let use_dir = pct(r, k.dir);
    let n_data = if dc && !csv && r.chance(1, 60) { 0 } else { gen_ncols(r, if csv { 0 } else { 1 }) };
    let n_data = if long { n_data.min(if max_rows > 5000 { 3 } else { 20 }) } else if many { n_data.min(3) } else { n_data };
    if n_data > 20 {
        big = false;
        max_rows = max_rows.min(12);
    }
    let plain_names = csv && r.chance(1, 2);
    let mut names = gen_names(r, n_data, plain_names);
    let mut args: Vec<String> = vec![];
    let mut env: Vec<(String, String)> = vec![];
    let mut style = None;
    if csv {
        let detect = !big && pct(r, k.detect);
        let mut st = gen_csv_style(r, &mut names, zone, use_dir, !dc && !use_dir, detect);
        args.extend(st.args.clone());
        if st.kind.local() && !zone.keeps_phase(st.unit) {
            zone = *r.pick(&ZONES);
        }
        st.zone = zone;
        style = Some(st);
    }
    // some cases have mostly nulls
    let nulls = if k.nulls != 16 { k.nulls } else { *r.pick(&[16u64, 16, 16, 16, 16, 0, 50, 90]) };
    let ncols = names.len();
    let types = if csv { vec![Ty::Str; ncols] } else { gen_types(r, ncols) };
    // binary columns stored without a name are read back as col_<i>
    let nameless: Vec<usize> = if dc && !csv && r.chance(1, 8) { (0..ncols).filter(|_| r.chance(1, 3)).collect() } else { vec![] };

    // time domain
    let unit = style.as_ref().map_or(*r.pick(&[1u64, 1, 1000, 1_000_000_000]), |s| s.unit);
    let ranges = pct(r, k.ranges);
    let dc_only = dc && !csv;
    let recent = style.as_ref().map_or(false, |s| s.recent);
    let local = style.as_ref().map_or(false, |s| s.kind.local());
    let (base, max) = match r.below(12) {
        0 | 1 if !recent => (0u64, 7_000_000_000_000_000_000u64),
        2 if dc_only => (r.below(u64::MAX - (1 << 50)), u64::MAX),
        3 if dc_only => (u64::MAX - 20 * unit, u64::MAX),
        4 if !recent => (r.below(6_000_000_000_000_000_000), 7_200_000_000_000_000_000),
        // around the limit of signed numbers
        5 | 6 if dc_only => ((1u64 << 63) - 1 - r.below(10) * unit, u64::MAX),
        5 if !recent && !local => ((1u64 << 63) - 1 - r.below(10) * unit, 1 << 63 | 1 << 62),
        _ => (r.range(946_684_800_000_000_000, 1_600_000_000_000_000_000), 1_990_000_000_000_000_000),
    };
    // naive local times before the epoch would be negative
    let base = if local { base.max(DAY * 3) } else { base };
    // near a change of the offset
    let base = match zone.change(base) {
        Some(t) if base > 0 && t < max && r.chance(2, 3) => t - r.below(40).min(t / unit / 2) * unit * *r.pick(&[1u64, 1, 60]).min(&(t / unit / 100).max(1)),
        _ => base,
    };
    // whole units in local time
    let phase = if local { (base as i128 + zone.off(base) as i128 * 60_000_000_000).rem_euclid(unit as i128) as u64 } else { base % unit };
    let base = base - phase;

    let use_stdin = n_in == 1 && !use_dir && pct(r, k.stdin);
    let mut any_http = false;
    let mut inputs = Vec::new();
    let mut all_ts: Vec<u64> = vec![];
    for i in 0..n_in {
        let is_csv = csv && (!dc || r.chance(1, 2));
        let rows_n = if pct(r, k.empty) { 0 } else { r.skew(max_rows) };
        let rows_n = if long && (i == 0 || r.chance(1, 6)) { r.range(max_rows as u64 * 4 / 5, max_rows as u64) as usize } else if long { rows_n.min(300) } else { rows_n };
        // an input whose header is needed but that has no rows at all is only unambiguous with a header
        let rows_n = if is_csv && (!style.as_ref().unwrap().enc.header || style.as_ref().unwrap().enc.auto_header) { rows_n.max(1) } else { rows_n };
        let mut ts = gen_ts(r, rows_n, base, unit, max);
        if local && zone.fixed.is_none() {
            // local times of two instants are refused: move them behind
            for t in ts.iter_mut() {
                let mut k = 0;
                while !zone.single(*t) && k < 10 {
                    let c = *t - *t % 1_800_000_000_000 + 1_800_000_000_000;
                    *t = c - c % unit + *t % unit;
                    k += 1;
                }
            }
            ts.sort();
        }
        if !ranges && ts.len() > 1 && r.chance(1, 20) {
            // an input that is not in order keeps its own order
            match r.below(3) {
                0 => r.shuffle(&mut ts),
                1 => ts.reverse(),
                _ => {
                    let (a, b) = (r.us(ts.len()), r.us(ts.len()));
                    ts.swap(a, b);
                }
            }
        }
        all_ts.extend(&ts);
        let shorts = pct(r, k.short_records) && is_csv;
        let rows: Vec<Row> = ts
            .iter()
            .enumerate()
            .map(|(j, t)| {
                if csv {
                    let st = style.as_ref().unwrap();
                    let short = shorts && is_csv && r.chance(1, 2) && (j > 0 || st.enc.header);
                    csv_row(r, st, ncols, *t, big, short, nulls)
                } else {
                    Row { ts: *t, v: types.iter().map(|ty| gen_value_n(r, *ty, big, nulls)).collect() }
                }
            })
            .collect();
        let table = Table { names: names.clone(), types: types.clone(), rows };
        let enc = if is_csv {
            Enc::Csv(style.as_ref().unwrap().enc.clone())
        } else if nameless.is_empty() && r.chance(1, 9) {
            Enc::User(crate::usrc::UserEnc { like_csv: r.chance(1, 2), ..Default::default() })
        } else {
            Enc::Dc(DcEnc {
                user: if r.chance(1, 3) { vec![b'u'; *r.pick(&[1usize, 1, 7, 7, 200, 9000, 20_000, 70_000])] } else { vec![] },
                hints: if r.chance(1, 3) { (0..ncols).map(|_| r.below(8) as i32 - 1).collect() } else { vec![] },
                nameless: nameless.clone(),
                long_form: r.chance(1, 8),
            })
        };
        let stem = format!("in{}", i);
        let dir_here = use_dir && (i == 0 || r.chance(1, 3));
        if dir_here {
            inputs.push(gen_dir(r, k, &format!("d{}", i), table, enc, style.as_ref().map_or(true, |s| s.enc.header)));
            continue;
        }
        let loc = if use_stdin {
            Loc::Stdin
        } else if pct(r, k.http) {
            any_http = true;
            Loc::Http(gen_http(r, i))
        } else if pct(r, k.custom) {
            Loc::Custom
        } else {
            Loc::File
        };
        let zip_ok = matches!(loc, Loc::File);
        let f = files_for(r, k, &stem, table, enc, zip_ok);
        let route = gen_route(r, k, &loc, is_csv, &f);
        let mut f = f;
        lead(r, route, &mut f);
        inputs.push(Input { loc, route, files: vec![f], list: None });
    }
    // content detection of text needs at least one complete line; nothing to detect in a huge first line
    let mut need_tz = local;
    let (mut begin, mut end) = (None, None);
    let mut range_args: Vec<String> = vec![];
    if ranges {
        let mut point = |r: &mut Rng| -> u64 {
            if all_ts.is_empty() || r.chance(1, 8) {
                return base.saturating_add(r.below(50) * unit);
            }
            let t = *r.pick(&all_ts);
            match r.below(4) {
                0 => t.saturating_sub(1),
                1 => t.saturating_add(1),
                _ => t,
            }
        };
        if r.chance(2, 3) {
            let p = point(r);
            let (v, s, tz) = range_arg(r, p, zone, true);
            begin = Some(v);
            need_tz |= tz;
            range_args.extend([(*r.pick(&["-b", "--begin"])).to_string(), s]);
        }
        if begin.is_none() || r.chance(2, 3) {
            let p = point(r);
            let (v, s, tz) = range_arg(r, p, zone, true);
            end = Some(v);
            need_tz |= tz;
            range_args.extend([(*r.pick(&["-e", "--end"])).to_string(), s]);
        }
    }
    if r.chance(1, 50) {
        args.push("--backtrace".into());
    }
    let csv_out = gen_csv_out(r, &mut args, &mut env, zone, need_tz, true);
    args.extend(range_args);
    settle_header(&mut inputs, &mut args);
    let out = if pct(r, k.stdout) && !pct(r, k.out_dc) {
        None
    } else if pct(r, k.out_dc) {
        Some("out.dc".to_string())
    } else {
        Some("out.csv".to_string())
    };
    let old_out = if out.is_some() && pct(r, k.old_out) { Some(Old::Fill(b'Z', r.skew(60_000) as u32)) } else { None };
    let sched = gen_sched(r, k.benign, any_http);
    let mut c = CliCase {
        inputs,
        args,
        env,
        inputs_last: r.chance(1, 3) && !use_stdin,
        out,
        old_out,
        csv_out,
        begin,
        end,
        ts_col: style.as_ref().map(|s| s.ts[0]),
        sched,
        faults: vec![],
        bad_row: None,
        unmodelled: false,
        lib: None,
    };
    if r.chance(1, 30) && c.inputs.iter().all(|i| i.list.is_none() && i.files.iter().all(|f| matches!(f.enc, Enc::Dc(_)))) {
        // a header that no buffer holds
        let n = c.inputs.iter().flat_map(|i| &i.files).map(|f| f.table.names.len()).max().unwrap_or(0).max(1);
        let k = (*r.pick(&[3000usize, 8200, 9000, 20_000, 70_000]) / n).min(60_000);
        for f in c.inputs.iter_mut().flat_map(|i| &mut i.files) {
            for name in &mut f.table.names {
                name.extend(std::iter::repeat('~').take(k));
            }
        }
    }
    perturb(r, &mut c, k.benign);
    c
}

/// give the streams of a case a random delivery
pub fn perturb(r: &mut Rng, c: &mut CliCase, benign: u64) {
    for i in &mut c.inputs {
        let http = matches!(i.loc, Loc::Http(_));
        for f in &mut i.files {
            if pct(r, benign) {
                let len = f.bytes().len() as u64;
                f.plan = gen_plan(r, len, true);
            } else {
                f.plan = Plan::default();
            }
        }
    }
}

/// where a name tells the format, user data may come before everything else
fn lead(r: &mut Rng, route: Route, f: &mut FileSpec) {
    if let (true, Container::Lz4 { skip, .. } | Container::Zst { skip, .. }) = (route != Route::Content, &mut f.cont) {
        if !skip.is_empty() && r.chance(1, 2) {
            skip[0].at = 0;
        }
    }
}

fn gen_route(r: &mut Rng, k: &Knobs, loc: &Loc, is_csv: bool, f: &FileSpec) -> Route {
    let _ = (is_csv, f);
    if matches!(loc, Loc::Stdin) {
        return *r.pick(&[Route::User, Route::Content]);
    }
    if !pct(r, k.routes) {
        return Route::Name;
    }
    *r.pick(&[Route::User, Route::Content, Route::NameThenContent])
}

/// base names that are close to each other, so that the order of whole paths, of names without
/// extension and of creation differ
fn dir_stems(r: &mut Rng, n: usize) -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    let related = r.chance(1, 2);
    for i in 0..n {
        let base = if related && !v.is_empty() && r.chance(2, 3) {
            r.pick(&v).clone()
        } else {
            match r.below(6) {
                0 => format!("{}", i * 7 % 100),
                1 => format!("f{:02}", i),
                2 => format!("F{}", alpha(i)),
                3 => format!("{}-part", alpha(i)),
                4 => format!("{}", r.below(12)),
                _ => "day".to_string(),
            }
        };
        v.push(match r.below(12) {
            0 => format!("{}-1", base),
            1 => format!("{} x", base),
            2 => format!("{}+", base),
            3 => format!("{}!", base),
            4 => format!("{},b", base),
            5 => format!("{}#", base),
            6 => format!(".{}", base),
            7 => format!("{}.1", base),
            8 => format!("{}é", base),
            9 => format!("{}2", base),
            _ => base,
        });
    }
    v
}

/// a directory whose files in name order hold the rows of `t`
pub fn gen_dir(r: &mut Rng, k: &Knobs, path: &str, t: Table, enc: Enc, may_reorder: bool) -> Input {
    let n = match r.below(10) {
        0 => 1,
        1..=7 => r.ur(2, 4),
        8 if k.many > 0 && r.chance(1, 40) => r.ur(13, 120),
        _ => r.ur(5, 12),
    };
    let route = if pct(r, k.routes) { *r.pick(&[Route::Content, Route::NameThenContent]) } else { Route::Name };
    let mut files: Vec<FileSpec> = dir_stems(r, n).into_iter().map(|stem| files_for(r, k, &stem, Table::default(), enc.clone(), true)).collect();
    files.iter_mut().for_each(|f| lead(r, route, f));
    let mut seen: Vec<String> = vec![];
    files.retain(|f| {
        let n = f.file_name(route);
        let dup = seen.contains(&n);
        seen.push(n);
        !dup
    });
    files.sort_by(|a, b| a.file_name(route).as_bytes().cmp(b.file_name(route).as_bytes()));
    // distribute rows
    let total = t.rows.len();
    // without a header line, or where its presence is detected, every file needs a record
    let need = match &enc {
        Enc::Csv(e) if e.auto_header => 1,
        Enc::Csv(e) if !e.header => 1,
        _ => 0,
    };
    if need > 0 {
        files.truncate(total.max(1));
    }
    let n = files.len();
    let mut cuts: Vec<usize> = (0..n - 1).map(|_| r.us(total + 1)).collect();
    if need > 0 {
        let mut all: Vec<usize> = (1..total.max(1)).collect();
        r.shuffle(&mut all);
        cuts = all[..n - 1].to_vec();
    }
    cuts.sort();
    cuts.push(total);
    let nameless = matches!(&enc, Enc::Dc(e) if !e.nameless.is_empty());
    let mut from = 0;
    for (i, f) in files.iter_mut().enumerate() {
        let mut part = Table { names: t.names.clone(), types: t.types.clone(), rows: t.rows[from..cuts[i]].to_vec() };
        from = cuts[i];
        // later files may have other column orders and extra columns
        if may_reorder && !nameless && i > 0 {
            if r.chance(1, 3) {
                let mut perm: Vec<usize> = (0..part.names.len()).collect();
                r.shuffle(&mut perm);
                part = permute(&part, &perm);
            }
            if r.chance(1, 3) {
                let extra = r.ur(1, 3);
                for e in 0..extra {
                    let at = if r.chance(1, 2) { part.names.len() } else { r.us(part.names.len() + 1) };
                    part.names.insert(at, format!("zz{}{}", e, i));
                    part.types.insert(at, Ty::Str);
                    for row in &mut part.rows {
                        let w = format!("extra{}", r.below(100));
                        while row.v.len() < at {
                            row.v.push(V::N);
                        }
                        row.v.insert(at, V::T(w));
                    }
                }
            }
        }
        f.table = part;
        if let Enc::Dc(e) = &mut f.enc {
            e.hints.clear();
        }
    }
    // the listing order is arbitrary
    r.shuffle(&mut files);
    let order: Vec<usize> = (0..files.len()).collect();
    let mut order = order;
    r.shuffle(&mut order);
    let subdirs: Vec<String> = if r.chance(1, 3) { (0..r.ur(1, 3)).map(|i| if r.chance(1, 2) { format!("sub{}", i) } else { format!("{}sub.csv", i) }).collect() } else { vec![] };
    for i in 0..subdirs.len() {
        let at = r.us(order.len() + 1);
        order.insert(at, files.len() + i);
    }
    Input { loc: Loc::Dir { path: path.into(), order, subdirs }, route, files, list: None }
}

pub fn permute(t: &Table, perm: &[usize]) -> Table {
    Table {
        names: perm.iter().map(|i| t.names[*i].clone()).collect(),
        types: perm.iter().map(|i| t.types[*i]).collect(),
        rows: t.rows.iter().map(|r| Row { ts: r.ts, v: perm.iter().map(|i| r.v.get(*i).cloned().unwrap_or(V::N)).collect() }).collect(),
    }
}

/// A value of an option that is declared to take yes and no in upper case and lower case.
fn yes_no(r: &mut Rng, v: bool) -> String {
    let s = if v { "yes" } else { "no" };
    match r.below(6) {
        0 => s.to_uppercase(),
        1 => s[..1].to_uppercase() + &s[1..],
        _ => s.into(),
    }
}
