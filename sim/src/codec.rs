//! Encoders for every container chopper reads. gzip, deflate, bzip2 and lz4-frame payloads come
//! from the same crates' encoders; zip, LZ4Block, lzf and zstd framing is written here.
use serde::{Deserialize, Serialize};
use std::io::Write;

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub enum Container {
    Plain,
    /// member lengths (the last member takes the rest); optional header fields
    Gz { members: Vec<u32>, level: u32, name: bool, extra: u16, comment: bool },
    Zip { method: u16, name: String, comment: u16, descriptor: bool, extra: u16, zip64: bool, utf8: bool,
        /// variations of the records that change nothing about the data (bits, see `zip`)
        #[serde(default)]
        shape: u16,
    },
    Lz4 { frames: Vec<u32>, block: u32, independent: bool, bsum: bool, csum: bool, csize: bool,
        #[serde(default, skip_serializing_if = "Vec::is_empty")]
        skip: Vec<Skip>,
    },
    Lz4Block { level: u8, block: u32, compress: bool },
    Lzf { block: u32, compress: bool },
    Zst { frames: Vec<u32>, block: u32, rle: bool, csum: bool, single: bool, csize: u8, window: u8,
        #[serde(default, skip_serializing_if = "Vec::is_empty")]
        skip: Vec<Skip>,
    },
    /// bytes produced by the zstd tool (Huffman/FSE blocks); the data is the fixture's plain text
    ZstFixture { which: usize },
}

/// a frame of user data that readers ignore
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Skip {
    /// number of frames of data before it
    pub at: usize,
    /// last digit of its magic number
    pub kind: u8,
    pub len: u32,
}

fn skips(o: &mut Vec<u8>, cuts: &mut Vec<u64>, skip: &[Skip], at: std::ops::RangeInclusive<usize>) {
    for s in skip.iter().filter(|s| at.contains(&s.at)) {
        o.extend_from_slice(&(0x184D_2A50u32 | (s.kind & 15) as u32).to_le_bytes());
        o.extend_from_slice(&s.len.to_le_bytes());
        // what is in there may look like anything
        let look = [&b"\x04\x22\x4d\x18"[..], b"\x28\xb5\x2f\xfd", b"\x50\x2a\x4d\x18\x01\0\0\0", b"a,b\n1,2\n"][s.kind as usize % 4];
        o.extend(look.iter().cycle().take(s.len as usize));
        cuts.push(o.len() as u64);
    }
}

impl Container {
    pub fn ext(&self) -> &'static str {
        match self {
            Container::Plain => "",
            Container::Gz { .. } => ".gz",
            Container::Zip { .. } => ".zip",
            Container::Lz4 { .. } | Container::Lz4Block { .. } => ".lz4",
            Container::Lzf { .. } => ".lzf",
            Container::Zst { .. } | Container::ZstFixture { .. } => ".zst",
        }
    }
    /// integrity information covers the whole payload
    pub fn checked(&self) -> bool {
        match self {
            Container::Plain | Container::Lzf { .. } => false,
            Container::Gz { .. } | Container::Zip { .. } | Container::Lz4Block { .. } => true,
            Container::Lz4 { csum, bsum, skip, .. } => (*csum || *bsum) && skip.is_empty(),
            Container::Zst { csum, skip, .. } => *csum && skip.is_empty(),
            Container::ZstFixture { which } => *which != 2,
        }
    }
    /// not the archive of one file that can be read
    pub fn refused(&self) -> bool {
        matches!(self, Container::Zip { shape, .. } if shape >> 10 & 0x37 != 0)
    }
    /// a file cut anywhere inside is recognisably incomplete
    pub fn has_end_mark(&self) -> bool {
        !matches!(self, Container::Plain | Container::Lzf { .. })
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Container::Plain => "plain",
            Container::Gz { .. } => "gz",
            Container::Zip { .. } => "zip",
            Container::Lz4 { .. } => "lz4",
            Container::Lz4Block { .. } => "lz4block",
            Container::Lzf { .. } => "lzf",
            Container::Zst { .. } => "zst",
            Container::ZstFixture { .. } => "zst_tool",
        }
    }
}

fn pieces<'a>(data: &'a [u8], cuts: &[u32]) -> Vec<&'a [u8]> {
    let mut v = Vec::new();
    let mut p = 0usize;
    for c in cuts {
        let e = (p + *c as usize).min(data.len());
        v.push(&data[p..e]);
        p = e;
    }
    v.push(&data[p..]);
    v
}

pub struct Encoded {
    pub bytes: Vec<u8>,
    /// offsets at which a cut leaves a complete shorter file (frame/member/chunk ends)
    pub clean_cuts: Vec<u64>,
}

pub fn encode(c: &Container, data: &[u8]) -> Encoded {
    let mut o = Vec::new();
    let mut cuts = Vec::new();
    match c {
        Container::Plain => o = data.to_vec(),
        Container::Gz { members, level, name, extra, comment } => {
            for p in pieces(data, members) {
                let mut b = flate2::GzBuilder::new().mtime(0);
                if *name {
                    b = b.filename("data.csv");
                }
                if *comment {
                    b = b.comment("a comment");
                }
                if *extra > 0 {
                    b = b.extra(vec![7u8; *extra as usize]);
                }
                let mut w = b.write(Vec::new(), flate2::Compression::new(*level));
                w.write_all(p).unwrap();
                o.extend_from_slice(&w.finish().unwrap());
                cuts.push(o.len() as u64);
            }
        }
        Container::Zip { method, name, comment, descriptor, extra, zip64, utf8, shape } => {
            o = zip(data, *method, name, *comment, *descriptor, *extra, *zip64, *utf8, *shape);
        }
        Container::Lz4 { frames, block, independent, bsum, csum, csize, skip } => {
            for (k, p) in pieces(data, frames).into_iter().enumerate() {
                skips(&mut o, &mut cuts, skip, k..=k);
                let mut s = lz_fear::framed::CompressionSettings::default();
                s.independent_blocks(*independent).block_checksums(*bsum).content_checksum(*csum).block_size(*block as usize);
                if *csize {
                    s.compress_with_size(&mut std::io::Cursor::new(p), &mut o).unwrap();
                } else {
                    s.compress(p, &mut o).unwrap();
                }
                cuts.push(o.len() as u64);
            }
            skips(&mut o, &mut cuts, skip, frames.len() + 1..=usize::MAX);
        }
        Container::Lz4Block { level, block, compress } => {
            let max = (1usize << (10 + *level as usize)).min(*block as usize).max(1);
            for p in data.chunks(max) {
                let (m, body) = if *compress {
                    let c = lz4_raw(p);
                    (0x20u8, c)
                } else {
                    (0x10u8, p.to_vec())
                };
                o.extend_from_slice(b"LZ4Block");
                o.push(m | level);
                o.extend_from_slice(&(body.len() as u32).to_le_bytes());
                o.extend_from_slice(&(p.len() as u32).to_le_bytes());
                o.extend_from_slice(&(xxh32(p, 0x9747_b28c) & 0x0fff_ffff).to_le_bytes());
                o.extend_from_slice(&body);
            }
            o.extend_from_slice(b"LZ4Block");
            o.push(0x10 | level);
            o.extend_from_slice(&[0; 12]);
            cuts.push(o.len() as u64);
        }
        Container::Lzf { block, compress } => {
            for p in data.chunks((*block as usize).clamp(1, 65535)) {
                let c = if *compress { lzf(p) } else { vec![] };
                if *compress && c.len() <= 65535 {
                    o.extend_from_slice(b"ZV\x01");
                    o.extend_from_slice(&(c.len() as u16).to_be_bytes());
                    o.extend_from_slice(&(p.len() as u16).to_be_bytes());
                    o.extend_from_slice(&c);
                } else {
                    o.extend_from_slice(b"ZV\x00");
                    o.extend_from_slice(&(p.len() as u16).to_be_bytes());
                    o.extend_from_slice(p);
                }
                cuts.push(o.len() as u64);
            }
        }
        Container::Zst { frames, block, rle, csum, single, csize, window, skip } => {
            for (k, p) in pieces(data, frames).into_iter().enumerate() {
                skips(&mut o, &mut cuts, skip, k..=k);
                zst_frame(&mut o, p, *block as usize, *rle, *csum, *single, *csize, *window);
                cuts.push(o.len() as u64);
            }
            skips(&mut o, &mut cuts, skip, frames.len() + 1..=usize::MAX);
        }
        Container::ZstFixture { which } => o = FIXTURES[*which].0.to_vec(),
    }
    Encoded { bytes: o, clean_cuts: cuts }
}

/// where the parts of a container begin and end: blocks, headers, check sums, directories
pub fn part_starts(c: &Container, b: &[u8]) -> Vec<u64> {
    let find = |sig: &[u8]| -> Vec<u64> { (0..b.len().saturating_sub(sig.len() - 1)).filter(|i| b[*i..].starts_with(sig)).map(|i| i as u64).collect() };
    let le = |p: usize, n: usize| -> Option<u64> { b.get(p..p + n).map(|x| x.iter().rev().fold(0u64, |a, y| a << 8 | *y as u64)) };
    let mut v = Vec::new();
    match c {
        Container::Lz4Block { .. } => {
            for x in find(b"LZ4Block") {
                v.extend([x, x, x + 8, x + 21]);
            }
        }
        Container::Lzf { .. } => v.extend(find(b"ZV").into_iter().flat_map(|x| [x, x + 3, x + 5, x + 7])),
        Container::Zip { .. } => {
            for sig in [&b"PK\x01\x02"[..], b"PK\x05\x06", b"PK\x06\x06", b"PK\x06\x07", b"PK\x07\x08"] {
                v.extend(find(sig).into_iter().flat_map(|x| [x, x, x + 4]));
            }
        }
        Container::Gz { .. } => v.extend(find(b"\x1f\x8b\x08").into_iter().flat_map(|x| [x, x.saturating_sub(4), x.saturating_sub(8), x + 10])),
        Container::Lz4 { bsum, csum, csize, .. } => {
            let mut p = 0usize;
            while p < b.len() {
                v.push(p as u64);
                if let (Some(0x0184_D2A5), Some(n)) = (le(p, 4).map(|m| m >> 4), le(p + 4, 4)) {
                    v.extend([p as u64 + 4, p as u64 + 8]);
                    p += 8 + n as usize;
                    continue;
                }
                p += 7 + if *csize { 8 } else { 0 };
                loop {
                    v.push(p as u64);
                    let Some(n) = le(p, 4) else { return v };
                    p += 4;
                    if n == 0 {
                        break;
                    }
                    p += (n & 0x7fff_ffff) as usize + if *bsum { 4 } else { 0 };
                }
                v.push(p as u64);
                p += if *csum { 4 } else { 0 };
            }
        }
        Container::Zst { .. } | Container::ZstFixture { .. } => {
            let mut p = 0usize;
            while p < b.len() {
                v.push(p as u64);
                if let (Some(0x0184_D2A5), Some(n)) = (le(p, 4).map(|m| m >> 4), le(p + 4, 4)) {
                    v.extend([p as u64 + 4, p as u64 + 8]);
                    p += 8 + n as usize;
                    continue;
                }
                let Some(d) = le(p + 4, 1) else { return v };
                let single = d & 0x20 != 0;
                p += 5 + if single { 0 } else { 1 } + [0, 1, 2, 4][(d & 3) as usize] + match d >> 6 {
                    0 => single as usize,
                    1 => 2,
                    2 => 4,
                    _ => 8,
                };
                loop {
                    v.push(p as u64);
                    let Some(h) = le(p, 3) else { return v };
                    p += 3 + if (h >> 1) & 3 == 1 { 1 } else { (h >> 3) as usize };
                    if h & 1 != 0 {
                        break;
                    }
                }
                v.push(p as u64);
                p += if d & 4 != 0 { 4 } else { 0 };
            }
        }
        Container::Plain => {}
    }
    v.retain(|x| *x < b.len() as u64);
    v
}

pub const FIXTURES: [(&[u8], &[u8]); 3] = [
    (include_bytes!("../fixtures/a.csv.zst"), include_bytes!("../fixtures/a.csv")),
    (include_bytes!("../fixtures/b.csv.zst"), include_bytes!("../fixtures/b.csv")),
    (include_bytes!("../fixtures/c.csv.zst"), include_bytes!("../fixtures/c.csv")),
];

// ---------------------------------------------------------------- zip

/// bits of `shape`: 0 an unknown extra field before and 1 after the others, 2 different extra fields in
/// the local header, 3 header offset in the zip64 field, 4 attributes, times and versions, 5 a file
/// comment, 6 zip64 for the plain size only, 7 zip64 end records but plain sizes, 8 zip64 local header,
/// 9 very many extra fields, 13 number of the disk in the zip64 field, and what must be refused: 10 two files,
/// 11 encrypted, 12 an unknown method, 14 and 15 (a part is) on another disk
#[allow(clippy::too_many_arguments)]
fn zip(data: &[u8], method: u16, name: &str, comment: u16, descriptor: bool, extra: u16, zip64: bool, utf8: bool, shape: u16) -> Vec<u8> {
    let body = match method {
        8 => {
            let mut w = flate2::write::DeflateEncoder::new(Vec::new(), flate2::Compression::new(6));
            w.write_all(data).unwrap();
            w.finish().unwrap()
        }
        12 => {
            let mut w = bzip2::write::BzEncoder::new(Vec::new(), bzip2::Compression::new(1));
            w.write_all(data).unwrap();
            w.finish().unwrap()
        }
        _ => data.to_vec(),
    };
    let mut h = crc32fast::Hasher::new();
    h.update(data);
    let crc = h.finalize();
    let bit = |n: u16| shape & (1 << n) != 0;
    let flags: u16 = (descriptor as u16) << 3 | (utf8 as u16) << 11 | bit(11) as u16;
    let method = if bit(12) { 14 } else { method };
    let mut o = Vec::new();
    let le16 = |o: &mut Vec<u8>, v: u16| o.extend_from_slice(&v.to_le_bytes());
    let le32 = |o: &mut Vec<u8>, v: u32| o.extend_from_slice(&v.to_le_bytes());
    let le64 = |o: &mut Vec<u8>, v: u64| o.extend_from_slice(&v.to_le_bytes());
    let nb = name.as_bytes();
    // an extra field is a 4-byte sub-header and its data
    let field = |id: u16, d: &[u8]| {
        let mut e = id.to_le_bytes().to_vec();
        e.extend_from_slice(&(d.len() as u16).to_le_bytes());
        e.extend_from_slice(d);
        e
    };
    let stamp = |n: u16| if n > 0 { field(0x5455, &vec![1u8; n as usize]) } else { vec![] };
    let (version, time, date) = if bit(4) { (45u16, 0x6c2fu16, 0x5621u16) } else { (20, 0, 0) };
    let mut lextra = Vec::new();
    if bit(2) {
        lextra.extend(field(0x7875, &[1, 4, 0, 0, 0, 0, 4, 0, 0, 0, 0]));
    }
    lextra.extend(stamp(extra));
    let local64 = bit(8) && !descriptor;
    if local64 {
        let mut d = (data.len() as u64).to_le_bytes().to_vec();
        d.extend_from_slice(&(body.len() as u64).to_le_bytes());
        lextra.extend(field(1, &d));
    }
    if bit(2) {
        lextra.extend(field(0xa220, &[0; 7]));
    }
    le32(&mut o, 0x0403_4b50);
    le16(&mut o, version);
    le16(&mut o, flags);
    le16(&mut o, method);
    le16(&mut o, time);
    le16(&mut o, date);
    if descriptor {
        le32(&mut o, 0);
        le32(&mut o, 0);
        le32(&mut o, 0);
    } else {
        le32(&mut o, crc);
        le32(&mut o, if local64 { u32::MAX } else { body.len() as u32 });
        le32(&mut o, if local64 { u32::MAX } else { data.len() as u32 });
    }
    le16(&mut o, nb.len() as u16);
    le16(&mut o, lextra.len() as u16);
    o.extend_from_slice(nb);
    o.extend_from_slice(&lextra);
    o.extend_from_slice(&body);
    if descriptor {
        le32(&mut o, 0x0807_4b50);
        le32(&mut o, crc);
        le32(&mut o, body.len() as u32);
        le32(&mut o, data.len() as u32);
    }
    let two = bit(10);
    let at2 = o.len();
    if two {
        le32(&mut o, 0x0403_4b50);
        for x in [20, 0, 0, 0, 0] {
            le16(&mut o, x);
        }
        le32(&mut o, crc);
        le32(&mut o, data.len() as u32);
        le32(&mut o, data.len() as u32);
        le16(&mut o, 9);
        le16(&mut o, 0);
        o.extend_from_slice(b"other.csv");
        o.extend_from_slice(data);
    }
    let cd = o.len();
    let big_plain = zip64 && !bit(7);
    let big_body = big_plain && !bit(6);
    let big_off = big_plain && bit(3);
    let disk64 = big_plain && bit(13) && !bit(15);
    // which of the records speaks of another disk
    let other = if bit(14) { 1 + zip64 as u32 * (1 + (data.len() & 1) as u32) } else { 0 };
    let mut cextra = Vec::new();
    if bit(0) {
        cextra.extend(field(0x7075, &[9; 13]));
        cextra.extend(field(0xcafe, &[]));
    }
    if bit(9) {
        for i in 0..450 {
            cextra.extend(field(0x4000 + i, &[]));
        }
    }
    if big_plain {
        let mut d = (data.len() as u64).to_le_bytes().to_vec();
        if big_body {
            d.extend_from_slice(&(body.len() as u64).to_le_bytes());
        }
        if big_off {
            d.extend_from_slice(&0u64.to_le_bytes());
        }
        if disk64 {
            d.extend_from_slice(&0u32.to_le_bytes());
        }
        cextra.extend(field(1, &d));
    }
    cextra.extend(stamp(extra));
    if bit(1) {
        cextra.extend(field(0x000a, &[0; 32]));
    }
    let note: &[u8] = if bit(5) { b"a note about this very file, no more" } else { b"" };
    le32(&mut o, 0x0201_4b50);
    le16(&mut o, if bit(4) { 3 << 8 | 63 } else { 20 });
    le16(&mut o, version);
    le16(&mut o, flags);
    le16(&mut o, method);
    le16(&mut o, time);
    le16(&mut o, date);
    le32(&mut o, crc);
    le32(&mut o, if big_body { u32::MAX } else { body.len() as u32 });
    le32(&mut o, if big_plain { u32::MAX } else { data.len() as u32 });
    le16(&mut o, nb.len() as u16);
    le16(&mut o, cextra.len() as u16);
    le16(&mut o, note.len() as u16);
    le16(&mut o, if disk64 { 0xffff } else { bit(15) as u16 });
    le16(&mut o, bit(4) as u16);
    le32(&mut o, if bit(4) { 0x81a4_0020 } else { 0 });
    le32(&mut o, if big_off { u32::MAX } else { 0 });
    o.extend_from_slice(nb);
    o.extend_from_slice(&cextra);
    o.extend_from_slice(note);
    if two {
        le32(&mut o, 0x0201_4b50);
        for x in [20, 20, 0, 0, 0, 0] {
            le16(&mut o, x);
        }
        le32(&mut o, crc);
        le32(&mut o, data.len() as u32);
        le32(&mut o, data.len() as u32);
        for x in [9, 0, 0, 0, 0] {
            le16(&mut o, x);
        }
        le32(&mut o, 0);
        le32(&mut o, at2 as u32);
        o.extend_from_slice(b"other.csv");
    }
    let count = 1 + two as u16;
    let cdlen = o.len() - cd;
    if zip64 {
        let z = o.len();
        le32(&mut o, 0x0606_4b50);
        le64(&mut o, 44);
        le16(&mut o, 45);
        le16(&mut o, 45);
        le32(&mut o, (other == 2) as u32);
        le32(&mut o, (other == 2) as u32);
        le64(&mut o, count as u64);
        le64(&mut o, count as u64);
        le64(&mut o, cdlen as u64);
        le64(&mut o, cd as u64);
        le32(&mut o, 0x0706_4b50);
        le32(&mut o, 0);
        le64(&mut o, z as u64);
        le32(&mut o, 1 + (other == 3) as u32);
    }
    le32(&mut o, 0x0605_4b50);
    le16(&mut o, (other == 1) as u16);
    le16(&mut o, (other == 1) as u16);
    le16(&mut o, count);
    le16(&mut o, count);
    le32(&mut o, cdlen as u32);
    le32(&mut o, if zip64 { u32::MAX } else { cd as u32 });
    le16(&mut o, comment);
    o.extend(std::iter::repeat(b'c').take(comment as usize));
    o
}

// ---------------------------------------------------------------- lz4 raw block (greedy)

fn lz4_raw(d: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    let n = d.len();
    let mut table = std::collections::HashMap::<[u8; 4], usize>::new();
    let mut anchor = 0usize;
    let mut i = 0usize;
    let num = |o: &mut Vec<u8>, mut v: usize| {
        while v >= 255 {
            o.push(255);
            v -= 255;
        }
        o.push(v as u8);
    };
    // the last match must start 12 bytes before the end, the last 5 bytes are literals
    while n >= 13 && i + 12 < n {
        let key: [u8; 4] = d[i..i + 4].try_into().unwrap();
        let cand = table.insert(key, i);
        if let Some(c) = cand {
            if i - c <= 65535 {
                let mut l = 4;
                while i + l < n - 5 && d[c + l] == d[i + l] {
                    l += 1;
                }
                let lit = i - anchor;
                o.push(((lit.min(15) as u8) << 4) | ((l - 4).min(15) as u8));
                if lit >= 15 {
                    num(&mut o, lit - 15);
                }
                o.extend_from_slice(&d[anchor..i]);
                o.extend_from_slice(&((i - c) as u16).to_le_bytes());
                if l - 4 >= 15 {
                    num(&mut o, l - 4 - 15);
                }
                i += l;
                anchor = i;
                continue;
            }
        }
        i += 1;
    }
    // chopper's decoder follows lz4-java: the final literals must reach within 8 bytes of the end
    let lit = n - anchor;
    o.push((lit.min(15) as u8) << 4);
    if lit >= 15 {
        num(&mut o, lit - 15);
    }
    o.extend_from_slice(&d[anchor..]);
    o
}

// ---------------------------------------------------------------- lzf

fn lzf(d: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    let n = d.len();
    let mut table = std::collections::HashMap::<[u8; 3], usize>::new();
    let mut anchor = 0usize;
    let mut i = 0usize;
    let lits = |o: &mut Vec<u8>, s: &[u8]| {
        for c in s.chunks(32) {
            o.push(c.len() as u8 - 1);
            o.extend_from_slice(c);
        }
    };
    while i + 3 <= n {
        let key: [u8; 3] = d[i..i + 3].try_into().unwrap();
        let cand = table.insert(key, i);
        if let Some(c) = cand {
            let off = i - c - 1;
            if off < 8192 {
                let mut l = 3;
                while i + l < n && l < 264 && d[c + l] == d[i + l] {
                    l += 1;
                }
                lits(&mut o, &d[anchor..i]);
                let run = l - 2;
                if run < 7 {
                    o.push(((run as u8) << 5) | (off >> 8) as u8);
                } else {
                    o.push(7 << 5 | (off >> 8) as u8);
                    o.push((run - 7) as u8);
                }
                o.push(off as u8);
                i += l;
                anchor = i;
                continue;
            }
        }
        i += 1;
    }
    lits(&mut o, &d[anchor..]);
    o
}

// ---------------------------------------------------------------- zstd framing (raw and RLE blocks)

#[allow(clippy::too_many_arguments)]
fn zst_frame(o: &mut Vec<u8>, d: &[u8], block: usize, rle: bool, csum: bool, single: bool, csize: u8, window: u8) {
    let block = block.clamp(1, 128 << 10);
    o.extend_from_slice(&0xFD2F_B528u32.to_le_bytes());
    // content size field: 0 none (1 byte when single segment), 1: 2 bytes, 2: 4 bytes, 3: 8 bytes
    let mut fcs = csize & 3;
    if fcs == 1 && (d.len() < 256 || d.len() > 65535 + 256) {
        fcs = 2;
    }
    if single && fcs == 0 && d.len() > 255 {
        fcs = 2;
    }
    o.push(fcs << 6 | (single as u8) << 5 | (csum as u8) << 2);
    if !single {
        o.push(window);
    }
    match fcs {
        0 => {
            if single {
                o.push(d.len() as u8)
            }
        }
        1 => o.extend_from_slice(&((d.len() - 256) as u16).to_le_bytes()),
        2 => o.extend_from_slice(&(d.len() as u32).to_le_bytes()),
        _ => o.extend_from_slice(&(d.len() as u64).to_le_bytes()),
    }
    // blocks: runs of one byte become RLE blocks when asked for
    let mut blocks: Vec<(u8, Vec<u8>, usize)> = Vec::new();
    for p in d.chunks(block) {
        if rle {
            let mut i = 0;
            let mut raw_from = 0;
            while i < p.len() {
                let mut l = 1;
                while i + l < p.len() && p[i + l] == p[i] {
                    l += 1;
                }
                if l >= 4 {
                    if raw_from < i {
                        blocks.push((0, p[raw_from..i].to_vec(), i - raw_from));
                    }
                    blocks.push((1, vec![p[i]], l));
                    raw_from = i + l;
                }
                i += l;
            }
            if raw_from < p.len() {
                blocks.push((0, p[raw_from..].to_vec(), p.len() - raw_from));
            }
        } else {
            blocks.push((0, p.to_vec(), p.len()));
        }
    }
    if blocks.is_empty() {
        blocks.push((0, vec![], 0));
    }
    let n = blocks.len();
    for (i, (ty, body, len)) in blocks.into_iter().enumerate() {
        let h = (len as u32) << 3 | (ty as u32) << 1 | (i + 1 == n) as u32;
        o.extend_from_slice(&h.to_le_bytes()[..3]);
        o.extend_from_slice(&body);
    }
    if csum {
        o.extend_from_slice(&(xxh64(d, 0) as u32).to_le_bytes());
    }
}

// ---------------------------------------------------------------- xxhash

pub fn xxh32(d: &[u8], seed: u32) -> u32 {
    const P: [u32; 5] = [0x9E37_79B1, 0x85EB_CA77, 0xC2B2_AE3D, 0x27D4_EB2F, 0x1656_67B1];
    let rd = |i: usize| u32::from_le_bytes(d[i..i + 4].try_into().unwrap());
    let mut i = 0;
    let mut h;
    if d.len() >= 16 {
        let mut v = [seed.wrapping_add(P[0]).wrapping_add(P[1]), seed.wrapping_add(P[1]), seed, seed.wrapping_sub(P[0])];
        while i + 16 <= d.len() {
            for k in 0..4 {
                v[k] = v[k].wrapping_add(rd(i + 4 * k).wrapping_mul(P[1])).rotate_left(13).wrapping_mul(P[0]);
            }
            i += 16;
        }
        h = v[0].rotate_left(1).wrapping_add(v[1].rotate_left(7)).wrapping_add(v[2].rotate_left(12)).wrapping_add(v[3].rotate_left(18));
    } else {
        h = seed.wrapping_add(P[4]);
    }
    h = h.wrapping_add(d.len() as u32);
    while i + 4 <= d.len() {
        h = h.wrapping_add(rd(i).wrapping_mul(P[2])).rotate_left(17).wrapping_mul(P[3]);
        i += 4;
    }
    while i < d.len() {
        h = h.wrapping_add((d[i] as u32).wrapping_mul(P[4])).rotate_left(11).wrapping_mul(P[0]);
        i += 1;
    }
    h ^= h >> 15;
    h = h.wrapping_mul(P[1]);
    h ^= h >> 13;
    h = h.wrapping_mul(P[2]);
    h ^ (h >> 16)
}

pub fn xxh64(d: &[u8], seed: u64) -> u64 {
    const P: [u64; 5] = [0x9E37_79B1_85EB_CA87, 0xC2B2_AE3D_27D4_EB4F, 0x1656_67B1_9E37_79F9, 0x85EB_CA77_C2B2_AE63, 0x27D4_EB2F_1656_67C5];
    let rd = |i: usize| u64::from_le_bytes(d[i..i + 8].try_into().unwrap());
    let round = |acc: u64, v: u64| acc.wrapping_add(v.wrapping_mul(P[1])).rotate_left(31).wrapping_mul(P[0]);
    let mut i = 0;
    let mut h;
    if d.len() >= 32 {
        let mut v = [seed.wrapping_add(P[0]).wrapping_add(P[1]), seed.wrapping_add(P[1]), seed, seed.wrapping_sub(P[0])];
        while i + 32 <= d.len() {
            for k in 0..4 {
                v[k] = round(v[k], rd(i + 8 * k));
            }
            i += 32;
        }
        h = v[0].rotate_left(1).wrapping_add(v[1].rotate_left(7)).wrapping_add(v[2].rotate_left(12)).wrapping_add(v[3].rotate_left(18));
        for x in v {
            h = (h ^ round(0, x)).wrapping_mul(P[0]).wrapping_add(P[3]);
        }
    } else {
        h = seed.wrapping_add(P[4]);
    }
    h = h.wrapping_add(d.len() as u64);
    while i + 8 <= d.len() {
        h = (h ^ round(0, rd(i))).rotate_left(27).wrapping_mul(P[0]).wrapping_add(P[3]);
        i += 8;
    }
    if i + 4 <= d.len() {
        let x = u32::from_le_bytes(d[i..i + 4].try_into().unwrap()) as u64;
        h = (h ^ x.wrapping_mul(P[0])).rotate_left(23).wrapping_mul(P[1]).wrapping_add(P[2]);
        i += 4;
    }
    while i < d.len() {
        h = (h ^ (d[i] as u64).wrapping_mul(P[4])).rotate_left(11).wrapping_mul(P[0]);
        i += 1;
    }
    h ^= h >> 33;
    h = h.wrapping_mul(P[1]);
    h ^= h >> 29;
    h = h.wrapping_mul(P[2]);
    h ^ (h >> 32)
}

/// the fixture's text as a table (first column = time in nanoseconds)
pub fn fixture_table(which: usize) -> crate::model::Table {
    use crate::model::{Row, Table, Ty, V};
    let s = std::str::from_utf8(FIXTURES[which].1).unwrap();
    let mut l = s.lines();
    let names: Vec<String> = l.next().unwrap().split(',').map(|x| x.to_string()).collect();
    let rows = l
        .map(|x| {
            let v: Vec<V> = x.split(',').map(|c| V::T(c.to_string())).collect();
            Row { ts: x.split(',').next().unwrap().parse().unwrap(), v }
        })
        .collect();
    Table { types: vec![Ty::Str; names.len()], names, rows }
}
