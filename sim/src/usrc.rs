//! A file format as a program around the library would supply it (a `SourceFactory`): a magic
//! number, the columns, marked rows and an end mark.
use crate::model::{Table, Ty, V};
use chopper::chopper::chopper::Source;
use chopper::chopper::types::{FieldType, FieldValue, Header, Row};
use chopper::error::{CliResult, Error};
use chopper::source::source_factory::SourceFactory;
use chopper::util::reader::ChopperBufPreviewer;
use serde::{Deserialize, Serialize};
use std::io::{self, Read};

pub const MAGIC: &[u8; 6] = b"UTAB1\n";

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug, Default)]
pub struct UserEnc {
    /// the name ends in ".u.csv", which the built-in text format would take too
    #[serde(default)]
    pub like_csv: bool,
    /// after this many rows the source reports an error of this kind
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub fail: Option<(u32, u8)>,
    /// the factory refuses the file
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub refuse: bool,
    /// no end mark
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub open: bool,
}

const TYPES: [Ty; 10] = [Ty::Z, Ty::B, Ty::Buf, Ty::C, Ty::D, Ty::F, Ty::I, Ty::J, Ty::S, Ty::Str];

pub fn encode(t: &Table, e: &UserEnc) -> Vec<u8> {
    let mut o = MAGIC.to_vec();
    o.push(e.refuse as u8);
    o.extend_from_slice(&(t.names.len() as u16).to_le_bytes());
    for (n, ty) in t.names.iter().zip(&t.types) {
        o.extend_from_slice(&(n.len() as u16).to_le_bytes());
        o.extend_from_slice(n.as_bytes());
        o.push(TYPES.iter().position(|x| x == ty).unwrap() as u8);
    }
    for (i, r) in t.rows.iter().enumerate() {
        if let Some((k, kind)) = e.fail {
            if k as usize == i {
                o.extend_from_slice(&[2, kind]);
            }
        }
        o.push(1);
        o.extend_from_slice(&row(t, r));
    }
    if let Some((k, kind)) = e.fail {
        if k as usize >= t.rows.len() {
            o.extend_from_slice(&[2, kind]);
        }
    }
    if !e.open {
        o.push(0);
    }
    o
}

/// the rows alone, marked
pub fn rows(t: &Table) -> Vec<u8> {
    let mut o = vec![];
    for r in &t.rows {
        o.push(1);
        o.extend_from_slice(&row(t, r));
    }
    o
}

fn row(t: &Table, r: &crate::model::Row) -> Vec<u8> {
    let mut o = r.ts.to_le_bytes().to_vec();
    for i in 0..t.names.len() {
        let v = r.v.get(i).unwrap_or(&V::N);
        o.push(!matches!(v, V::N) as u8);
        match v {
            V::N => {}
            V::B(x) => o.push(*x),
            V::C(x) => o.extend_from_slice(&x.to_le_bytes()),
            V::D(x) => o.extend_from_slice(&x.to_le_bytes()),
            V::F(x) => o.extend_from_slice(&x.to_le_bytes()),
            V::I(x) => o.extend_from_slice(&x.to_le_bytes()),
            V::J(x) => o.extend_from_slice(&x.to_le_bytes()),
            V::S(x) => o.extend_from_slice(&x.to_le_bytes()),
            v => {
                let s = v.text().unwrap_or_default();
                o.extend_from_slice(&(s.len() as u32).to_le_bytes());
                o.extend_from_slice(s.as_bytes());
            }
        }
    }
    o
}

// ------------------------------------------------------------------ what the program supplies

#[derive(Clone)]
pub struct UserFactory;

struct UserSource<R> {
    r: R,
    header: Header,
    ended: bool,
}

fn num<R: Read, const N: usize>(r: &mut R) -> io::Result<[u8; N]> {
    let mut b = [0u8; N];
    r.read_exact(&mut b)?;
    Ok(b)
}
fn text<R: Read>(r: &mut R, n: usize) -> CliResult<String> {
    let mut v = Vec::new();
    if r.by_ref().take(n as u64).read_to_end(&mut v)? != n {
        return Err(Error::from("user source: text ends early"));
    }
    String::from_utf8(v).map_err(|_| Error::from("user source: not text"))
}

impl<R: Read> UserSource<R> {
    fn new(mut r: R) -> CliResult<Self> {
        let m: [u8; 6] = num(&mut r)?;
        if &m != MAGIC {
            return Err(Error::from("user source: wrong magic number"));
        }
        let [refuse] = num(&mut r)?;
        if refuse != 0 {
            return Err(Error::from("user source: refused"));
        }
        let n = u16::from_le_bytes(num(&mut r)?);
        let (mut names, mut types) = (vec![], vec![]);
        for _ in 0..n {
            let l = u16::from_le_bytes(num(&mut r)?);
            names.push(text(&mut r, l as usize)?);
            let [t] = num(&mut r)?;
            types.push(match t {
                0 => FieldType::Boolean,
                1 => FieldType::Byte,
                2 => FieldType::ByteBuf,
                3 => FieldType::Char,
                4 => FieldType::Double,
                5 => FieldType::Float,
                6 => FieldType::Int,
                7 => FieldType::Long,
                8 => FieldType::Short,
                9 => FieldType::String,
                _ => return Err(Error::from("user source: unknown type")),
            });
        }
        Ok(UserSource { r, header: Header::new(names, types), ended: false })
    }
}

impl<R: Read> Source for UserSource<R> {
    fn header(&self) -> &Header {
        &self.header
    }
    fn next_row(&mut self) -> CliResult<Option<Row>> {
        if self.ended {
            return Ok(None);
        }
        let [mark] = num(&mut self.r)?;
        match mark {
            0 => {
                let mut b = [0u8; 1];
                if self.r.read(&mut b)? != 0 {
                    return Err(Error::from("user source: more after the end"));
                }
                self.ended = true;
                return Ok(None);
            }
            1 => {}
            2 => {
                let [kind] = num(&mut self.r)?;
                return Err(match kind {
                    0 => Error::from("user source: failed"),
                    1 => Error::Io(io::Error::from(io::ErrorKind::UnexpectedEof)),
                    2 => Error::Io(io::Error::from(io::ErrorKind::BrokenPipe)),
                    3 => Error::Custom(String::new()),
                    _ => Error::Io(io::Error::from(io::ErrorKind::Interrupted)),
                });
            }
            _ => return Err(Error::from("user source: unknown mark")),
        }
        let timestamp = u64::from_le_bytes(num(&mut self.r)?);
        let mut field_values = Vec::with_capacity(self.header.field_types().len());
        for t in self.header.field_types() {
            let r = &mut self.r;
            let [some] = num(r)?;
            field_values.push(if some == 0 {
                FieldValue::None
            } else {
                match t {
                    FieldType::Byte => FieldValue::Byte(u8::from_le_bytes(num(r)?)),
                    FieldType::Char => FieldValue::Char(u16::from_le_bytes(num(r)?)),
                    FieldType::Double => FieldValue::Double(f64::from_le_bytes(num(r)?)),
                    FieldType::Float => FieldValue::Float(f32::from_le_bytes(num(r)?)),
                    FieldType::Int => FieldValue::Int(i32::from_le_bytes(num(r)?)),
                    FieldType::Long => FieldValue::Long(i64::from_le_bytes(num(r)?)),
                    FieldType::Short => FieldValue::Short(i16::from_le_bytes(num(r)?)),
                    FieldType::String => {
                        let n = u32::from_le_bytes(num(r)?) as usize;
                        FieldValue::String(text(r, n)?)
                    }
                    _ => return Err(Error::from("user source: value of an unsupported type")),
                }
            });
        }
        Ok(Some(Row { timestamp, field_values }))
    }
}

impl SourceFactory for UserFactory {
    fn can_create_from_format(&self, format: &String) -> bool {
        format.ends_with(".utab") || format.ends_with(".u.csv")
    }
    fn can_create_from_previewer(&self, previewer: &ChopperBufPreviewer<Box<dyn Read>>) -> bool {
        previewer.get_buf().starts_with(MAGIC)
    }
    fn create_source(&mut self, previewer: ChopperBufPreviewer<Box<dyn Read>>) -> CliResult<Box<dyn Source>> {
        Ok(Box::new(UserSource::new(previewer.get_reader())?))
    }
    fn box_clone(&self) -> Box<dyn SourceFactory> {
        Box::new(self.clone())
    }
}
