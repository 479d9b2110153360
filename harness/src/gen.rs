//! Typed SQL values: columns, values, and both wire encodings a server may choose.
use {
    crate::{
        rng::Rng,
        wire::{lenenc_bytes, typ, ColSpec, UNSIGNED},
    },
    mysql_connector::types::Value,
};

pub const ALL_TYPES: &[u8] = &[
    typ::DECIMAL,
    typ::TINY,
    typ::SHORT,
    typ::LONG,
    typ::FLOAT,
    typ::DOUBLE,
    typ::NULL,
    typ::TIMESTAMP,
    typ::LONGLONG,
    typ::INT24,
    typ::DATE,
    typ::TIME,
    typ::DATETIME,
    typ::YEAR,
    typ::VARCHAR,
    typ::BIT,
    typ::JSON,
    typ::NEWDECIMAL,
    typ::ENUM,
    typ::SET,
    typ::TINYBLOB,
    typ::MEDIUMBLOB,
    typ::LONGBLOB,
    typ::BLOB,
    typ::VARSTRING,
    typ::STRING,
    typ::GEOMETRY,
];

pub fn is_bytes(t: u8) -> bool {
    matches!(t, typ::DECIMAL | typ::VARCHAR | typ::BIT | typ::JSON | typ::NEWDECIMAL..=typ::GEOMETRY)
}

pub fn is_int(t: u8) -> bool {
    matches!(t, typ::TINY | typ::SHORT | typ::LONG | typ::INT24 | typ::LONGLONG | typ::YEAR)
}

/// A name as servers send them: mostly short, sometimes long or not ASCII.
pub fn name(rng: &mut Rng) -> String {
    match rng.below(12) {
        0 => String::new(),
        1 => rng.text(20),
        2 => {
            let n = *rng.pick(&[63usize, 64, 200, 249, 250, 251, 252, 255, 256, 300, 1000]);
            rng.ascii(n)
        }
        3 => "é".repeat(rng.range(1, 130) as usize),
        _ => {
            let n = rng.range(1, 12) as usize;
            rng.ascii(n)
        }
    }
}

pub fn col(rng: &mut Rng, t: u8) -> ColSpec {
    let mut flags = (rng.u64() as u16) & 0xFFDF;
    if rng.coin() {
        flags &= 0x1001;
    }
    if rng.coin() {
        flags |= UNSIGNED;
    }
    let n = name(rng);
    ColSpec {
        db: name(rng),
        table: name(rng),
        org_table: name(rng),
        org_name: if rng.coin() { n.clone() } else { name(rng) },
        name: n,
        charset: *rng.pick(&[45, 33, 63, 255, 8]),
        length: rng.edgy(32) as u32,
        typ: t,
        flags,
        decimals: *rng.pick(&[0, 1, 3, 6, 31]),
    }
}

pub fn cols(rng: &mut Rng, n: usize) -> Vec<ColSpec> {
    (0..n)
        .map(|_| {
            let t = *rng.pick(ALL_TYPES);
            col(rng, t)
        })
        .collect()
}

fn micros(rng: &mut Rng) -> u32 {
    match rng.below(6) {
        0 | 1 => 0,
        2 => *rng.pick(&[1, 10, 999_999, 100_000, 500_000, 9, 99, 1000]),
        3 => 1000 * rng.below(1000) as u32,
        _ => rng.below(1_000_000) as u32,
    }
}

/// Hours, minutes and seconds, often with few of them set.
pub fn clock(rng: &mut Rng) -> (u8, u8, u8) {
    let sparse = rng.chance(1, 3);
    let mut one = |max: u64| match rng.below(if sparse { 6 } else { 24 }) {
        0..=2 => 0,
        3 => 1,
        4 => max as u8 - 1,
        _ => rng.below(max) as u8,
    };
    (one(24), one(60), one(60))
}

fn date(rng: &mut Rng) -> (u16, u8, u8) {
    match rng.below(9) {
        8 => (*rng.pick(&[0, 0, 1, 255, 256, 2000]), *rng.pick(&[0, 1, 12]), *rng.pick(&[0, 1, 31])),
        0 => (0, 0, 0),
        1 => (9999, 12, 31),
        2 => (1000, 1, 1),
        3 => (rng.below(10_000) as u16, 0, 0),
        _ => (rng.below(10_000) as u16, rng.range(1, 12) as u8, rng.range(1, 31) as u8),
    }
}

/// A value a server can hold in such a column (not NULL, unless the type is NULL).
pub fn value(rng: &mut Rng, c: &ColSpec, max_bytes: usize) -> Value {
    let uns = c.flags & UNSIGNED != 0;
    match c.typ {
        typ::TINY if uns => Value::UTiny(rng.edgy(8) as u8),
        typ::TINY => Value::Tiny(rng.edgy(8) as i8),
        typ::YEAR if uns => Value::UShort(*rng.pick(&[0, 1901, 1999, 2024, 2155])),
        typ::YEAR => Value::Short(*rng.pick(&[0, 1901, 1999, 2024, 2155])),
        typ::SHORT if uns => Value::UShort(rng.edgy(16) as u16),
        typ::SHORT => Value::Short(rng.edgy(16) as i16),
        typ::INT24 if uns => Value::UInt(rng.edgy(24) as u32),
        typ::INT24 => Value::Int(((rng.edgy(24) as u32) << 8) as i32 >> 8),
        typ::LONG if uns => Value::UInt(rng.edgy(32) as u32),
        typ::LONG => Value::Int(rng.edgy(32) as i32),
        typ::LONGLONG if uns => Value::ULong(rng.edgy(64)),
        typ::LONGLONG => Value::Long(rng.edgy(64) as i64),
        typ::FLOAT => Value::Float(loop {
            let f = match rng.below(4) {
                0 => *rng.pick(&[0.0f32, -0.0, 1.0, -1.5, 0.1, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, 16777216.0]),
                1 => rng.below(100_000) as f32 / 100.0,
                _ => f32::from_bits(rng.u32()),
            };
            if f.is_finite() {
                break f;
            }
        }),
        typ::DOUBLE => Value::Double(loop {
            let f = match rng.below(4) {
                0 => *rng.pick(&[0.0f64, -0.0, 1.0, -1.5, 0.1, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 9007199254740993.0]),
                1 => rng.below(100_000) as f64 / 100.0,
                _ => f64::from_bits(rng.u64()),
            };
            if f.is_finite() {
                break f;
            }
        }),
        typ::NULL => Value::Null,
        typ::DATE => {
            let d = date(rng);
            Value::Date(d.0, d.1, d.2)
        }
        typ::DATETIME | typ::TIMESTAMP => {
            let d = date(rng);
            if rng.chance(1, 4) {
                Value::Datetime(d.0, d.1, d.2, 0, 0, 0, 0)
            } else {
                let (h, m, s) = clock(rng);
                Value::Datetime(d.0, d.1, d.2, h, m, s, micros(rng))
            }
        }
        typ::TIME => {
            let days = match rng.below(4) {
                0 | 1 => 0,
                2 => rng.below(35) as u32,
                _ => *rng.pick(&[1, 4, 34, 41, 42, 255, 256, 416, 1000, 65_535, 65_536, 178_956_969]),
            };
            let (h, m, s) = clock(rng);
            let mut v = (rng.coin(), days, h, m, s, micros(rng));
            if rng.chance(1, 8) {
                v = (false, 0, 0, 0, 0, 0);
            }
            if (v.1, v.2, v.3, v.4, v.5) == (0, 0, 0, 0, 0) {
                v.0 = false;
            }
            Value::Time(v.0, v.1, v.2, v.3, v.4, v.5)
        }
        typ::DECIMAL | typ::NEWDECIMAL => {
            let mut s = String::new();
            if rng.coin() {
                s.push('-');
            }
            for _ in 0..rng.range(1, 40) {
                s.push((b'0' + rng.below(10) as u8) as char);
            }
            if rng.coin() {
                s.push('.');
                for _ in 0..rng.range(1, 25) {
                    s.push((b'0' + rng.below(10) as u8) as char);
                }
            }
            Value::Bytes(s.into_bytes())
        }
        _ => {
            let n = match rng.below(10) {
                0 => 0,
                1 => *rng.pick(&[250usize, 251, 252, 255, 256]),
                2 => *rng.pick(&[65535usize, 65536, 65534, 65537, 4096, 32768, 131_072, 200_000]),
                _ => rng.usize(60),
            }
            .min(max_bytes);
            let mut b = rng.bytes(n);
            if n > 0 && rng.chance(1, 3) {
                b[0] = *rng.pick(&[0xFB, 0xFE, 0xFF, 0x00, 0xFC]);
            }
            Value::Bytes(b)
        }
    }
}

/// NULL in one of five cells.
pub fn cell(rng: &mut Rng, c: &ColSpec, max_bytes: usize) -> Value {
    if rng.chance(1, 5) {
        Value::Null
    } else {
        value(rng, c, max_bytes)
    }
}

fn frac(rng: &mut Rng, us: u32) -> String {
    if us == 0 {
        return match rng.below(4) {
            0 => ".000000".into(),
            1 => ".0".into(),
            2 => ".000".into(),
            _ => String::new(),
        };
    }
    let full = format!("{us:06}");
    let min = full.trim_end_matches('0').len();
    let n = rng.range(min as u64, 6) as usize;
    format!(".{}", &full[..n])
}

/// The bytes of a text-protocol cell (without the length); None is NULL.
pub fn text(rng: &mut Rng, c: &ColSpec, v: &Value) -> Option<Vec<u8>> {
    let pad = |rng: &mut Rng, s: String| {
        if c.flags & UNSIGNED != 0 && rng.chance(1, 4) {
            // ZEROFILL
            format!("{s:0>w$}", w = s.len() + rng.usize(6))
        } else {
            s
        }
    };
    Some(match v {
        Value::Null => return None,
        Value::UShort(x) if c.typ == typ::YEAR => format!("{x:04}").into_bytes(),
        Value::Short(x) if c.typ == typ::YEAR => format!("{x:04}").into_bytes(),
        Value::Tiny(x) => x.to_string().into_bytes(),
        Value::Short(x) => x.to_string().into_bytes(),
        Value::Int(x) => x.to_string().into_bytes(),
        Value::Long(x) => x.to_string().into_bytes(),
        Value::UTiny(x) => pad(rng, x.to_string()).into_bytes(),
        Value::UShort(x) => pad(rng, x.to_string()).into_bytes(),
        Value::UInt(x) => pad(rng, x.to_string()).into_bytes(),
        Value::ULong(x) => pad(rng, x.to_string()).into_bytes(),
        Value::Float(x) => if rng.coin() { format!("{x}") } else { format!("{x:e}") }.into_bytes(),
        Value::Double(x) => if rng.coin() { format!("{x}") } else { format!("{x:e}") }.into_bytes(),
        Value::Bytes(b) => b.clone(),
        Value::Date(y, m, d) => format!("{y:04}-{m:02}-{d:02}").into_bytes(),
        Value::Datetime(y, mo, d, h, m, s, us) => {
            let f = frac(rng, *us);
            format!("{y:04}-{mo:02}-{d:02} {h:02}:{m:02}:{s:02}{f}").into_bytes()
        }
        Value::Time(neg, d, h, m, s, us) => {
            let f = frac(rng, *us);
            let sign = if *neg { "-" } else { "" };
            let hours = *d as u64 * 24 + *h as u64;
            format!("{sign}{hours:02}:{m:02}:{s:02}{f}").into_bytes()
        }
    })
}

/// The bytes of a binary-protocol cell; None is NULL. Any of the lengths the value fits is used.
pub fn bin(rng: &mut Rng, c: &ColSpec, v: &Value) -> Option<Vec<u8>> {
    let mut o = Vec::new();
    match v {
        Value::Null => return None,
        Value::Tiny(x) => o.extend(x.to_le_bytes()),
        Value::Short(x) => o.extend(x.to_le_bytes()),
        Value::Int(x) => o.extend(x.to_le_bytes()),
        Value::Long(x) => o.extend(x.to_le_bytes()),
        Value::UTiny(x) => o.extend(x.to_le_bytes()),
        Value::UShort(x) => o.extend(x.to_le_bytes()),
        Value::UInt(x) => o.extend(x.to_le_bytes()),
        Value::ULong(x) => o.extend(x.to_le_bytes()),
        Value::Float(x) => o.extend(x.to_le_bytes()),
        Value::Double(x) => o.extend(x.to_le_bytes()),
        Value::Bytes(b) => lenenc_bytes(&mut o, b),
        Value::Date(y, m, d) => datetime(rng, &mut o, (*y, *m, *d, 0, 0, 0, 0), c.typ == typ::DATE),
        Value::Datetime(y, mo, d, h, m, s, us) => datetime(rng, &mut o, (*y, *mo, *d, *h, *m, *s, *us), false),
        Value::Time(neg, d, h, m, s, us) => {
            let min = if *us != 0 {
                12
            } else if (*d, *h, *m, *s) != (0, 0, 0, 0) {
                8
            } else {
                0
            };
            let choices: Vec<u8> = [0, 8, 12].into_iter().filter(|x| *x >= min).collect();
            let n = if rng.coin() { min } else { *rng.pick(&choices) };
            o.push(n);
            if n >= 8 {
                o.push(*neg as u8);
                o.extend(d.to_le_bytes());
                o.extend([*h, *m, *s]);
            }
            if n == 12 {
                o.extend(us.to_le_bytes());
            }
        }
    }
    Some(o)
}

fn datetime(rng: &mut Rng, o: &mut Vec<u8>, v: (u16, u8, u8, u8, u8, u8, u32), _date: bool) {
    let min = if v.6 != 0 {
        11
    } else if (v.3, v.4, v.5) != (0, 0, 0) {
        7
    } else if (v.0, v.1, v.2) != (0, 0, 0) {
        4
    } else {
        0
    };
    let choices: Vec<u8> = [0, 4, 7, 11].into_iter().filter(|x| *x >= min).collect();
    let n = if rng.coin() { min } else { *rng.pick(&choices) };
    o.push(n);
    if n >= 4 {
        o.extend(v.0.to_le_bytes());
        o.extend([v.1, v.2]);
    }
    if n >= 7 {
        o.extend([v.3, v.4, v.5]);
    }
    if n == 11 {
        o.extend(v.6.to_le_bytes());
    }
}

pub fn text_row(rng: &mut Rng, cols: &[ColSpec], row: &[Value]) -> Vec<u8> {
    let cells: Vec<_> = cols.iter().zip(row).map(|(c, v)| text(rng, c, v)).collect();
    crate::wire::text_row(&cells)
}

pub fn bin_row(rng: &mut Rng, cols: &[ColSpec], row: &[Value]) -> Vec<u8> {
    let cells: Vec<_> = cols.iter().zip(row).map(|(c, v)| bin(rng, c, v)).collect();
    crate::wire::bin_row(&cells)
}

/// Sizes at which buffers are filled exactly, and their neighbours.
pub fn round_size(rng: &mut Rng, max: usize) -> usize {
    loop {
        let unit = 1usize << rng.range(8, 23);
        let n = (unit * rng.range(1, 5) as usize + *rng.pick(&[0, 0, 0, 1, 4, 5])).saturating_sub(*rng.pick(&[0, 0, 0, 1, 4]));
        if n <= max {
            return n;
        }
    }
}

/// Columns and rows of a random table.
pub struct Table {
    pub cols: Vec<ColSpec>,
    pub rows: Vec<Vec<Value>>,
}

impl Table {
    pub fn random(rng: &mut Rng, max_cols: usize, max_rows: usize, max_bytes: usize) -> Self {
        let n = rng.range(1, max_cols as u64) as usize;
        let cols = cols(rng, n);
        let rows = (0..rng.usize(max_rows + 1)).map(|_| cols.iter().map(|c| cell(rng, c, max_bytes)).collect()).collect();
        Self { cols, rows }
    }

    pub fn text(&self, rng: &mut Rng) -> Vec<Vec<u8>> {
        self.rows.iter().map(|r| text_row(rng, &self.cols, r)).collect()
    }

    pub fn bin(&self, rng: &mut Rng) -> Vec<Vec<u8>> {
        self.rows.iter().map(|r| bin_row(rng, &self.cols, r)).collect()
    }
}

pub fn ok(rng: &mut Rng) -> crate::wire::OkSpec {
    crate::wire::OkSpec {
        affected: rng.edgy(64),
        last_id: rng.edgy(64),
        // never "more results", never a cursor
        status: rng.u64() as u16 & 0xFF37,
        warnings: rng.edgy(16) as u16,
        message: if rng.coin() {
            vec![]
        } else {
            let n = *rng.pick(&[1usize, 20, 250, 251, 300]);
            rng.text(n).into_bytes()
        },
    }
}

/// The end of rows.
pub fn end(rng: &mut Rng) -> crate::wire::OkSpec {
    let o = ok(rng);
    if rng.chance(1, 8) {
        // no meaning behind rows, but some length
        return o;
    }
    crate::wire::OkSpec { affected: 0, last_id: 0, ..o }
}

pub fn err(rng: &mut Rng) -> crate::wire::ErrSpec {
    let state = match rng.below(2) {
        0 => (0..5).map(|_| *rng.pick(b"0123456789HYSZ") as char).collect(),
        _ => rng.pick(&["HY000", "HY000", "HY000", "42000", "23000", "08S01", "40001", "00000", "01000", "HYT00", "3D000"]).to_string(),
    };
    let n = *rng.pick(&[0usize, 5, 40, 200, 600]);
    let code = match rng.below(3) {
        // errors of servers and of client libraries
        0 => rng.range(1000, 4100) as u16,
        1 => rng.range(2000, 2070) as u16,
        _ => rng.edgy(16) as u16,
    };
    crate::wire::ErrSpec::new(code, &state, rng.text(n))
}
