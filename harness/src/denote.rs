//! What a text cell means for a column type, independently of the code under test.
use {
    crate::wire::{typ, ColSpec, UNSIGNED},
    mysql_connector::types::Value,
};

/// What a decoder may answer.
#[derive(Debug, Clone)]
pub enum Meaning {
    /// not such a value: has to be an error
    Nothing,
    /// this value, or an error (servers don't write it like this)
    Maybe(Value),
    /// this value
    Is(Value),
    /// not judged
    Open,
}

fn int(s: &str, lo: i128, hi: i128) -> Option<(i128, bool)> {
    let (neg, digits, canon) = match s.as_bytes().first()? {
        b'-' => (true, &s[1..], true),
        b'+' => (false, &s[1..], false),
        _ => (false, s, true),
    };
    if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let t = digits.trim_start_matches('0');
    if t.len() > 30 {
        return None;
    }
    let mut v: i128 = if t.is_empty() { 0 } else { t.parse().ok()? };
    if neg {
        v = -v;
    }
    (v >= lo && v <= hi).then_some((v, canon && !(neg && v == 0)))
}

fn num(s: &str, max: u64) -> Option<u64> {
    if s.is_empty() || s.len() > 30 || !s.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let v: u128 = s.parse().ok()?;
    (v <= max as u128).then_some(v as u64)
}

/// (value, as a server writes it)
fn date(s: &str) -> Option<((u16, u8, u8), bool)> {
    let p: Vec<&str> = s.split('-').collect();
    if p.len() != 3 {
        return None;
    }
    let v = (num(p[0], 65535)? as u16, num(p[1], 255)? as u8, num(p[2], 255)? as u8);
    let canon = p[0].len() == 4 && p[1].len() == 2 && p[2].len() == 2 && v.1 <= 12 && v.2 <= 31;
    Some((v, canon))
}

/// hours, minutes, seconds, micros
fn clock(s: &str) -> Option<((u64, u8, u8, u32), bool)> {
    let (hms, frac) = match s.split_once('.') {
        Some((a, b)) => (a, Some(b)),
        None => (s, None),
    };
    let p: Vec<&str> = hms.split(':').collect();
    if p.len() != 3 {
        return None;
    }
    let (h, m, sec) = (num(p[0], u32::MAX as u64 * 24 + 23)?, num(p[1], 255)? as u8, num(p[2], 255)? as u8);
    // no server has times of more than 838 hours; some more are expected to work
    let mut canon = h <= 24_024 && p[0].len() >= 2 && p[1].len() == 2 && p[2].len() == 2 && m < 60 && sec < 60;
    let us = match frac {
        None => 0,
        Some(f) => {
            if !f.bytes().all(|b| b.is_ascii_digit()) {
                return None;
            }
            let t = f.trim_end_matches('0');
            if t.len() > 6 {
                return None;
            }
            canon &= !f.is_empty() && f.len() <= 6;
            if t.is_empty() {
                0
            } else {
                format!("{t:0<6}").parse().ok()?
            }
        }
    };
    Some(((h, m, sec, us), canon))
}

fn pack(v: Option<(Value, bool)>) -> Meaning {
    match v {
        None => Meaning::Nothing,
        Some((v, true)) => Meaning::Is(v),
        Some((v, false)) => Meaning::Maybe(v),
    }
}

pub fn meaning(c: &ColSpec, b: &[u8]) -> Meaning {
    let uns = c.flags & UNSIGNED != 0;
    if crate::gen::is_bytes(c.typ) {
        return Meaning::Is(Value::Bytes(b.to_vec()));
    }
    if c.typ == typ::NULL {
        return Meaning::Open;
    }
    let Ok(s) = std::str::from_utf8(b) else {
        return Meaning::Nothing;
    };
    // spaces around a value: an error, or the value
    if s.trim() != s && c.typ != typ::NULL {
        return match meaning(c, s.trim().as_bytes()) {
            Meaning::Is(v) => Meaning::Maybe(v),
            m => m,
        };
    }
    macro_rules! ints {
        ($s:ty, $sv:ident, $u:ty, $uv:ident) => {
            if uns {
                int(s, <$u>::MIN as i128, <$u>::MAX as i128).map(|(v, k)| (Value::$uv(v as $u), k && !s.starts_with('-')))
            } else {
                int(s, <$s>::MIN as i128, <$s>::MAX as i128).map(|(v, k)| (Value::$sv(v as $s), k))
            }
        };
    }
    pack(match c.typ {
        typ::TINY => ints!(i8, Tiny, u8, UTiny),
        typ::SHORT | typ::YEAR => ints!(i16, Short, u16, UShort),
        typ::LONG | typ::INT24 => ints!(i32, Int, u32, UInt),
        typ::LONGLONG => ints!(i64, Long, u64, ULong),
        typ::FLOAT | typ::DOUBLE => {
            if s.bytes().any(|b| b.is_ascii_alphabetic() && b != b'e' && b != b'E') {
                // inf, nan and the like
                return match s.parse::<f64>() {
                    Ok(_) => Meaning::Open,
                    Err(_) => Meaning::Nothing,
                };
            }
            if c.typ == typ::FLOAT {
                s.parse::<f32>().ok().map(|f| (Value::Float(f), f.is_finite() && !s.starts_with('+') && !s.ends_with('.') && !s.starts_with('.')))
            } else {
                s.parse::<f64>().ok().map(|f| (Value::Double(f), f.is_finite() && !s.starts_with('+') && !s.ends_with('.') && !s.starts_with('.')))
            }
        }
        typ::DATE => match s.split_once([' ', 'T']) {
            None => date(s).map(|(d, k)| (Value::Date(d.0, d.1, d.2), k)),
            Some((d, t)) => match (date(d), clock(t)) {
                (Some((d, _)), Some(((0, 0, 0, 0), _))) => Some((Value::Date(d.0, d.1, d.2), false)),
                _ => None,
            },
        },
        typ::DATETIME | typ::TIMESTAMP => match s.split_once([' ', 'T']) {
            None => date(s).map(|(d, _)| (Value::Datetime(d.0, d.1, d.2, 0, 0, 0, 0), false)),
            Some((d, t)) => match (date(d), clock(t)) {
                (Some((d, kd)), Some(((h, mi, sec, us), kt))) if h <= 255 => Some((
                    Value::Datetime(d.0, d.1, d.2, h as u8, mi, sec, us),
                    kd && kt && h < 24 && t.find(':') == Some(2) && s.contains(' '),
                )),
                _ => None,
            },
        },
        typ::TIME => {
            let (neg, rest, plus) = match s.as_bytes().first() {
                Some(b'-') => (true, &s[1..], false),
                Some(b'+') => (false, &s[1..], true),
                _ => (false, s, false),
            };
            clock(rest).map(|((h, m, sec, us), k)| {
                (Value::Time(neg, (h / 24) as u32, (h % 24) as u8, m, sec, us), k && !plus)
            })
        }
        _ => return Meaning::Open,
    })
}

fn zero_sign(v: &Value) -> Value {
    match v {
        Value::Time(_, 0, 0, 0, 0, 0) => Value::Time(false, 0, 0, 0, 0, 0),
        v => v.clone(),
    }
}

/// Same value; a time of zero has no sign.
pub fn same_value(a: &Value, b: &Value) -> bool {
    crate::kit::same(&zero_sign(a), &zero_sign(b))
}
