//! C23: displayed values are SQL literals of the same value.
use {
    mysql_connector::types::Value,
    vharness::{runner::catching, sqlmini::*, *},
};

/// In which kind of literal the value has to come out; `None`: only must not panic.
fn judge(v: &Value, lit: &Lit) -> Result<(), String> {
    let no = || Err(format!("denotes {}", brief(lit)));
    match v {
        Value::Null => {
            if *lit != Lit::Null {
                return no();
            }
        }
        Value::Tiny(x) => return int(*x as i128, lit),
        Value::Short(x) => return int(*x as i128, lit),
        Value::Int(x) => return int(*x as i128, lit),
        Value::Long(x) => return int(*x as i128, lit),
        Value::UTiny(x) => return int(*x as i128, lit),
        Value::UShort(x) => return int(*x as i128, lit),
        Value::UInt(x) => return int(*x as i128, lit),
        Value::ULong(x) => return int(*x as i128, lit),
        Value::Float(x) => {
            let t = number(lit).ok_or_else(|| "is no number".to_string())?;
            if t.parse::<f32>().ok() != Some(*x) {
                return no();
            }
        }
        Value::Double(x) => {
            let t = number(lit).ok_or_else(|| "is no number".to_string())?;
            if t.parse::<f64>().ok() != Some(*x) {
                return no();
            }
        }
        Value::Bytes(b) => match lit {
            Lit::Bytes(x) if x == b => {}
            Lit::Text(t) if t.as_bytes() == b.as_slice() => {}
            _ => return no(),
        },
        Value::Date(y, m, d) => {
            let Lit::Text(t) = lit else { return no() };
            if date(t) != Some((*y as u64, *m as u64, *d as u64)) {
                return no();
            }
        }
        Value::Time(neg, d, h, m, s, us) => {
            let Lit::Text(t) = lit else { return no() };
            let Some((n, hh, mm, ss, uu)) = time(t) else { return no() };
            let zero = *d == 0 && (*h, *m, *s, *us) == (0, 0, 0, 0);
            if (hh, mm, ss, uu) != (*d as u64 * 24 + *h as u64, *m as u64, *s as u64, *us) || (n != *neg && !zero) {
                return no();
            }
        }
        Value::Datetime(y, mo, d, h, mi, s, us) => {
            let Lit::Text(t) = lit else { return no() };
            let want = ((*y as u64, *mo as u64, *d as u64), (*h as u64, *mi as u64, *s as u64, *us));
            // without a time of day, midnight is meant
            let got = datetime(t).or_else(|| date(t).map(|d| (d, (0, 0, 0, 0))));
            if got != Some(want) {
                return no();
            }
        }
    }
    Ok(())
}

fn int(x: i128, lit: &Lit) -> Result<(), String> {
    match lit {
        Lit::Int(y) if *y == x => Ok(()),
        _ => Err(format!("denotes {}", brief(lit))),
    }
}

fn number(lit: &Lit) -> Option<String> {
    match lit {
        Lit::Int(x) => Some(x.to_string()),
        Lit::Decimal(t) | Lit::Double(t) => Some(t.clone()),
        _ => None,
    }
}

/// Whether there is such a value in the database at all.
fn sane(v: &Value) -> bool {
    match v {
        Value::Float(x) => x.is_finite(),
        Value::Double(x) => x.is_finite(),
        Value::Date(y, m, d) => *y <= 9999 && *m <= 12 && *d <= 31,
        Value::Time(_, _, _, m, s, us) => *m < 60 && *s < 60 && *us < 1_000_000,
        Value::Datetime(y, mo, d, h, mi, s, us) => *y <= 9999 && *mo <= 12 && *d <= 31 && *h < 24 && *mi < 60 && *s < 60 && *us < 1_000_000,
        _ => true,
    }
}

fn check(c: &mut Case, v: &Value) -> CaseResult {
    let text = match catching(|| format!("{v}")) {
        Ok(t) => t,
        Err(e) => return violation("panic", format!("formatting {} panics at {}: {}", brief(v), e.0, e.1)),
    };
    c.count("values formatted", 1);
    if !sane(v) {
        c.count("impossible values formatted", 1);
        return Ok(());
    }
    let toks = match tokens(&text) {
        Ok(t) => t,
        Err(e) => return violation("no literal", format!("{} is shown as {}: {e}", brief(v), brief(&text))),
    };
    let lit = match literal(&toks) {
        Ok(l) => l,
        Err(e) => return violation("no literal", format!("{} is shown as {}: {e}", brief(v), brief(&text))),
    };
    if let Err(e) = judge(v, &lit) {
        return violation("another value", format!("{} is shown as {}, which {e}", brief(v), brief(&text)));
    }
    // in a statement, next to other things
    let sql = format!("select {v},{v} from t");
    match tokens(&sql) {
        Ok(t) if t.len() == 2 * toks.len() + 4 && t[1..=toks.len()] == toks && t[toks.len() + 2..][..toks.len()] == toks => {}
        t => return violation("no literal", format!("{} does not stay one literal in {}: {}", brief(v), brief(&sql), brief(t))),
    }
    c.count("literals read back", 1);
    c.count(
        match v {
            Value::Float(_) | Value::Double(_) => "floats read back",
            Value::Bytes(_) => "byte strings read back",
            Value::Date(..) | Value::Datetime(..) => "dates read back",
            Value::Time(..) => "times read back",
            _ => "others read back",
        },
        1,
    );
    Ok(())
}

fn small(c: &mut Case) -> CaseResult {
    check(c, &Value::Null)?;
    for x in 0..=255u8 {
        check(c, &Value::UTiny(x))?;
        check(c, &Value::Tiny(x as i8))?;
        check(c, &Value::Bytes(vec![x]))?;
    }
    for x in 0..=u16::MAX {
        check(c, &Value::UShort(x))?;
        check(c, &Value::Short(x as i16))?;
        check(c, &Value::Bytes(x.to_le_bytes().to_vec()))?;
    }
    check(c, &Value::Bytes(vec![]))?;
    for h in 0..24 {
        for m in 0..60 {
            check(c, &Value::Time(h & 1 == 1, 0, h, m, (h + m) % 60, 0))?;
            check(c, &Value::Datetime(2000, 1, 1, h, m, (h * 7 + m) % 60, 0))?;
        }
    }
    for e in 0..=19 {
        for d in [-1i128, 0, 1] {
            let x = 10i128.pow(e) + d;
            check(c, &Value::ULong(x as u64))?;
            check(c, &Value::Long(x.min(i64::MAX as i128) as i64))?;
            check(c, &Value::Long(-(x.min(i64::MAX as i128) as i64)))?;
        }
    }
    for p in 0..6u32 {
        for d in [1, 9, 10, 11, 99, 100, 123_456] {
            let us = ((d as u64 * 10u64.pow(p)) % 1_000_000) as u32;
            check(c, &Value::Time(false, 0, 1, 2, 3, us))?;
            check(c, &Value::Datetime(1, 2, 3, 4, 5, 6, us))?;
        }
    }
    c.count("exhaustive small values", 1);
    Ok(())
}

fn f64_any(rng: &mut Rng) -> f64 {
    match rng.below(8) {
        0 | 1 => f64::from_bits(rng.u64()),
        2 => *rng.pick(&[0.0, -0.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::NAN, 1e15, 1e16, 0.1, 1e-5, 9.999e-6, 1e-7, 1e22, 1e23]),
        3 => rng.u64() as f64,
        4 => rng.below(1_000_000) as f64 / 1000.0,
        5 => {
            let e = rng.below(640) as i32 - 320;
            let m = rng.below(10_000) as f64;
            let x = m * 10f64.powi(e);
            if rng.coin() {
                x
            } else {
                -x
            }
        }
        6 => {
            let e = rng.below(40) as i32 - 20;
            f64::from_bits((10f64.powi(e)).to_bits().wrapping_add(rng.below(5)).wrapping_sub(2))
        }
        _ => -(rng.below(1 << 53) as f64) / 1024.0,
    }
}

fn f32_any(rng: &mut Rng) -> f32 {
    match rng.below(4) {
        0 => f64_any(rng) as f32,
        1 => *rng.pick(&[f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, 16_777_216.0, 16_777_217.0, 1e15, 1e-5, 0.1, -0.0]),
        _ => f32::from_bits(rng.u32()),
    }
}

fn us(rng: &mut Rng) -> u32 {
    match rng.below(5) {
        0 | 1 => 0,
        2 => *rng.pick(&[1u32, 10, 100, 1000, 10_000, 100_000, 999_999, 900_000, 500_000, 50, 1_000_000, u32::MAX]),
        _ => rng.below(1_000_000) as u32,
    }
}

fn any(rng: &mut Rng) -> Value {
    let wild = rng.chance(1, 12);
    let (h, m, s) = if wild { (rng.u8(), rng.u8(), rng.u8()) } else { gen::clock(rng) };
    let y = match rng.below(6) {
        0 => *rng.pick(&[0u16, 1, 9, 10, 99, 100, 999, 1000, 9999, 10_000, 65_535, 70, 69]),
        _ => rng.below(10_000) as u16,
    };
    let (mo, d) = if wild { (rng.u8(), rng.u8()) } else { (rng.below(13) as u8, rng.below(32) as u8) };
    match rng.below(11) {
        0 => Value::Int(rng.edgy(32) as i32),
        1 => Value::Long(rng.edgy(64) as i64),
        2 => Value::UInt(rng.edgy(32) as u32),
        3 => Value::ULong(rng.edgy(64)),
        4 | 5 => Value::Double(f64_any(rng)),
        6 => Value::Float(f32_any(rng)),
        7 => {
            let max = if rng.chance(1, 20) { 3000 } else { 20 };
            let n = rng.usize(max);
            Value::Bytes(rng.bytes(n))
        }
        8 => Value::Date(y, mo, d),
        9 => {
            let days = match rng.below(4) {
                0 => 0,
                1 => rng.below(35) as u32,
                2 => *rng.pick(&[u32::MAX, u32::MAX - 1, 178_956_970, 178_956_971, 1 << 31, 100]),
                _ => rng.edgy(32) as u32,
            };
            Value::Time(rng.coin(), days, h, m, s, us(rng))
        }
        _ => Value::Datetime(y, mo, d, h, m, s, us(rng)),
    }
}

fn random(c: &mut Case) -> CaseResult {
    for _ in 0..4 {
        let v = any(&mut c.rng);
        c.feed(&format!("{v:?}"));
        c.sample(format!("{} as {}", brief(&v), brief(v.to_string())));
        check(c, &v)?;
    }
    Ok(())
}

pub fn main() {
    Check::new("C23", "values that differ; all values of the small types once")
        .assume("infinite numbers, NaN, and fields the database does not have (year over 9999, minute 60, …) only must not panic")
        .assume("a negative zero may be shown as zero")
        .scale(10)
        .group_on(1, "small", 1, 1, small)
        .group("random", 120_000, 8_000_000, random)
        .require("literals read back", 400_000)
        .require("floats read back", 50_000)
        .require("byte strings read back", 50_000)
        .require("dates read back", 30_000)
        .require("times read back", 15_000)
        .require("impossible values formatted", 1000)
        .main()
}
