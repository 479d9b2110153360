//! C21: value conversions are lossless or fail.
use {
    chrono::{Datelike, Duration, NaiveDate, NaiveDateTime, NaiveTime, TimeDelta, Timelike},
    mysql_connector::types::{Hex, Value},
    std::fmt::Debug,
    vharness::*,
};

fn days_in(y: i64, m: u8) -> u8 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) => 29,
        2 => 28,
        _ => 0,
    }
}

fn date_ok(y: u16, m: u8, d: u8) -> bool {
    d >= 1 && d <= days_in(y as i64, m)
}

fn same_val(a: &Value, b: &Value) -> bool {
    kit::same(a, b)
}

/// A Rust value goes in and comes back; wrapped in `Option` as well.
fn back<T>(c: &mut Case, x: T, same: impl Fn(&T, &T) -> bool) -> CaseResult
where
    T: Clone + Debug + TryInto<Value>,
    Value: TryInto<T> + TryInto<Option<T>>,
    <T as TryInto<Value>>::Error: Debug,
    <Value as TryInto<T>>::Error: Debug,
    <Value as TryInto<Option<T>>>::Error: Debug,
{
    let ty = std::any::type_name::<T>();
    let v: Value = match x.clone().try_into() {
        Ok(v) => v,
        Err(e) => return violation("conversion refused", format!("{ty} {} cannot be converted into a database value: {e:?}", brief(&x))),
    };
    ensure!(!matches!(v, Value::Null), "conversion lossy", "{ty} {} became NULL", brief(&x));
    let y: T = match v.clone().try_into() {
        Ok(y) => y,
        Err(e) => return violation("conversion refused", format!("{ty} {} became {}, which does not convert back: {e:?}", brief(&x), brief(&v))),
    };
    ensure!(same(&x, &y), "conversion lossy", "{ty} {} became {} became {}", brief(&x), brief(&v), brief(&y));
    let o: Value = match Some(x.clone()).try_into() {
        Ok(v) => v,
        Err(_) => return violation("conversion refused", format!("Some({}) cannot be converted", brief(&x))),
    };
    ensure!(same_val(&o, &v), "conversion lossy", "Some({}) became {}, without Some it is {}", brief(&x), brief(&o), brief(&v));
    let o: Option<T> = match o.try_into() {
        Ok(o) => o,
        Err(e) => return violation("conversion refused", format!("Some({}) does not convert back: {e:?}", brief(&x))),
    };
    ensure!(o.as_ref().is_some_and(|y| same(&x, y)), "conversion lossy", "Some({}) became {}", brief(&x), brief(&o));
    c.count("round trips", 1);
    Ok(())
}

fn none<T>() -> CaseResult
where
    T: Debug + TryInto<Value>,
    Value: TryInto<T> + TryInto<Option<T>>,
{
    let ty = std::any::type_name::<T>();
    let v: Result<Value, _> = None::<T>.try_into();
    ensure!(matches!(v, Ok(Value::Null)), "none", "None of {ty} became something else than NULL");
    let o: Result<Option<T>, _> = Value::Null.try_into();
    ensure!(matches!(o, Ok(None)), "none", "NULL as an optional {ty} is not None");
    let o: Result<T, _> = Value::Null.try_into();
    ensure!(o.is_err(), "wrong kind accepted", "NULL converted into {ty}");
    Ok(())
}

fn bits32(a: &f32, b: &f32) -> bool {
    a.to_bits() == b.to_bits()
}
fn bits64(a: &f64, b: &f64) -> bool {
    a.to_bits() == b.to_bits()
}

/// Every value of the small types, and every None.
fn small(c: &mut Case) -> CaseResult {
    for x in i8::MIN..=i8::MAX {
        back(c, x, |a, b| a == b)?;
    }
    for x in u8::MIN..=u8::MAX {
        back(c, x, |a, b| a == b)?;
    }
    for x in i16::MIN..=i16::MAX {
        back(c, x, |a, b| a == b)?;
    }
    for x in u16::MIN..=u16::MAX {
        back(c, x, |a, b| a == b)?;
    }
    for x in [false, true] {
        back(c, x, |a, b| a == b)?;
    }
    none::<i8>()?;
    none::<i16>()?;
    none::<i32>()?;
    none::<i64>()?;
    none::<u8>()?;
    none::<u16>()?;
    none::<u32>()?;
    none::<u64>()?;
    none::<f32>()?;
    none::<f64>()?;
    none::<bool>()?;
    none::<String>()?;
    none::<Vec<u8>>()?;
    none::<Hex>()?;
    none::<NaiveDate>()?;
    none::<NaiveDateTime>()?;
    none::<Duration>()?;
    c.count("exhaustive small types", 1);
    Ok(())
}

fn f64_any(rng: &mut Rng) -> f64 {
    match rng.below(4) {
        0 => f64::from_bits(rng.u64()),
        1 => *rng.pick(&[0.0, -0.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e16, 0.1]),
        _ => rng.u64() as f64 / 1000.0,
    }
}

fn year(rng: &mut Rng) -> i32 {
    match rng.below(6) {
        0 => rng.below(10_000) as i32,
        1 => 1900 + rng.below(200) as i32,
        2 => *rng.pick(&[0, 1, 9999, 1970, 2000, 1582]),
        3 => *rng.pick(&[-1, 10_000, 65_535, 65_536, 65_537, 67_556, 131_072 + 2024, -65_536 + 2024, -2024, -262_143, 262_142, 32_767, 32_768]),
        4 => rng.below(524_286) as i32 - 262_143,
        _ => rng.below(4000) as i32,
    }
}

fn naive_date(rng: &mut Rng) -> NaiveDate {
    loop {
        let y = year(rng);
        let m = rng.range(1, 12) as u32;
        let last = days_in(y.rem_euclid(400) as i64, m as u8) as u64;
        let d = if rng.chance(1, 3) { last } else { rng.range(1, last) };
        if let Some(d) = NaiveDate::from_ymd_opt(y, m, d as u32) {
            return d;
        }
    }
}

fn nanos(rng: &mut Rng) -> u32 {
    (match rng.below(6) {
        0 => 0,
        1 => 999_999_999,
        2 => *rng.pick(&[1, 999, 1000, 999_000, 1_000_000, 999_999_000, 500_000_000, 999]),
        _ => rng.below(1_000_000_000),
    }) as u32
}

/// Into a database value.
fn into_value(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let (a, b) = (r.edgy(32) as u32, r.edgy(64));
    let (f, d) = (f32::from_bits(r.u32()), f64_any(r));
    let text = {
        let n = r.usize(60);
        r.text(n)
    };
    let bytes = {
        let n = r.usize(60);
        r.bytes(n)
    };
    c.feed(&(a, b, &text));
    back(c, a, |a, b| a == b)?;
    back(c, a as i32, |a, b| a == b)?;
    back(c, b, |a, b| a == b)?;
    back(c, b as i64, |a, b| a == b)?;
    back(c, f, bits32)?;
    back(c, d, bits64)?;
    back(c, text, |a, b| a == b)?;
    back(c, bytes.clone(), |a, b| a == b)?;
    // `Hex` cannot be cloned
    let v: Value = Hex::new(bytes.clone()).into();
    let h: Result<Hex, _> = v.clone().try_into();
    let o: Result<Option<Hex>, _> = v.try_into();
    ensure!(h.is_ok_and(|h| h.into_bytes() == bytes), "conversion lossy", "hex {bytes:?} is altered");
    ensure!(o.is_ok_and(|h| h.is_some_and(|h| h.into_bytes() == bytes)), "conversion lossy", "optional hex {bytes:?} is altered");
    Ok(())
}

fn dates(c: &mut Case) -> CaseResult {
    let d = naive_date(&mut c.rng);
    let fit = (0..=9999).contains(&d.year());
    let wide = (0..=65_535).contains(&d.year());
    c.feed(&d);
    c.sample(format!("{d}"));
    let v: Result<Value, _> = d.try_into();
    match v {
        Ok(v) => {
            ensure!(wide, "date wrapped", "{d} became {v:?}");
            ensure!(v == Value::Date(d.year() as u16, d.month() as u8, d.day() as u8), "conversion lossy", "{d} became {v:?}");
            back(c, d, |a, b| a == b)?;
        }
        Err(e) => {
            ensure!(!fit, "conversion refused", "{d} is refused: {e:?}");
            c.count("unrepresentable dates refused", 1);
            let o: Result<Value, _> = Some(d).try_into();
            ensure!(o.is_err(), "date wrapped", "Some({d}) is accepted, {d} is not");
        }
    }
    let n = nanos(&mut c.rng);
    let (h, m, s) = (c.rng.below(24) as u32, c.rng.below(60) as u32, c.rng.below(60) as u32);
    let (h, m, s) = if c.rng.chance(1, 5) { (23, 59, 59) } else { (h, m, s) };
    let Some(t) = NaiveTime::from_hms_nano_opt(h, m, s, n) else {
        return inconclusive("bad time");
    };
    let dt = NaiveDateTime::new(d, t);
    let v: Result<Value, _> = dt.try_into();
    match v {
        Ok(v) => {
            ensure!(wide, "date wrapped", "{dt} became {v:?}");
            let Value::Datetime(y, mo, da, ho, mi, se, us) = v else {
                return violation("conversion lossy", format!("{dt} became {v:?}"));
            };
            ensure!(
                (y as i32, mo as u32, da as u32, ho as u32, mi as u32, se as u32) == (d.year(), d.month(), d.day(), t.hour(), t.minute(), t.second()),
                "conversion lossy",
                "{dt} became {v:?}"
            );
            ensure!(us == n / 1000, "conversion lossy", "{dt} became {v:?}");
            let near = |a: &NaiveDateTime, b: &NaiveDateTime| (*a - *b).num_nanoseconds().is_some_and(|x| (0..1000).contains(&x));
            back(c, dt, near)?;
        }
        Err(e) => {
            ensure!(!fit, "conversion refused", "{dt} is refused: {e:?}");
            c.count("unrepresentable dates refused", 1);
        }
    }
    Ok(())
}

/// All days of some years.
fn calendar(c: &mut Case) -> CaseResult {
    let y = if c.thorough { c.idx as u16 % 10_000 } else { year(&mut c.rng).clamp(0, 9999) as u16 };
    c.feed(&y);
    for m in 0..=14u8 {
        for d in 0..=33u8 {
            let want = date_ok(y, m, d);
            let got: Result<NaiveDate, _> = Value::Date(y, m, d).try_into();
            match &got {
                Ok(x) => ensure!(
                    want && (x.year(), x.month(), x.day()) == (y as i32, m as u32, d as u32),
                    "date altered",
                    "{y}-{m}-{d} became {x}"
                ),
                Err(e) => ensure!(!want, "date refused", "{y}-{m}-{d} is refused: {e:?}"),
            }
            c.count("days tried", 1);
        }
    }
    Ok(())
}

fn duration_at(rng: &mut Rng) -> Duration {
    let secs = match rng.below(7) {
        0 => rng.below(838 * 3600 + 3600) as i64,
        1 => rng.below(86_400 * 40) as i64,
        2 => *rng.pick(&[0, 1, 59, 60, 3599, 3600, 86_399, 86_400, 86_401, 3_020_399]),
        3 => rng.below(u32::MAX as u64 * 86_400) as i64,
        4 => u32::MAX as i64 * 86_400 + 86_399 - rng.below(3) as i64,
        // as chrono can say, and as the database type cannot
        5 => u32::MAX as i64 * 86_400 + 86_400 + rng.below(86_400 * 100) as i64,
        _ => rng.below((i64::MAX / 1000) as u64) as i64,
    };
    let n = if rng.coin() { nanos(rng) } else { 0 };
    let d = TimeDelta::new(secs.min(i64::MAX / 1000 - 1), n).unwrap_or_else(TimeDelta::zero);
    if rng.coin() {
        -d
    } else {
        d
    }
}

/// exact nanoseconds
fn ns(d: &Duration) -> i128 {
    d.num_seconds() as i128 * 1_000_000_000 + d.subsec_nanos() as i128
}

fn durations(c: &mut Case) -> CaseResult {
    let d = duration_at(&mut c.rng);
    c.feed(&ns(&d));
    c.sample(format!("{d}"));
    let total = ns(&d).unsigned_abs() / 1000;
    let fits = total / 86_400_000_000 <= u32::MAX as u128;
    let v: Value = match d.try_into() {
        Ok(v) => v,
        #[allow(unreachable_patterns)]
        Err(_) => {
            ensure!(!fits, "conversion refused", "{d} is refused");
            return Ok(());
        }
    };
    let Value::Time(neg, days, h, m, s, us) = v else {
        return violation("conversion lossy", format!("{d} became {v:?}"));
    };
    let said = (((days as u128 * 24 + h as u128) * 60 + m as u128) * 60 + s as u128) * 1_000_000 + us as u128;
    if !fits {
        c.count("durations over u32 days", 1);
        return violation("duration over u32 days", format!("{d} became {v:?}"));
    }
    ensure!(said == total, "conversion lossy", "{d} became {v:?}");
    ensure!(total == 0 || neg == (ns(&d) < 0), "conversion lossy", "{d} became {v:?}");
    ensure!(h < 24 && m < 60 && s < 60 && us < 1_000_000, "time not normal", "{d} became {v:?}");
    let near = |a: &Duration, b: &Duration| {
        let x = ns(a) - ns(b);
        x.abs() < 1000 && (x == 0 || (x < 0) == (ns(a) < 0))
    };
    back(c, d, near)?;
    if ns(&d) < 0 {
        c.count("negative durations", 1);
    }
    Ok(())
}

fn any(rng: &mut Rng) -> Value {
    let b = |r: &mut Rng, n: u64| r.below(n) as u8;
    match rng.below(16) {
        0 => Value::Null,
        1 => Value::Tiny(rng.u8() as i8),
        2 => Value::Short(rng.edgy(16) as i16),
        3 => Value::Int(rng.edgy(32) as i32),
        4 => Value::Long(rng.edgy(64) as i64),
        5 => Value::UTiny(rng.u8()),
        6 => Value::UShort(rng.edgy(16) as u16),
        7 => Value::UInt(rng.edgy(32) as u32),
        8 => Value::ULong(rng.edgy(64)),
        9 => Value::Float(f32::from_bits(rng.u32())),
        10 => Value::Double(f64_any(rng)),
        11 => {
            let n = rng.usize(12);
            Value::Bytes(match rng.below(4) {
                0 => rng.bytes(n),
                1 => rng.pick(&[&b"1"[..], b"0", b"", b"2024-01-02", b"10:11:12", b"NULL", b"\xff", b"\xed\xa0\x80", b"\xc0\x80", b"abc\xe4"]).to_vec(),
                _ => rng.text(n).into_bytes(),
            })
        }
        12 => {
            let y = rng.edgy(16) as u16;
            Value::Date(if rng.coin() { y } else { rng.below(10_000) as u16 }, b(rng, 14), b(rng, 33))
        }
        13 | 14 => {
            let wild = rng.chance(1, 4);
            let (h, m, s) = match (wild, rng.coin()) {
                (true, _) => (rng.u8(), rng.u8(), rng.u8()),
                (_, true) => gen::clock(rng),
                _ => (b(rng, 25), b(rng, 61), b(rng, 61)),
            };
            let us = match rng.below(4) {
                0 => 0,
                1 => *rng.pick(&[1u32, 999_999, 1_000_000, 1_000_001, 1_999_999, 2_000_000, u32::MAX, 4_294_968, 4_294_967]),
                _ => rng.below(1_000_000) as u32,
            };
            let d = match rng.below(4) {
                0 => rng.edgy(32) as u32,
                1 => 0,
                _ => rng.below(40) as u32,
            };
            Value::Time(rng.coin(), d, h, m, s, us)
        }
        _ => {
            let wild = rng.chance(1, 4);
            let (h, m, s) = match (wild, rng.coin()) {
                (true, _) => (rng.u8(), rng.u8(), rng.u8()),
                (_, true) => gen::clock(rng),
                _ => (b(rng, 25), b(rng, 61), b(rng, 61)),
            };
            let us = match rng.below(4) {
                0 => 0,
                1 => *rng.pick(&[1u32, 999_999, 1_000_000, 1_999_999, 2_000_000, u32::MAX, 4_294_968, 4_294_967]),
                _ => rng.below(1_000_000) as u32,
            };
            Value::Datetime(rng.below(10_000) as u16, b(rng, 14), b(rng, 33), h, m, s, us)
        }
    }
}

/// What a target type makes of a value: `Some(true)`: has to be this, `None`: has to fail.
fn target<T: PartialEq + Debug>(v: &Value, want: Option<T>, either: bool) -> CaseResult
where
    Value: TryInto<T> + TryInto<Option<T>>,
{
    let ty = std::any::type_name::<T>();
    let got: Result<T, _> = v.clone().try_into();
    let opt: Result<Option<T>, _> = v.clone().try_into();
    match (&got, &want) {
        (Ok(g), Some(w)) => ensure!(g == w, "conversion lossy", "{} became {ty} {}, not {}", brief(v), brief(g), brief(w)),
        (Ok(g), None) => return violation("wrong kind accepted", format!("{} became {ty} {}", brief(v), brief(g))),
        (Err(_), Some(w)) => ensure!(either, "conversion refused", "{} did not become {ty} {}", brief(v), brief(w)),
        (Err(_), None) => {}
    }
    match (opt, got) {
        (Ok(None), _) => ensure!(*v == Value::Null, "none", "{} as an optional {ty} is None", brief(v)),
        (Ok(Some(o)), Ok(g)) => ensure!(o == g, "conversion lossy", "{} as an optional {ty} is {}, not {}", brief(v), brief(o), brief(g)),
        (Ok(Some(o)), Err(_)) => return violation("wrong kind accepted", format!("{} as an optional {ty} is {}", brief(v), brief(o))),
        (Err(_), Ok(g)) => return violation("conversion refused", format!("{} is a {ty} {}, but not an optional one", brief(v), brief(g))),
        (Err(_), Err(_)) => ensure!(*v != Value::Null, "none", "NULL is no optional {ty}"),
    }
    Ok(())
}

macro_rules! only {
    ($v:expr, $t:ty, $k:ident) => {
        target::<$t>($v, if let Value::$k(x) = $v { Some(x.clone()) } else { None }, false)?
    };
}

fn floats(v: &Value) -> CaseResult {
    let f: Result<f32, _> = v.clone().try_into();
    let d: Result<f64, _> = v.clone().try_into();
    match v {
        Value::Float(x) => ensure!(f.is_ok_and(|y| y.to_bits() == x.to_bits()) && d.is_err(), "conversion lossy", "{v:?} as a float"),
        Value::Double(x) => ensure!(d.is_ok_and(|y| y.to_bits() == x.to_bits()) && f.is_err(), "conversion lossy", "{v:?} as a double"),
        _ => ensure!(f.is_err() && d.is_err(), "wrong kind accepted", "{} became a float", brief(v)),
    }
    Ok(())
}

fn matrix(c: &mut Case) -> CaseResult {
    for _ in 0..8 {
        let v = any(&mut c.rng);
        c.feed(&format!("{v:?}"));
        only!(&v, i8, Tiny);
        only!(&v, i16, Short);
        only!(&v, i32, Int);
        only!(&v, i64, Long);
        only!(&v, u8, UTiny);
        only!(&v, u16, UShort);
        only!(&v, u32, UInt);
        only!(&v, u64, ULong);
        only!(&v, Vec<u8>, Bytes);
        floats(&v)?;
        let text = match &v {
            Value::Bytes(b) => String::from_utf8(b.clone()).ok(),
            _ => None,
        };
        if matches!(v, Value::Bytes(_)) && text.is_none() {
            c.count("non-UTF-8 bytes as text", 1);
        }
        target::<String>(&v, text, false)?;
        // negative numbers as truth values are left open
        let int: Option<i128> = match v {
            Value::Tiny(x) => Some(x as i128),
            Value::Short(x) => Some(x as i128),
            Value::Int(x) => Some(x as i128),
            Value::Long(x) => Some(x as i128),
            Value::UTiny(x) => Some(x as i128),
            Value::UShort(x) => Some(x as i128),
            Value::UInt(x) => Some(x as i128),
            Value::ULong(x) => Some(x as i128),
            _ => None,
        };
        match int {
            Some(x) if x < 0 => {}
            Some(x) => target::<bool>(&v, Some(x != 0), x > 1)?,
            None => target::<bool>(&v, None, false)?,
        }
        let valid = |y: u16, m: u8, d: u8| if date_ok(y, m, d) { NaiveDate::from_ymd_opt(y as i32, m as u32, d as u32) } else { None };
        match v {
            Value::Date(y, m, d) => target::<NaiveDate>(&v, valid(y, m, d), false)?,
            // the date of a point in time; whether that is allowed is left open
            Value::Datetime(y, m, d, ..) => target::<NaiveDate>(&v, valid(y, m, d), true)?,
            _ => target::<NaiveDate>(&v, None, false)?,
        }
        match v {
            Value::Datetime(y, mo, d, h, mi, s, us) => {
                let leap = s == 59 && (1_000_000..2_000_000).contains(&us);
                if !leap {
                    let want = valid(y, mo, d)
                        .filter(|_| h < 24 && mi < 60 && s < 60 && us < 1_000_000)
                        .and_then(|x| x.and_hms_micro_opt(h as u32, mi as u32, s as u32, us));
                    if want.is_none() {
                        c.count("impossible points in time", 1);
                    }
                    target::<NaiveDateTime>(&v, want, false)?;
                }
            }
            _ => target::<NaiveDateTime>(&v, None, false)?,
        }
        match v {
            Value::Time(neg, d, h, m, s, us) => {
                let total = (((d as i128 * 24 + h as i128) * 60 + m as i128) * 60 + s as i128) * 1_000_000 + us as i128;
                let total = if neg { -total } else { total };
                let x = Duration::new(total.div_euclid(1_000_000) as i64, (total.rem_euclid(1_000_000) * 1000) as u32);
                let normal = h < 24 && m < 60 && s < 60 && us < 1_000_000;
                target::<Duration>(&v, x, !normal)?;
                c.count("times converted", 1);
            }
            _ => target::<Duration>(&v, None, false)?,
        }
        let h: Result<Hex, _> = v.clone().try_into();
        match (&v, h) {
            (Value::Bytes(b), Ok(h)) => ensure!(*b == h.into_bytes(), "conversion lossy", "{v:?} as hex"),
            (Value::Bytes(_), Err(e)) => return violation("conversion refused", format!("{v:?} as hex: {e:?}")),
            (_, Ok(_)) => return violation("wrong kind accepted", format!("{v:?} became hex")),
            _ => {}
        }
        c.count("values against every type", 1);
    }
    Ok(())
}

pub fn main() {
    Check::new("C21", "values that differ; calendar: years")
        .assume("taking the date out of a point in time, negative numbers as truth values, leap seconds and times with fields out of range may be accepted or refused")
        .scale(12)
        .group_on(1, "small", 1, 1, small)
        .group("into", 60_000, 3_000_000, into_value)
        .group("dates", 150_000, 10_000_000, dates)
        .group("calendar", 600, 10_000, calendar)
        .group("durations", 150_000, 10_000_000, durations)
        .group("matrix", 60_000, 4_000_000, matrix)
        .require("round trips", 500_000)
        .require("unrepresentable dates refused", 10_000)
        .require("negative durations", 20_000)
        .require("values against every type", 300_000)
        .require("non-UTF-8 bytes as text", 2000)
        .require("impossible points in time", 5000)
        .require("times converted", 10_000)
        .main()
}
