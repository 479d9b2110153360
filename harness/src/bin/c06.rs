//! C06: text-protocol rows decode to the values the server sent.
use {
    mysql_connector::types::Value,
    vharness::{denote::*, kit::*, *},
};

/// Serves raw rows to one query and returns what `next` gave for each.
fn fetch(c: &mut Case, cols: &[ColSpec], raw: Vec<Vec<u8>>) -> Result<Vec<Result<Row, mysql_connector::Error>>, Fail> {
    let n = raw.len();
    let cols = cols.to_vec();
    let (link, _) = server(
        move |s: &mut Session, io: &mut PeerIo, cmd: Cmd| {
            if let Cmd::Query(_) = cmd {
                s.result(io, &cols, &raw, &OkSpec::default());
            }
        },
        IoPlan::default(),
    );
    let out = drive("query", async {
        let mut conn = must_connect(&link).await?;
        let mut rs = must(conn.query::<Row>("x").await, "query", "query")?;
        let mut out = Vec::new();
        for i in 0..n {
            match rs.next().await {
                Ok(Some(r)) => out.push(Ok(r)),
                Ok(None) => return violation("row missing", format!("row {i} of {n} is missing")),
                Err(e) => out.push(Err(e)),
            }
        }
        ensure!(must(rs.next().await, "end", "end of rows")?.is_none(), "extra row", "a row too many");
        Ok(out)
    })?;
    c.count("rows", n as u64);
    Ok(out)
}

fn check_row(c: &mut Case, cols: &[ColSpec], cells: &[Option<Vec<u8>>], got: &Result<Row, mysql_connector::Error>) -> CaseResult {
    let means: Vec<Meaning> = cols
        .iter()
        .zip(cells)
        .map(|(c, b)| match b {
            None => Meaning::Is(Value::Null),
            Some(b) => meaning(c, b),
        })
        .collect();
    let show = |i: usize| {
        format!(
            "column {i} of type {} flags {:#x}, text {}",
            cols[i].typ,
            cols[i].flags,
            brief(cells[i].as_ref().map(|b| String::from_utf8_lossy(b).into_owned()))
        )
    };
    match got {
        Ok(row) => {
            ensure!(row.len() == cols.len(), "cells", "{} cells for {} columns", row.len(), cols.len());
            for (i, (m, v)) in means.iter().zip(row).enumerate() {
                match m {
                    Meaning::Is(w) | Meaning::Maybe(w) => {
                        let same = if matches!(m, Meaning::Is(_)) && !matches!(w, Value::Time(..)) { same(w, v) } else { same_value(w, v) };
                        ensure!(same, "wrong value", "{} decoded to {}, it is {}", show(i), brief(v), brief(w));
                        c.count("cells compared", 1);
                    }
                    Meaning::Nothing => return violation("accepted", format!("{} is no such value, decoded to {}", show(i), brief(v))),
                    Meaning::Open => {}
                }
            }
        }
        Err(e) => {
            ensure!(
                !matches!(kind(e), Kind::Server { .. } | Kind::OutOfSync | Kind::Io(std::io::ErrorKind::TimedOut)),
                "wrong error",
                "{}",
                brief(e)
            );
            if means.iter().all(|m| matches!(m, Meaning::Is(_))) {
                let all: Vec<String> = (0..cols.len()).map(show).collect();
                return violation("rejected", format!("a correct row is rejected: {}; {}", brief(e), brief(all)));
            }
            c.count("malformed rows rejected", 1);
        }
    }
    Ok(())
}

fn values(c: &mut Case) -> CaseResult {
    let t = if c.idx % 32 == 5 {
        // long cells
        gen::Table::random(&mut c.rng, 4, 6, 1 << 20)
    } else {
        gen::Table::random(&mut c.rng, 12, 20, 3000)
    };
    let mut cells = Vec::new();
    for r in &t.rows {
        let row: Vec<_> = t.cols.iter().zip(r).map(|(col, v)| gen::text(&mut c.rng, col, v)).collect();
        cells.push(row);
    }
    for (col, i) in t.cols.iter().zip(0..) {
        for (r, row) in t.rows.iter().zip(&cells) {
            // the two descriptions of a value have to agree
            if let (Some(b), Meaning::Is(w)) = (&row[i], row[i].as_ref().map_or(Meaning::Open, |b| meaning(col, b))) {
                if !same_value(&w, &r[i]) {
                    return inconclusive(format!("generator and oracle disagree: {} vs {} for {}", brief(&w), brief(&r[i]), brief(b)));
                }
            }
        }
    }
    let got = fetch(c, &t.cols, cells.iter().map(|r| wire::text_row(r)).collect())?;
    for ((want, row), g) in t.rows.iter().zip(&cells).zip(&got) {
        check_row(c, &t.cols, row, g)?;
        if let Ok(g) = g {
            for (i, (a, b)) in want.iter().zip(g).enumerate() {
                ensure!(same_value(a, b), "wrong value", "column {i} (type {}): sent {}, decoded {}", t.cols[i].typ, brief(a), brief(b));
            }
        }
    }
    c.feed(&format!("{:?}", t.rows));
    c.sample(format!("{} columns, first row {}", t.cols.len(), brief(t.rows.first())));
    Ok(())
}

fn mutate(rng: &mut Rng, b: &[u8]) -> Vec<u8> {
    const ODD: &[u8] = b"0123456789 -+.:eETx/\0a,;_#\xff\x80\xc3";
    let mut v = b.to_vec();
    for _ in 0..rng.range(1, 3) {
        let n = v.len();
        match rng.below(9) {
            0 if n > 0 => {
                v.remove(rng.usize(n));
            }
            1 => v.insert(rng.usize(n + 1), *rng.pick(ODD)),
            2 if n > 0 => {
                let i = rng.usize(n);
                v[i] = *rng.pick(ODD);
            }
            3 => v.truncate(rng.usize(n + 1)),
            4 => v.push(*rng.pick(ODD)),
            5 => v.insert(0, *rng.pick(ODD)),
            6 if n > 0 => {
                // another digit
                let i = rng.usize(n);
                if v[i].is_ascii_digit() {
                    v[i] = b'0' + rng.below(10) as u8;
                }
            }
            7 if n > 0 => {
                let i = rng.usize(n);
                let x = v[i];
                v.insert(i, x);
            }
            8 => {
                // many digits
                let i = rng.usize(n + 1);
                for _ in 0..rng.usize(22) {
                    v.insert(i, b'0' + rng.below(10) as u8);
                }
            }
            _ => v.clear(),
        }
    }
    v
}

fn malformed(c: &mut Case) -> CaseResult {
    let n = c.rng.range(1, 4) as usize;
    let types: Vec<u8> = gen::ALL_TYPES.iter().copied().filter(|t| !gen::is_bytes(*t) && *t != typ::NULL).collect();
    let cols: Vec<ColSpec> = (0..n)
        .map(|_| {
            let t = *c.rng.pick(&types);
            gen::col(&mut c.rng, t)
        })
        .collect();
    let mut rows = Vec::new();
    for _ in 0..30 {
        let mut cells: Vec<Option<Vec<u8>>> = Vec::new();
        for col in &cols {
            let v = gen::cell(&mut c.rng, col, 10);
            cells.push(gen::text(&mut c.rng, col, &v));
        }
        let i = c.rng.usize(n);
        let v = gen::value(&mut c.rng, &cols[i], 10);
        let b = gen::text(&mut c.rng, &cols[i], &v).unwrap_or_default();
        cells[i] = Some(match c.rng.below(8) {
            0 => {
                // a value of another type
                let t = *c.rng.pick(&types);
                let o = gen::col(&mut c.rng, t);
                let v = gen::value(&mut c.rng, &o, 10);
                gen::text(&mut c.rng, &o, &v).unwrap_or_default()
            }
            _ => mutate(&mut c.rng, &b),
        });
        rows.push(cells);
    }
    let got = fetch(c, &cols, rows.iter().map(|r| wire::text_row(r)).collect())?;
    for (cells, g) in rows.iter().zip(&got) {
        check_row(c, &cols, cells, g)?;
    }
    c.feed(&format!("{rows:?}"));
    c.sample(format!("types {:?}, {}", cols.iter().map(|c| c.typ).collect::<Vec<_>>(), brief(rows.first())));
    Ok(())
}

/// Rows that end before their declared contents.
fn cut(c: &mut Case) -> CaseResult {
    let t = gen::Table::random(&mut c.rng, 5, 8, 400);
    if t.rows.is_empty() {
        c.trivial = true;
        return Ok(());
    }
    let mut raw = Vec::new();
    for r in &t.rows {
        let full = gen::text_row(&mut c.rng, &t.cols, r);
        // at least one byte has to stay, and it must not look like another packet
        let k = c.rng.usize(full.len());
        let b = full[..k].to_vec();
        if !b.is_empty() && !matches!(b[0], 0xFE | 0xFF) {
            raw.push(b);
        }
    }
    if raw.is_empty() {
        c.trivial = true;
        return Ok(());
    }
    let got = fetch(c, &t.cols, raw.clone())?;
    for (b, g) in raw.iter().zip(&got) {
        if let Ok(r) = g {
            return violation("accepted", format!("a row cut off after {} bytes was decoded to {}", b.len(), brief(r)));
        }
        c.count("cut rows rejected", 1);
    }
    c.feed(&raw);
    Ok(())
}

/// Every number of the narrow types, and the edges of the wide ones.
fn ranges(c: &mut Case) -> CaseResult {
    let (t, uns) = [
        (typ::TINY, false),
        (typ::TINY, true),
        (typ::SHORT, false),
        (typ::SHORT, true),
        (typ::INT24, false),
        (typ::INT24, true),
        (typ::LONG, false),
        (typ::LONG, true),
        (typ::LONGLONG, false),
        (typ::LONGLONG, true),
        (typ::YEAR, false),
        (typ::YEAR, true),
    ][(c.idx % 12) as usize];
    let mut col = ColSpec::new("n", t, if uns { wire::UNSIGNED } else { 0 });
    col.length = 20;
    let mut nums: Vec<i128> = Vec::new();
    let step = (c.idx / 12) as i128;
    for k in -40..=40i128 {
        nums.push(step * 81 + k - 300);
    }
    for bits in [7u32, 8, 15, 16, 23, 24, 31, 32, 63, 64] {
        for d in -2..=2 {
            nums.push((1i128 << bits) + d);
            nums.push(-(1i128 << bits) + d);
        }
    }
    let rows: Vec<Vec<Option<Vec<u8>>>> = nums.iter().map(|n| vec![Some(n.to_string().into_bytes())]).collect();
    let got = fetch(c, &[col.clone()], rows.iter().map(|r| wire::text_row(r)).collect())?;
    for (cells, g) in rows.iter().zip(&got) {
        check_row(c, &[col.clone()], cells, g)?;
    }
    c.feed(&c.idx.clone());
    Ok(())
}

pub fn main() {
    Check::new("C06", "one case = one result set of text rows; distinct by contents")
        .assume("texts that no server writes but that still denote a value may be decoded to it or rejected")
        .assume("inf/nan texts and clock fields past 59 (still representable) are not judged")
        .scale(20)
        .group("values", 4000, 150_000, values)
        .group("malformed", 6000, 250_000, malformed)
        .group("cut", 3000, 50_000, cut)
        .group("ranges", 240, 24_000, ranges)
        .require("cells compared", 50_000)
        .require("malformed rows rejected", 20_000)
        .require("cut rows rejected", 3000)
        .main()
}
