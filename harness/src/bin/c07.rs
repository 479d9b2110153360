//! C07: binary-protocol rows decode to the values the server sent.
use {
    mysql_connector::types::Value,
    vharness::{denote::same_value, kit::*, *},
};

type Got = Vec<Result<Row, mysql_connector::Error>>;

/// Serves raw rows, binary for the prepared statement and text for the query.
fn fetch(c: &mut Case, cols: &[ColSpec], bin: Vec<Vec<u8>>, text: Option<Vec<Vec<u8>>>) -> Result<(Got, Option<Got>), Fail> {
    let (nb, nt) = (bin.len(), text.as_ref().map(|t| t.len()));
    let cols = cols.to_vec();
    let prep_cols = if c.rng.coin() { cols.clone() } else { vec![] };
    let (link, _) = server(
        move |s: &mut Session, io: &mut PeerIo, cmd: Cmd| match cmd {
            Cmd::Query(_) => s.result(io, &cols, text.as_deref().unwrap_or(&[]), &OkSpec::default()),
            Cmd::Prepare(q) => {
                s.prepared(io, &q, 0, &prep_cols);
            }
            Cmd::Execute { .. } => s.result(io, &cols, &bin, &OkSpec::default()),
            _ => {}
        },
        IoPlan::default(),
    );
    macro_rules! rows {
        ($rs:expr, $n:expr) => {{
            let mut rs = must($rs, "query", "query")?;
            let mut out = Vec::new();
            for i in 0..$n {
                match rs.next().await {
                    Ok(Some(r)) => out.push(Ok(r)),
                    Ok(None) => return violation("row missing", format!("row {i} of {} is missing", $n)),
                    Err(e) => out.push(Err(e)),
                }
            }
            ensure!(must(rs.next().await, "end", "end of rows")?.is_none(), "extra row", "a row too many");
            out
        }};
    }
    let out = drive("query", async {
        let mut conn = must_connect(&link).await?;
        let b = {
            let mut st = must(conn.prepare_statement("x").await, "prepare", "prepare")?;
            rows!(st.query::<Value, Row>(&[]).await, nb)
        };
        let t = match nt {
            Some(n) => Some(rows!(conn.query::<Row>("x").await, n)),
            None => None,
        };
        Ok((b, t))
    })?;
    c.count("rows", nb as u64);
    Ok(out)
}

fn describe(c: &ColSpec) -> String {
    format!("type {} flags {:#x}", c.typ, c.flags)
}

fn table(c: &mut Case, t: gen::Table, text: bool) -> CaseResult {
    let bin = t.bin(&mut c.rng);
    let txt = text.then(|| t.text(&mut c.rng));
    let (b, x) = fetch(c, &t.cols, bin.clone(), txt)?;
    for (r, (want, got)) in t.rows.iter().zip(&b).enumerate() {
        let row = match got {
            Ok(r) => r,
            Err(e) => return violation("rejected", format!("row {r} {} of {:?}: {}", brief(want), brief(t.cols.iter().map(describe).collect::<Vec<_>>()), brief(e))),
        };
        ensure!(row.len() == want.len(), "cells", "{} cells of {}", row.len(), want.len());
        for (i, (w, v)) in want.iter().zip(row).enumerate() {
            ensure!(same_value(w, v), "wrong value", "row {r} column {i} ({}): sent {}, decoded {}; row {}", describe(&t.cols[i]), brief(w), brief(v), brief(&bin[r]));
            c.count("cells compared", 1);
        }
        if let Some(x) = &x {
            if let Some(Ok(tr)) = x.get(r) {
                for (i, (a, b)) in row.iter().zip(tr).enumerate() {
                    ensure!(same_value(a, b), "protocols differ", "row {r} column {i} ({}): binary {}, text {}", describe(&t.cols[i]), brief(a), brief(b));
                    c.count("cells compared with text", 1);
                }
            }
        }
    }
    c.feed(&format!("{:?}", t.rows));
    c.feed(&bin);
    c.sample(format!("{} columns, first row {}", t.cols.len(), brief(t.rows.first())));
    Ok(())
}

fn values(c: &mut Case) -> CaseResult {
    let t = if c.idx % 32 == 5 {
        // long cells
        gen::Table::random(&mut c.rng, 4, 6, 1 << 20)
    } else {
        gen::Table::random(&mut c.rng, 12, 20, 3000)
    };
    table(c, t, true)
}

/// NULL bitmaps of every length.
fn nulls(c: &mut Case) -> CaseResult {
    let n = 1 + (c.idx % 300) as usize;
    let cols: Vec<ColSpec> = (0..n).map(|i| ColSpec::new("c", if i % 3 == 2 { typ::VARSTRING } else { typ::TINY }, 0)).collect();
    let mut rows: Vec<Row> = Vec::new();
    let val = |c: &mut Case, i: usize| if i % 3 == 2 { Value::Bytes(c.rng.bytes(2)) } else { Value::Tiny(c.rng.u8() as i8) };
    for k in 0..6 {
        let den = [1u64, 2, 2, 10, 50, 3][k];
        let one = c.rng.usize(n);
        let row = (0..n)
            .map(|i| {
                let null = match k {
                    4 => i == one,
                    5 => i != one,
                    _ => c.rng.chance(1, den),
                };
                if null {
                    Value::Null
                } else {
                    val(c, i)
                }
            })
            .collect();
        rows.push(row);
    }
    c.count("NULL bitmap lengths", 1);
    table(c, gen::Table { cols, rows }, false)
}

/// Every length the protocol allows for dates and times.
fn lengths(c: &mut Case) -> CaseResult {
    let n = c.rng.range(1, 5) as usize;
    let cols: Vec<ColSpec> = (0..n)
        .map(|_| {
            let t = *c.rng.pick(&[typ::DATE, typ::DATETIME, typ::TIMESTAMP, typ::TIME, typ::TIME, typ::LONG]);
            gen::col(&mut c.rng, t)
        })
        .collect();
    let rows = (0..20).map(|_| cols.iter().map(|k| gen::cell(&mut c.rng, k, 10)).collect()).collect();
    c.count("date and time cells", 20 * n as u64);
    table(c, gen::Table { cols, rows }, true)
}

/// Input that ends too early.
fn cut(c: &mut Case) -> CaseResult {
    let t = gen::Table::random(&mut c.rng, 6, 10, 400);
    let mut raw = Vec::new();
    for b in t.bin(&mut c.rng) {
        let k = c.rng.usize(b.len());
        if k > 0 {
            raw.push(b[..k].to_vec());
        }
    }
    if raw.is_empty() {
        c.trivial = true;
        return Ok(());
    }
    let (got, _) = fetch(c, &t.cols, raw.clone(), None)?;
    for (b, g) in raw.iter().zip(&got) {
        match g {
            Ok(r) => {
                return violation("accepted", format!("a row cut off after {} bytes ({}) was decoded to {}; columns {}", b.len(), brief(b), brief(r), brief(t.cols.iter().map(describe).collect::<Vec<_>>())))
            }
            Err(e) => ensure!(!matches!(kind(e), Kind::Server { .. } | Kind::OutOfSync), "wrong error", "{}", brief(e)),
        }
        c.count("cut rows rejected", 1);
    }
    c.feed(&raw);
    Ok(())
}

/// Lengths of dates, times and strings that are not the protocol's: the cell is rejected, or
/// its neighbours are still right.
fn odd_lengths(c: &mut Case) -> CaseResult {
    let t = *c.rng.pick(&[typ::DATE, typ::DATETIME, typ::TIMESTAMP, typ::TIME]);
    let cols = vec![ColSpec::new("a", typ::LONG, 0), gen::col(&mut c.rng, t), ColSpec::new("b", typ::VARSTRING, 0)];
    let mut raw = Vec::new();
    let mut want = Vec::new();
    for _ in 0..12 {
        let n = c.rng.range(1, 30) as u8;
        let fine: &[u8] = if t == typ::TIME { &[0, 8, 12] } else { &[0, 4, 7, 11] };
        if fine.contains(&n) {
            continue;
        }
        let a = c.rng.u32() as i32;
        let mut cell = vec![n];
        cell.extend(c.rng.bytes(n as usize));
        let mut b = vec![3];
        b.extend(b"xyz");
        raw.push(wire::bin_row(&[Some(a.to_le_bytes().to_vec()), Some(cell), Some(b)]));
        want.push(a);
    }
    let (got, _) = fetch(c, &cols, raw.clone(), None)?;
    for ((b, w), g) in raw.iter().zip(&want).zip(&got) {
        match g {
            Ok(r) => ensure!(
                r.first() == Some(&Value::Int(*w)) && r.get(2) == Some(&Value::Bytes(b"xyz".to_vec())),
                "neighbours changed",
                "type {t}, row {}: {}",
                brief(b),
                brief(r)
            ),
            Err(_) => c.count("odd lengths rejected", 1),
        }
    }
    c.feed(&raw);
    Ok(())
}

/// Column types that the client does not know or cannot decode: an error, not a panic and not data of another type.
fn unknown(c: &mut Case) -> CaseResult {
    let t = c.idx as u8;
    let known = gen::ALL_TYPES.contains(&t);
    let cols = vec![ColSpec::new("a", t, c.rng.u64() as u16 & 32)];
    let raw = vec![wire::bin_row(&[Some(c.rng.bytes(9))])];
    let (link, _) = server(
        move |s: &mut Session, io: &mut PeerIo, cmd: Cmd| match cmd {
            Cmd::Query(q) if q == b"ok" => s.ok(io, &OkSpec { affected: 5, ..Default::default() }),
            Cmd::Prepare(q) => {
                s.prepared(io, &q, 0, &cols);
            }
            _ => s.result(io, &cols, &raw, &OkSpec::default()),
        },
        IoPlan::default(),
    );
    drive("query", async {
        let mut conn = must_connect(&link).await?;
        if let Ok(mut st) = conn.prepare_statement("x").await {
            if let Ok(mut rs) = st.query::<Value, Row>(&[]).await {
                let _ = rs.next().await;
            }
        }
        if let Ok(mut rs) = conn.query::<Row>("x").await {
            let _ = rs.next().await;
        }
        let ok = must(conn.execute_query("ok").await, "after", "command after a result with an unknown type")?;
        ensure!(ok.affected_rows() == 5, "after", "wrong answer");
        Ok(())
    })?;
    c.count("column types", 1);
    c.count("types of servers", known as u64);
    c.feed(&t);
    Ok(())
}

pub fn main() {
    Check::new("C07", "one case = one result set of binary rows; distinct by contents and encoding")
        .assume("a time of zero has no sign")
        .scale(15)
        .group("values", 4000, 150_000, values)
        .group("nulls", 600, 30_000, nulls)
        .group("lengths", 3000, 100_000, lengths)
        .group("cut", 4000, 100_000, cut)
        .group("odd_lengths", 2000, 50_000, odd_lengths)
        .group("unknown", 256, 2560, unknown)
        .require("cells compared", 100_000)
        .require("cells compared with text", 50_000)
        .require("cut rows rejected", 5000)
        .require("NULL bitmap lengths", 300)
        .main()
}
