//! C08: result sets deliver all rows once, in order, with their metadata.
use {
    mysql_connector::types::Value,
    vharness::{
        gen,
        kit::*,
        script::ColInfo,
        *,
    },
};

/// What one statement answers.
#[derive(Clone)]
struct Plan {
    cols: Vec<ColSpec>,
    rows: Vec<Row>,
    raw: Vec<Vec<u8>>,
    end: OkSpec,
    binary: bool,
}

fn plan(rng: &mut Rng, binary: bool, n_cols: usize, n_rows: usize, max_bytes: usize) -> Plan {
    let cols = gen::cols(rng, n_cols);
    let rows: Vec<Row> = (0..n_rows).map(|_| cols.iter().map(|c| gen::cell(rng, c, max_bytes)).collect()).collect();
    let raw = rows.iter().map(|r| if binary { gen::bin_row(rng, &cols, r) } else { gen::text_row(rng, &cols, r) }).collect();
    let mut end = if n_cols == 0 { gen::ok(rng) } else { gen::end(rng) };
    if rng.chance(1, 40) {
        let n = *rng.pick(&[65_535usize, 65_536, 70_000, 252, 251]);
        end.message = rng.ascii(n).into_bytes();
    }
    Plan { cols, rows, raw, end, binary }
}

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Op {
    Next,
    Collect,
    One,
    Columns,
    Mapping,
}

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Last {
    Finish,
    FinishInner,
    IntoColumns,
    IntoInner,
    IntoMapping,
    Drop,
}

fn ops(rng: &mut Rng, rows: usize) -> (Vec<Op>, Last) {
    let mut l = Vec::new();
    let style = rng.below(4);
    let n = match style {
        // everything by next, and some more
        0 => rows + 3,
        _ => rng.usize(6),
    };
    for _ in 0..n {
        l.push(match style {
            0 => Op::Next,
            1 => *rng.pick(&[Op::Next, Op::Next, Op::Next, Op::Collect, Op::One]),
            _ => *rng.pick(&[Op::Next, Op::Next, Op::Columns, Op::Mapping, Op::Collect, Op::One]),
        });
    }
    if rng.coin() {
        let i = rng.usize(l.len() + 1);
        l.insert(i, Op::Columns);
    }
    let last = *rng.pick(&[Last::Finish, Last::Finish, Last::FinishInner, Last::FinishInner, Last::IntoColumns, Last::IntoInner, Last::IntoMapping, Last::Drop]);
    (l, last)
}

fn same_cols(p: &Plan, got: &[mysql_connector::types::Column], when: &str) -> CaseResult {
    let got: Vec<ColInfo> = got.iter().map(ColInfo::seen).collect();
    let want: Vec<ColInfo> = p.cols.iter().map(ColInfo::of).collect();
    ensure!(got == want, "columns", "{when}: columns {} instead of {}", brief(&got), brief(&want));
    Ok(())
}

/// Compares every step with a pointer into the rows the server sent.
macro_rules! check_set {
    ($c:expr, $rs:expr, $p:expr, $ops:expr, $last:expr, $dep:expr) => {{
        let (c, p, ops, last): (&mut Case, &Plan, &[Op], Last) = ($c, $p, $ops, $last);
        let mut rs = $rs;
        let mut at = 0;
        for (i, op) in ops.iter().enumerate() {
            match op {
                Op::Next => match rs.next().await {
                    Ok(Some(r)) => {
                        ensure!(at < p.rows.len(), "extra row", "operation {i}: a row after the last one: {}", brief(&r));
                        ensure!(same_row(&r, &p.rows[at]), "row", "operation {i}: row {at} is {} instead of {}", brief(&r), brief(&p.rows[at]));
                        at += 1;
                        c.count("rows by next", 1);
                    }
                    Ok(None) => {
                        ensure!(at == p.rows.len(), "early end", "operation {i}: the end after {at} of {} rows", p.rows.len());
                        c.count("ends", 1);
                    }
                    Err(e) => return violation("error", format!("operation {i} {op:?} at row {at}: {}", brief(e))),
                },
                Op::Collect => match rs.collect().await {
                    Ok(l) => {
                        ensure!(l.len() == p.rows.len() - at, "collect", "operation {i}: {} rows instead of {}", l.len(), p.rows.len() - at);
                        for (k, r) in l.iter().enumerate() {
                            ensure!(same_row(r, &p.rows[at + k]), "row", "operation {i}: row {} is {} instead of {}", at + k, brief(r), brief(&p.rows[at + k]));
                        }
                        c.count("rows by collect", l.len() as u64);
                        at = p.rows.len();
                    }
                    Err(e) => return violation("error", format!("operation {i} {op:?} at row {at}: {}", brief(e))),
                },
                Op::One => match rs.one().await {
                    Ok(Some(r)) => {
                        ensure!(at < p.rows.len(), "extra row", "operation {i}: `one` gave a row after the last one");
                        ensure!(same_row(&r, &p.rows[at]), "row", "operation {i}: `one` gave {} instead of {}", brief(&r), brief(&p.rows[at]));
                        at = p.rows.len();
                        c.count("rows by one", 1);
                    }
                    Ok(None) => ensure!(at == p.rows.len(), "early end", "operation {i}: `one` gave nothing after {at} of {} rows", p.rows.len()),
                    Err(e) => return violation("error", format!("operation {i} {op:?} at row {at}: {}", brief(e))),
                },
                Op::Columns => {
                    same_cols(p, rs.columns(), "columns()")?;
                    c.count("column lists", 1);
                }
                Op::Mapping => {
                    let _ = rs.mapping();
                }
            }
        }
        let want = if p.cols.is_empty() { Summary::of(&p.end) } else { Summary::of_end(&p.end, $dep) };
        match last {
            Last::Finish => {
                let ok = must(rs.finish().await, "error", "finish")?;
                let got = summary!(ok);
                ensure!(got == want, "summary", "finish gave {} instead of {}", brief(&got), brief(&want));
                c.count("summaries", 1);
            }
            Last::FinishInner => {
                let (ok, cols, _) = must(rs.finish_into_inner().await, "error", "finish_into_inner")?;
                let got = summary!(ok);
                ensure!(got == want, "summary", "finish_into_inner gave {} instead of {}", brief(&got), brief(&want));
                same_cols(p, &cols, "finish_into_inner")?;
                c.count("summaries", 1);
            }
            Last::IntoColumns => same_cols(p, &rs.into_columns(), "into_columns")?,
            Last::IntoInner => same_cols(p, &rs.into_inner().0, "into_inner")?,
            Last::IntoMapping => {
                let _ = rs.into_mapping();
            }
            Last::Drop => {}
        }
    }};
}

fn check(c: &mut Case, plans: Vec<Plan>, dep: bool, io: IoPlan) -> CaseResult {
    let mut queue: std::collections::VecDeque<Plan> = plans.clone().into();
    let handler = move |s: &mut Session, io: &mut PeerIo, cmd: Cmd| {
        match &cmd {
            Cmd::Query(_) | Cmd::Execute { .. } => {
                let Some(p) = queue.pop_front() else { return };
                if p.cols.is_empty() {
                    s.ok(io, &p.end)
                } else {
                    s.result(io, &p.cols, &p.raw, &p.end)
                }
            }
            Cmd::Prepare(q) => {
                let cols = queue.front().map(|p| p.cols.clone()).unwrap_or_default();
                s.prepared(io, q, 0, &cols);
            }
            _ => {}
        }
    };
    let mut srv = Server::new(handler);
    if !dep {
        srv.greeting.caps &= !caps::DEPRECATE_EOF;
    }
    let (link, _) = srv.link(io);
    c.note(format!("deprecate eof {dep}"));
    drive("result sets", async {
        let mut conn = must_connect(&link).await?;
        for p in &plans {
            let (o, last) = ops(&mut c.rng, p.rows.len());
            c.note(format!("{} columns, {} rows, binary {}: {} then {last:?}", p.cols.len(), p.rows.len(), p.binary, brief(&o)));
            c.note(format!("  cols {}", brief(&p.cols)));
            c.note(format!("  rows {}", brief(&p.rows)));
            c.feed(&(p.cols.len(), p.rows.len(), p.binary, dep));
            c.feed(&o);
            c.feed(&last);
            if p.binary {
                let mut ps = must(conn.prepare_statement("x").await, "error", "prepare")?;
                let rs = must(ps.query::<Value, Row>(&[]).await, "error", "execution")?;
                check_set!(c, rs, p, &o, last, dep);
            } else {
                let rs = must(conn.query::<Row>("x").await, "error", "query")?;
                check_set!(c, rs, p, &o, last, dep);
            }
            c.count("result sets", 1);
        }
        Ok(())
    })?;
    frames_ok(&link)?;
    c.sample(format!("{:?}", plans.iter().map(|p| (p.cols.len(), p.rows.len(), p.binary)).collect::<Vec<_>>()));
    Ok(())
}

fn io(rng: &mut Rng) -> IoPlan {
    if rng.coin() {
        IoPlan::default()
    } else {
        IoPlan::random(rng)
    }
}

fn small(c: &mut Case) -> CaseResult {
    let dep = c.rng.coin();
    let n = c.rng.range(1, 4);
    let plans = (0..n)
        .map(|_| {
            let binary = c.rng.coin();
            let cols = c.rng.usize(7);
            let rows = if cols == 0 { 0 } else { c.rng.usize(7) };
            plan(&mut c.rng, binary, cols, rows, 400)
        })
        .collect();
    let p = io(&mut c.rng);
    check(c, plans, dep, p)
}

/// Sequence numbers wrap, counts need more than a byte.
fn many_rows(c: &mut Case) -> CaseResult {
    let dep = c.rng.coin();
    let binary = c.rng.coin();
    let cols = c.rng.range(1, 4) as usize;
    let rows = *c.rng.pick(&[100usize, 249, 250, 251, 252, 253, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 3000]);
    let a = plan(&mut c.rng, binary, cols, rows, 5);
    let b = plan(&mut c.rng, !binary, 1, 3, 5);
    let p = io(&mut c.rng);
    check(c, vec![a, b], dep, p)
}

fn many_cols(c: &mut Case) -> CaseResult {
    let dep = c.rng.coin();
    let binary = c.rng.coin();
    let cols = *c.rng.pick(&[7usize, 8, 9, 60, 250, 251, 252, 253, 255, 256, 257, 300, 1000, 4096]);
    let rows = c.rng.usize(4);
    let a = plan(&mut c.rng, binary, cols, rows, 3);
    let b = plan(&mut c.rng, !binary, 2, 1, 5);
    check(c, vec![a, b], dep, IoPlan::default())
}

/// Single cells around the sizes where the length encoding changes.
fn wide_cells(c: &mut Case) -> CaseResult {
    let dep = c.rng.coin();
    let binary = c.rng.coin();
    let t = *c.rng.pick(&[typ::BLOB, typ::VARSTRING, typ::JSON, typ::LONGBLOB]);
    let col = gen::col(&mut c.rng, t);
    let mut rows = Vec::new();
    for _ in 0..3 {
        let n = *c.rng.pick(&[0usize, 1, 250, 251, 252, 253, 254, 255, 256, 65_534, 65_535, 65_536, 65_537, 200_000]);
        rows.push(vec![Value::Bytes(c.rng.filler(n))]);
    }
    let cols = vec![col];
    let raw = rows
        .iter()
        .map(|r| if binary { gen::bin_row(&mut c.rng, &cols, r) } else { gen::text_row(&mut c.rng, &cols, r) })
        .collect();
    let end = gen::end(&mut c.rng);
    check(c, vec![Plan { cols, rows, raw, end, binary }], dep, IoPlan::default())
}

pub fn main() {
    Check::new("C08", "one case = a few result sets on one connection; distinct by shapes and sequence of calls")
        .assume("the old EOF packet carries no message, so none is demanded there")
        .scale(10)
        .group("small", 12_000, 500_000, small)
        .group("many_rows", 300, 10_000, many_rows)
        .group("many_cols", 200, 6000, many_cols)
        .group("wide_cells", 400, 10_000, wide_cells)
        .require("result sets", 10_000)
        .require("ends", 1000)
        .require("summaries", 5000)
        .main()
}
