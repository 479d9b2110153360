//! C09: prepared-statement parameters reach the server unchanged.
use {
    mysql_connector::{types::Value, Error},
    std::sync::{Arc, Mutex},
    vharness::{gen, kit::*, *},
};

#[derive(Default)]
struct Seen {
    /// (statement id, flags, iterations, parameters)
    execs: Vec<(u32, u8, u32, Result<Vec<Param>, String>)>,
    others: u64,
    long: u64,
    commands: u64,
}

#[derive(Clone, Debug)]
enum Reply {
    Ok(OkSpec),
    Err(ErrSpec),
    Rows(usize),
}

struct Srv {
    seen: Arc<Mutex<Seen>>,
    /// id, parameters, columns
    prepares: Vec<(u32, usize, usize)>,
    replies: Vec<Reply>,
}

impl Handler for Srv {
    fn cmd(&mut self, s: &mut Session, io: &mut PeerIo, cmd: Cmd) {
        let mut seen = lock(&self.seen);
        seen.commands += 1;
        match cmd {
            Cmd::Prepare(q) => {
                let (id, params, cols) = self.prepares.remove(0);
                let cols: Vec<ColSpec> = (0..cols).map(|i| ColSpec::new(&format!("c{i}"), typ::LONGLONG, 0)).collect();
                s.prepared_as(io, id, &q, params, &cols);
            }
            Cmd::Execute { stmt, flags, iterations, params } => {
                seen.execs.push((stmt, flags, iterations, params));
                match self.replies.remove(0) {
                    Reply::Ok(o) => s.ok(io, &o),
                    Reply::Err(e) => s.err(io, &e),
                    Reply::Rows(n) => {
                        let cols = [ColSpec::new("n", typ::LONGLONG, 0)];
                        let rows: Vec<Vec<u8>> = (0..n).map(|i| wire::bin_row(&[Some((i as u64).to_le_bytes().to_vec())])).collect();
                        s.result(io, &cols, &rows, &OkSpec { status: 2, ..Default::default() });
                    }
                }
            }
            Cmd::LongData { .. } => seen.long += 1,
            _ => seen.others += 1,
        }
    }
}

/// A value a user may bind.
fn param(rng: &mut Rng, max: usize) -> Value {
    let t = match rng.below(12) {
        0 => return Value::Null,
        1 | 2 => typ::BLOB,
        3 => typ::TIME,
        4 => typ::DATETIME,
        5 => typ::DATE,
        6 => typ::FLOAT,
        7 => typ::DOUBLE,
        _ => *rng.pick(&[typ::TINY, typ::SHORT, typ::LONG, typ::LONGLONG]),
    };
    let mut c = ColSpec::new("p", t, 0);
    if rng.coin() {
        c.flags = wire::UNSIGNED;
    }
    match rng.below(20) {
        0 => Value::Bytes({
            let n = *rng.pick(&[0usize, 1, 250, 251, 252, 255, 256, 65_535, 65_536]);
            rng.filler(n)
        }),
        1 => *Box::new(rng.pick(&[
            Value::Date(0, 0, 0),
            Value::Datetime(0, 0, 0, 0, 0, 0, 0),
            Value::Datetime(2020, 1, 2, 0, 0, 0, 0),
            Value::Datetime(2020, 1, 2, 0, 0, 0, 1),
            Value::Datetime(2020, 1, 2, 0, 0, 1, 0),
            Value::Datetime(0, 0, 0, 0, 0, 0, 7),
            Value::Datetime(0, 0, 0, 1, 0, 0, 0),
            Value::Time(false, 0, 0, 0, 0, 0),
            Value::Time(true, 0, 0, 0, 0, 1),
            Value::Time(true, 34, 22, 59, 59, 999_999),
            Value::Time(true, 1, 0, 0, 0, 0),
            Value::Time(false, 0, 0, 1, 0, 0),
        ]).clone()),
        _ => match gen::value(rng, &c, max) {
            Value::Time(neg, _, h, m, s, us) if rng.chance(1, 8) => Value::Time(neg, rng.edgy(32) as u32, h, m, s, us),
            v => v,
        },
    }
}

fn same_param(v: &Value, p: &Param) -> Result<(), String> {
    use Value as V;
    let int = |t: u8, uns: bool, val: PVal| p.typ == t && p.unsigned == uns && !p.long && p.val == val;
    let ok = match v {
        V::Null => p.val == PVal::Null && !p.long,
        V::Tiny(x) => int(typ::TINY, false, PVal::Int(*x as i64)),
        V::Short(x) => int(typ::SHORT, false, PVal::Int(*x as i64)),
        V::Int(x) => int(typ::LONG, false, PVal::Int(*x as i64)),
        V::Long(x) => int(typ::LONGLONG, false, PVal::Int(*x)),
        V::UTiny(x) => int(typ::TINY, true, PVal::UInt(*x as u64)),
        V::UShort(x) => int(typ::SHORT, true, PVal::UInt(*x as u64)),
        V::UInt(x) => int(typ::LONG, true, PVal::UInt(*x as u64)),
        V::ULong(x) => int(typ::LONGLONG, true, PVal::UInt(*x)),
        V::Float(x) => p.typ == typ::FLOAT && p.val == PVal::F32(x.to_bits()),
        V::Double(x) => p.typ == typ::DOUBLE && p.val == PVal::F64(x.to_bits()),
        V::Bytes(x) => gen::is_bytes(p.typ) && matches!(&p.val, PVal::Bytes(y) if x == y),
        V::Date(y, m, d) => p.typ == typ::DATE && p.val == PVal::Date(*y, *m, *d, 0, 0, 0, 0),
        V::Datetime(y, m, d, h, i, s, us) => {
            matches!(p.typ, typ::DATETIME | typ::TIMESTAMP) && p.val == PVal::Date(*y, *m, *d, *h, *i, *s, *us)
        }
        // zero has no sign
        V::Time(neg, d, h, m, s, us) => {
            let zero = (*d, *h, *m, *s, *us) == (0, 0, 0, 0, 0);
            p.typ == typ::TIME
                && match p.val {
                    PVal::Time(n, a, b, c, e, f) => (a, b, c, e, f) == (*d, *h, *m, *s, *us) && (zero || n == *neg),
                    _ => false,
                }
        }
    };
    if ok {
        Ok(())
    } else {
        Err(format!("{} arrived as {}", brief(v), brief(p)))
    }
}

/// How the values are passed.
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Via {
    Execute,
    ExecuteRef,
    Query,
    QueryHalf,
}

fn statements(c: &mut Case, plans: Vec<(u32, usize, usize, Vec<(Via, Vec<Value>, Reply)>)>, io: IoPlan, dep: bool) -> CaseResult {
    let seen: Arc<Mutex<Seen>> = Default::default();
    let srv = Srv {
        seen: seen.clone(),
        prepares: plans.iter().map(|p| (p.0, p.1, p.2)).collect(),
        replies: plans
            .iter()
            .flat_map(|p| p.3.iter().filter(|e| e.1.len() == p.1).map(|e| e.2.clone()))
            .collect(),
    };
    let mut srv = Server::new(srv);
    if !dep {
        srv.greeting.caps &= !caps::DEPRECATE_EOF;
    }
    let (link, session) = srv.link(io);
    drive("executions", async {
        let mut conn = must_connect(&link).await?;
        for (id, n, cols, execs) in &plans {
            c.note(format!("statement {id}: {n} parameters, {cols} columns"));
            let mut ps = must(conn.prepare_statement("p").await, "error", "prepare")?;
            for (k, (via, values, reply)) in execs.iter().enumerate() {
                c.note(format!("  {via:?} {} -> {}", brief(values), brief(reply)));
                let before = {
                    let s = lock(&seen);
                    (s.execs.len(), s.commands)
                };
                let refs: Vec<&Value> = values.iter().collect();
                let res: Result<bool, Error> = match via {
                    Via::Execute => ps.execute(values).await.map(|_| true),
                    Via::ExecuteRef => ps.execute(&refs).await.map(|_| true),
                    Via::Query => match ps.query::<Value, Row>(values).await {
                        Ok(mut r) => r.collect().await.map(|_| true),
                        Err(e) => Err(e),
                    },
                    Via::QueryHalf => match ps.query::<&Value, Row>(&refs).await {
                        Ok(mut r) => r.next().await.map(|_| true),
                        Err(e) => Err(e),
                    },
                };
                let s = lock(&seen);
                if values.len() != *n {
                    ensure!(res.is_err(), "count", "{} values for {n} parameters were accepted", values.len());
                    ensure!(
                        s.commands == before.1,
                        "count",
                        "{} values for {n} parameters: {} commands were sent",
                        values.len(),
                        s.commands - before.1
                    );
                    c.count("wrong counts rejected", 1);
                    continue;
                }
                match (&res, reply) {
                    (Err(e), Reply::Err(want)) => ensure!(is_server(e, want), "error", "execution {k}: {} instead of {}", brief(e), brief(want)),
                    // rows of a statement that was only executed are an error, or discarded
                    (_, Reply::Rows(_)) if matches!(via, Via::Execute | Via::ExecuteRef) => {}
                    (Err(e), _) => return violation("error", format!("execution {k} ({via:?}) failed: {}", brief(e))),
                    (Ok(_), Reply::Err(e)) => return violation("error", format!("execution {k}: success instead of {}", brief(e))),
                    (Ok(_), _) => {}
                }
                ensure!(s.execs.len() == before.0 + 1, "executions", "execution {k}: the server saw {} executions", s.execs.len() - before.0);
                let (stmt, flags, iterations, params) = &s.execs[before.0];
                ensure!(stmt == id, "statement", "execution {k}: statement {stmt} instead of {id}");
                ensure!(*flags == 0 && *iterations == 1, "header", "execution {k}: flags {flags}, iterations {iterations}");
                let params = match params {
                    Ok(p) => p,
                    Err(e) => return violation("encoding", format!("execution {k}: the server cannot read the parameters {}: {e}", brief(values))),
                };
                ensure!(params.len() == *n, "encoding", "execution {k}: {} parameters instead of {n}", params.len());
                for (i, (v, p)) in values.iter().zip(params).enumerate() {
                    if let Err(e) = same_param(v, p) {
                        return violation("value", format!("execution {k}, parameter {i}: {e}"));
                    }
                    if p.long {
                        c.count("parameters as long data", 1);
                    }
                    if p.val == PVal::Null {
                        c.count("nulls", 1);
                    }
                }
                c.count("parameters", params.len() as u64);
                c.count("executions", 1);
                c.feed(&(via, values.len()));
                c.feed(&brief(values));
            }
        }
        Ok(())
    })?;
    frames_ok(&link)?;
    let s = lock(&session);
    ensure!(s.protocol_errors.is_empty(), "protocol", "{:?}", s.protocol_errors);
    let seen = lock(&seen);
    ensure!(seen.others == 0, "commands", "{} unexpected commands", seen.others);
    Ok(())
}

fn reply(rng: &mut Rng) -> Reply {
    match rng.below(8) {
        0 => Reply::Err(gen::err(rng)),
        1 | 2 => Reply::Rows(rng.usize(4)),
        _ => Reply::Ok(gen::ok(rng)),
    }
}

fn via(rng: &mut Rng) -> Via {
    *rng.pick(&[Via::Execute, Via::ExecuteRef, Via::Query, Via::QueryHalf])
}

fn small(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let n = r.range(1, 3);
    let mut plans = Vec::new();
    for i in 0..n {
        let id = match r.below(3) {
            0 => 1 + i as u32,
            1 => *r.pick(&[0, u32::MAX, 0x0100_0000, 255, 256, 65_536]),
            _ => r.u32(),
        };
        let params = *r.pick(&[0usize, 1, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 24, 25, 40]);
        let cols = *r.pick(&[0usize, 0, 1, 2, 5]);
        let execs = (0..r.range(1, 4))
            .map(|_| {
                let count = if r.chance(1, 6) { *r.pick(&[0, params.saturating_sub(1), params + 1, params + 8]) } else { params };
                let nulls = r.chance(1, 8);
                let values = (0..count).map(|_| if nulls && r.chance(3, 4) { Value::Null } else { param(r, 60) }).collect();
                (via(r), values, reply(r))
            })
            .collect();
        plans.push((id, params, cols, execs));
    }
    let io = if r.coin() { IoPlan::default() } else { IoPlan::random(r) };
    let dep = r.coin();
    statements(c, plans, io, dep)
}

fn many_params(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let params = *r.pick(&[64usize, 100, 255, 256, 257, 300, 1000, 2047]);
    let execs = (0..2)
        .map(|_| {
            let values = (0..params).map(|_| param(r, 10)).collect();
            (via(r), values, reply(r))
        })
        .collect();
    let dep = r.coin();
    statements(c, vec![(7, params, 2, execs)], IoPlan::default(), dep)
}

fn max_params(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let params = if c.idx == 0 { 65_535 } else { *r.pick(&[65_535usize, 65_534, 32_768, 40_000]) };
    let values = (0..params).map(|_| param(r, 3)).collect();
    let execs = vec![(Via::Execute, values, Reply::Ok(OkSpec::default()))];
    statements(c, vec![(7, params, 0, execs)], IoPlan::default(), true)
}

/// More values than a statement can have parameters.
fn beyond(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let params = *r.pick(&[0usize, 1, 2, 7, 300]);
    let mut execs: Vec<_> = (0..4)
        .map(|i| {
            let via = [Via::Execute, Via::ExecuteRef, Via::Query, Via::QueryHalf][i];
            let count = *r.pick(&[256usize, 65_536, 65_536, 131_072]) + params;
            (via, vec![Value::UTiny(1); count], reply(r))
        })
        .collect();
    let values = (0..params).map(|_| param(r, 10)).collect();
    execs.push((via(r), values, reply(r)));
    statements(c, vec![(7, params, 1, execs)], IoPlan::default(), true)
}

/// Executions around the size where byte strings are sent on their own.
fn long(c: &mut Case) -> CaseResult {
    const MAX: usize = 0xFF_FFFF;
    let r = &mut c.rng;
    let params = *r.pick(&[1usize, 2, 3, 9, 12]);
    let bytes = |r: &mut Rng, n: usize| {
        // cheap, but position dependent
        let mut v = r.filler(n);
        if n > 100 {
            let m = n / 2;
            v[m] ^= 0x5A;
            v[n - 1] ^= 0xA5;
        }
        v
    };
    let mut execs: Vec<(Via, Vec<Value>, Reply)> = Vec::new();
    let n = r.range(1, 3);
    for k in 0..n {
        let mut values: Vec<Value> = (0..params).map(|_| param(r, 30)).collect();
        let i = r.usize(params);
        if k == 0 || r.coin() {
            let len = match r.below(8) {
                // the whole command just below, at or above one packet
                0..=2 => (MAX as i64 - *r.pick(&[0i64, 1, 2, 5, 10, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 30, 40, 60])) as usize,
                3 => MAX - 6,
                4 => MAX - 5,
                5 => 2 * (MAX - 6) + r.usize(3) - 1,
                6 => MAX + r.usize(100),
                _ => r.range(MAX as u64, 40_000_000) as usize,
            };
            values[i] = Value::Bytes(bytes(r, len));
            if params > 1 && r.coin() {
                let j = (i + 1) % params;
                values[j] = match r.below(3) {
                    0 => Value::Bytes(vec![]),
                    1 => Value::Null,
                    _ => Value::Bytes(bytes(r, MAX - 6 + 1)),
                };
            }
        }
        execs.push((via(r), values, reply(r)));
    }
    // then a small one
    execs.push((Via::Execute, (0..params).map(|_| param(r, 30)).collect(), Reply::Ok(gen::ok(r))));
    statements(c, vec![(3, params, 1, execs)], IoPlan::default(), true)
}

/// Many bytes in many parameters, none of them large alone.
fn spread(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let params = r.range(17, 40) as usize;
    let values: Vec<Value> = (0..params)
        .map(|_| match r.below(6) {
            0 => param(r, 30),
            _ => {
                let n = 900_000 + r.usize(200_000);
                Value::Bytes(r.filler(n))
            }
        })
        .collect();
    let execs = vec![(via(r), values, reply(r)), (Via::Execute, (0..params).map(|_| param(r, 9)).collect(), Reply::Ok(gen::ok(r)))];
    statements(c, vec![(9, params, 0, execs)], IoPlan::default(), true)
}

pub fn main() {
    Check::new("C09", "one case = a few statements with several executions each; distinct by counts and values")
        .assume("the server reads executions as MySQL does (types, NULL bitmap, long data replaces the value)")
        .scale(4)
        .group("small", 12_000, 500_000, small)
        .group("many_params", 150, 5000, many_params)
        .group("max_params", 1, 40, max_params)
        .group("beyond", 12, 100, beyond)
        .group("long", 40, 1500, long)
        .group("spread", 8, 300, spread)
        .require("executions", 20_000)
        .require("parameters", 200_000)
        .require("parameters as long data", 40)
        .require("wrong counts rejected", 2000)
        .main()
}
