//! Scripted sessions: every command carries a tag, the server answers by tag, and what each
//! call has to return is known beforehand.
use {
    crate::{
        gen,
        kit::{kind, same_row, Kind, Row, Summary},
        rng::Rng,
        server::{lock, Cmd, Handler, Session},
        stream::PeerIo,
        summary,
        wire::{self, status, typ, ColSpec, ErrSpec, OkSpec},
    },
    mysql_connector::{
        error::ParseError,
        model::{FromQueryResult, FromQueryResultMapping, ModelData},
        types::Value,
        Connection,
    },
    std::{
        collections::{HashMap, VecDeque},
        sync::{Arc, Mutex},
        time::Duration,
    },
};

#[derive(Clone, Debug)]
pub struct RowSpec {
    pub raw: Vec<u8>,
    /// None: the row does not decode
    pub val: Option<Row>,
}

#[derive(Clone, Debug)]
pub enum Tail {
    End(OkSpec),
    Err(ErrSpec),
}

#[derive(Clone, Debug)]
pub enum Res {
    Ok(OkSpec),
    Err(ErrSpec),
    Rows { cols: Vec<ColSpec>, rows: Vec<RowSpec>, tail: Tail, def_err: Option<(usize, ErrSpec)> },
}

impl Res {
    fn more(&mut self) {
        match self {
            Res::Ok(o) | Res::Rows { tail: Tail::End(o), .. } => o.status |= status::MORE_RESULTS,
            _ => {}
        }
    }

    fn can_continue(&self) -> bool {
        matches!(self, Res::Ok(_) | Res::Rows { tail: Tail::End(_), def_err: None, .. })
    }

    pub fn send(&self, s: &Session, io: &mut PeerIo, delay: &mut dyn FnMut(&mut PeerIo)) {
        match self {
            Res::Ok(o) => s.ok(io, o),
            Res::Err(e) => s.err(io, e),
            Res::Rows { cols, rows, tail, def_err } => {
                let mut p = Vec::new();
                wire::lenenc(&mut p, cols.len() as u64);
                io.send(&p);
                for (i, c) in cols.iter().enumerate() {
                    delay(io);
                    if let Some((at, e)) = def_err {
                        if *at == i {
                            s.err(io, e);
                            return;
                        }
                    }
                    io.send(&c.encode());
                }
                if !s.deprecate_eof() {
                    io.send(&OkSpec { status: 2, ..Default::default() }.old_eof());
                }
                for r in rows {
                    delay(io);
                    io.send(&r.raw);
                }
                delay(io);
                match tail {
                    Tail::End(o) => s.end(io, o),
                    Tail::Err(e) => s.err(io, e),
                }
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Consume {
    Collect,
    Next(usize),
    One,
    Finish,
    FinishInner,
    Drop,
    IntoColumns,
    IntoInner,
    /// next n times, then collect, then finish
    Mixed(usize),
}

#[derive(Clone, Debug)]
pub enum Exec {
    Execute,
    Query(Consume),
}

#[derive(Clone, Debug)]
pub enum Call {
    ExecuteQuery,
    Query(Consume),
    /// prepare, then executions
    Prepared { params: usize, cols: usize, prep_err: Option<ErrSpec>, execs: Vec<(Exec, Vec<Value>)> },
    Cleanup,
}

#[derive(Clone, Debug)]
pub struct Step {
    pub tag: u64,
    pub call: Call,
    /// results per execution (one list for queries); each list is one response
    pub replies: Vec<Vec<Res>>,
}

impl Step {
    pub fn sql(&self) -> String {
        match &self.call {
            Call::Prepared { params, .. } => format!("t{} {}", self.tag, "?".repeat(*params)),
            _ => format!("t{} x", self.tag),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Shape {
    pub max_cols: usize,
    pub max_rows: usize,
    pub max_bytes: usize,
    /// per mille
    pub bad_rows: u64,
    pub row_err: u64,
    pub def_err: u64,
    pub bad_defs: u64,
    pub errs: u64,
    pub multi: u64,
    pub partial: bool,
    /// execute/execute_query on statements with rows
    pub misuse: u64,
}

impl Default for Shape {
    fn default() -> Self {
        Self {
            max_cols: 6,
            max_rows: 6,
            max_bytes: 70_000,
            bad_rows: 40,
            row_err: 100,
            def_err: 30,
            bad_defs: 30,
            errs: 120,
            multi: 120,
            partial: true,
            misuse: 120,
        }
    }
}

fn permille(rng: &mut Rng, n: u64) -> bool {
    rng.below(1000) < n
}

pub fn rows_res(rng: &mut Rng, sh: &Shape, tag: u64, binary: bool) -> Res {
    let mut t = gen::Table::random(rng, sh.max_cols, sh.max_rows, sh.max_bytes);
    // the first column identifies the response
    let mut c = gen::col(rng, typ::LONGLONG);
    c.flags &= !wire::UNSIGNED;
    t.cols.insert(0, c);
    for (i, r) in t.rows.iter_mut().enumerate() {
        r.insert(0, Value::Long((tag * 1000) as i64 + i as i64));
    }
    let mut rows = Vec::new();
    for r in &t.rows {
        if permille(rng, sh.bad_rows / 2) {
            // can be read, but the model refuses it
            let mut r = r.clone();
            if let Some(Value::Long(n)) = r.first_mut() {
                *n = -1 - *n;
            }
            let raw = if binary { gen::bin_row(rng, &t.cols, &r) } else { gen::text_row(rng, &t.cols, &r) };
            rows.push(RowSpec { raw, val: None });
        } else if permille(rng, sh.bad_rows) {
            let raw = if binary { vec![0x00] } else { wire::text_row(&[Some(b"no number".to_vec())]) };
            rows.push(RowSpec { raw, val: None });
        } else {
            let raw = if binary { gen::bin_row(rng, &t.cols, r) } else { gen::text_row(rng, &t.cols, r) };
            rows.push(RowSpec { raw, val: Some(r.clone()) });
        }
    }
    let mut cols = t.cols;
    if permille(rng, sh.bad_defs) {
        let i = rng.usize(cols.len());
        // a type this client does not know
        cols[i].typ = 242;
    }
    let def_err = permille(rng, sh.def_err).then(|| (rng.usize(cols.len()), gen::err(rng)));
    let tail = if permille(rng, sh.row_err) { Tail::Err(gen::err(rng)) } else { Tail::End(gen::end(rng)) };
    Res::Rows { cols, rows, tail, def_err }
}

pub fn response(rng: &mut Rng, sh: &Shape, tag: u64, binary: bool, rows: bool) -> Vec<Res> {
    let one = |rng: &mut Rng, rows: bool| {
        if permille(rng, sh.errs) {
            Res::Err(gen::err(rng))
        } else if rows {
            rows_res(rng, sh, tag, binary)
        } else {
            Res::Ok(gen::ok(rng))
        }
    };
    let mut out = vec![one(rng, rows)];
    while permille(rng, sh.multi) && out.last().is_some_and(Res::can_continue) && out.len() < 4 {
        if let Some(l) = out.last_mut() {
            l.more();
        }
        let rows = rng.coin();
        out.push(one(rng, rows));
    }
    out
}

pub fn consume(rng: &mut Rng, sh: &Shape) -> Consume {
    if sh.partial {
        match rng.below(10) {
            0 | 1 => Consume::Collect,
            2 | 3 => Consume::Next(rng.usize(8)),
            4 => Consume::One,
            5 => Consume::Finish,
            6 => Consume::FinishInner,
            7 => Consume::Drop,
            8 => *rng.pick(&[Consume::IntoColumns, Consume::IntoInner]),
            _ => Consume::Mixed(rng.usize(5)),
        }
    } else {
        *rng.pick(&[Consume::Collect, Consume::Finish, Consume::FinishInner, Consume::Mixed(2)])
    }
}

pub fn step(rng: &mut Rng, sh: &Shape, tag: u64) -> Step {
    match rng.below(10) {
        0..=2 => {
            let misuse = permille(rng, sh.misuse);
            Step { tag, call: Call::ExecuteQuery, replies: vec![response(rng, sh, tag, false, misuse)] }
        }
        3..=5 => {
            let rows = !rng.chance(1, 6);
            Step { tag, call: Call::Query(consume(rng, sh)), replies: vec![response(rng, sh, tag, false, rows)] }
        }
        9 if sh.partial => Step { tag, call: Call::Cleanup, replies: vec![] },
        _ => {
            let params = *rng.pick(&[0usize, 0, 1, 2, 3, 9]);
            let cols = rng.usize(5);
            let prep_err = permille(rng, sh.errs).then(|| gen::err(rng));
            let mut execs = Vec::new();
            let mut replies = Vec::new();
            for _ in 0..rng.range(0, 3) {
                let values = (0..params)
                    .map(|_| match rng.below(4) {
                        0 => Value::Null,
                        1 => Value::Long(rng.u64() as i64),
                        _ => Value::Bytes(rng.bytes(5)),
                    })
                    .collect();
                if rng.coin() {
                    let misuse = permille(rng, sh.misuse);
                    execs.push((Exec::Execute, values));
                    replies.push(response(rng, sh, tag, true, misuse));
                } else {
                    let rows = !rng.chance(1, 6);
                    execs.push((Exec::Query(consume(rng, sh)), values));
                    replies.push(response(rng, sh, tag, true, rows));
                }
            }
            Step { tag, call: Call::Prepared { params, cols, prep_err, execs }, replies }
        }
    }
}

/// What was observed at the API.
#[derive(Clone, Debug)]
pub enum Ev {
    Row(Row),
    Rows(Vec<Row>),
    End,
    Summary(Summary),
    Cols(Vec<ColInfo>),
    Err(Kind),
    Started,
    Prepared,
    Cleaned(Option<Summary>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct ColInfo {
    pub name: String,
    pub org_name: String,
    pub table: String,
    pub org_table: String,
    pub typ: u8,
    pub flags: u16,
}

impl ColInfo {
    pub fn of(c: &ColSpec) -> Self {
        Self {
            name: c.name.clone(),
            org_name: c.org_name.clone(),
            table: c.table.clone(),
            org_table: c.org_table.clone(),
            typ: c.typ,
            flags: c.flags,
        }
    }

    pub fn seen(c: &mysql_connector::types::Column) -> Self {
        Self {
            name: c.name().into(),
            org_name: c.org_name().into(),
            table: c.table().into(),
            org_table: c.org_table().into(),
            typ: c.r#type() as u8,
            flags: c.flags().bits(),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Want {
    Is(Ev),
    /// an error that is not the server's
    LocalErr,
    /// any error
    AnyErr,
    /// any of these
    Any(Vec<Want>),
}

pub fn same_ev(a: &Ev, b: &Ev) -> bool {
    match (a, b) {
        (Ev::Row(x), Ev::Row(y)) => same_row(x, y),
        (Ev::Rows(x), Ev::Rows(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same_row(a, b)),
        (Ev::End, Ev::End) | (Ev::Started, Ev::Started) | (Ev::Prepared, Ev::Prepared) => true,
        (Ev::Summary(x), Ev::Summary(y)) => x == y,
        (Ev::Cols(x), Ev::Cols(y)) => x == y,
        (Ev::Err(x), Ev::Err(y)) => x == y,
        (Ev::Cleaned(x), Ev::Cleaned(y)) => x == y,
        _ => false,
    }
}

impl Want {
    pub fn fits(&self, e: &Ev) -> bool {
        match self {
            Want::Is(x) => same_ev(x, e),
            Want::LocalErr => matches!(e, Ev::Err(k) if !matches!(k, Kind::Server { .. })),
            Want::AnyErr => matches!(e, Ev::Err(_)),
            Want::Any(l) => l.iter().any(|w| w.fits(e)),
        }
    }
}

pub fn server_kind(e: &ErrSpec) -> Kind {
    Kind::Server {
        code: e.code,
        state: e.state.map(|s| String::from_utf8_lossy(&s).into_owned()),
        message: e.message.clone(),
    }
}

fn is_err(e: &ErrSpec) -> Want {
    Want::Is(Ev::Err(server_kind(e)))
}

/// What the calls on a result set have to give.
fn want_rows(out: &mut Vec<Want>, res: &Res, how: Consume, dep: bool) {
    let end_want = |o: &OkSpec| Want::Is(Ev::Summary(Summary::of_end(o, dep)));
    match res {
        Res::Err(e) => out.push(is_err(e)),
        Res::Ok(o) => {
            out.push(Want::Is(Ev::Started));
            out.push(Want::Is(Ev::Cols(vec![])));
            let sum = Want::Is(Ev::Summary(Summary::of(o)));
            match how {
                Consume::Collect => out.push(Want::Is(Ev::Rows(vec![]))),
                Consume::Next(n) => out.extend((0..n).map(|_| Want::Is(Ev::End))),
                Consume::One => out.push(Want::Is(Ev::End)),
                Consume::Finish | Consume::FinishInner => out.push(sum),
                Consume::Drop | Consume::IntoColumns | Consume::IntoInner => {}
                Consume::Mixed(n) => {
                    out.extend((0..n).map(|_| Want::Is(Ev::End)));
                    out.push(Want::Is(Ev::Rows(vec![])));
                    out.push(sum);
                }
            }
        }
        Res::Rows { cols, rows, tail, def_err } => {
            if cols.iter().take(def_err.as_ref().map_or(usize::MAX, |d| d.0)).any(|c| c.typ == 242) {
                out.push(Want::LocalErr);
                return;
            }
            if let Some((_, e)) = def_err {
                out.push(is_err(e));
                return;
            }
            out.push(Want::Is(Ev::Started));
            out.push(Want::Is(Ev::Cols(cols.iter().map(ColInfo::of).collect())));
            // the sequence `next` has to produce
            let mut seq: VecDeque<Want> = rows
                .iter()
                .map(|r| match &r.val {
                    Some(v) => Want::Is(Ev::Row(v.clone())),
                    None => Want::LocalErr,
                })
                .collect();
            if let Tail::Err(e) = tail {
                seq.push_back(is_err(e));
            }
            let after = match tail {
                Tail::End(o) => end_want(o),
                Tail::Err(_) => Want::AnyErr,
            };
            let is_row = |w: &Want| matches!(w, Want::Is(Ev::Row(_)));
            // collect from the current position: rows up to the first error
            let collect = |seq: &mut VecDeque<Want>| {
                let mut got = Vec::new();
                loop {
                    match seq.pop_front() {
                        Some(Want::Is(Ev::Row(r))) => got.push(r),
                        Some(other) => return other,
                        None => return Want::Is(Ev::Rows(got)),
                    }
                }
            };
            // the first error, or the summary
            let finish = |seq: &mut VecDeque<Want>| {
                while seq.front().is_some_and(is_row) {
                    seq.pop_front();
                }
                seq.pop_front().unwrap_or(after.clone())
            };
            match how {
                Consume::Collect => out.push(collect(&mut seq)),
                Consume::Next(n) => out.extend((0..n).map(|_| seq.pop_front().unwrap_or(Want::Is(Ev::End)))),
                Consume::One => {
                    let first = seq.pop_front().unwrap_or(Want::Is(Ev::End));
                    // an error further down may hide the first row
                    let mut l = vec![first];
                    l.extend(seq.into_iter().filter(|w| !is_row(w)));
                    out.push(Want::Any(l));
                }
                Consume::Finish | Consume::FinishInner => out.push(finish(&mut seq)),
                Consume::Drop | Consume::IntoColumns | Consume::IntoInner => {}
                Consume::Mixed(n) => {
                    out.extend((0..n).map(|_| seq.pop_front().unwrap_or(Want::Is(Ev::End))));
                    out.push(collect(&mut seq));
                    out.push(finish(&mut seq));
                }
            }
        }
    }
}

fn want_exec(out: &mut Vec<Want>, res: &Res) {
    out.push(match res {
        Res::Ok(o) => Want::Is(Ev::Summary(Summary::of(o))),
        Res::Err(e) => is_err(e),
        // rows where none are expected: not a success
        Res::Rows { .. } => Want::LocalErr,
    });
}

/// What is left unread on the connection after a step: the outcomes `cleanup` may report.
#[derive(Clone, Debug, Default)]
pub struct Left(pub Option<Vec<Want>>);

pub fn expect(st: &Step, dep: bool) -> Vec<Want> {
    let mut out = Vec::new();
    match &st.call {
        Call::ExecuteQuery => want_exec(&mut out, &st.replies[0][0]),
        Call::Query(how) => want_rows(&mut out, &st.replies[0][0], *how, dep),
        Call::Prepared { prep_err: Some(e), .. } => out.push(is_err(e)),
        Call::Prepared { execs, .. } => {
            out.push(Want::Is(Ev::Prepared));
            for ((x, _), r) in execs.iter().zip(&st.replies) {
                match x {
                    Exec::Execute => want_exec(&mut out, &r[0]),
                    Exec::Query(how) => want_rows(&mut out, &r[0], *how, dep),
                }
            }
        }
        // checked by the C10 check in detail
        Call::Cleanup => {}
    }
    out
}

/// A row that refuses to be made from some rows.
#[derive(Debug)]
pub struct Picky(pub Row);

impl ModelData for Picky {
    const TABLE: &'static str = "";
    const TABLE_WITH_POINT: &'static str = "";
}

impl FromQueryResult for Picky {
    type Mapping = PickyMapping;

    fn from_mapping_and_row(mapping: &PickyMapping, row: &mut Vec<Value>) -> Result<Self, ParseError> {
        if row.len() != mapping.0 {
            return Err(ParseError::RowLengthMismatch);
        }
        match row.first() {
            Some(Value::Long(n)) if *n < 0 => Err(ParseError::MissingField("refused")),
            _ => Ok(Picky(std::mem::take(row))),
        }
    }
}

#[derive(Default)]
pub struct PickyMapping(usize);

impl FromQueryResultMapping<Picky> for PickyMapping {
    fn set_mapping_inner(&mut self, _: &mysql_connector::types::Column, _: &str, _: usize) {
        self.0 += 1;
    }
}

macro_rules! consume_rows {
    ($out:expr, $rs:expr, $how:expr) => {{
        let out: &mut Vec<Ev> = $out;
        match $rs {
            Err(e) => out.push(Ev::Err(kind(&e))),
            Ok(mut rs) => {
                out.push(Ev::Started);
                out.push(Ev::Cols(rs.columns().iter().map(ColInfo::seen).collect()));
                macro_rules! next {
                    () => {
                        out.push(match rs.next().await {
                            Ok(Some(r)) => Ev::Row(r.0),
                            Ok(None) => Ev::End,
                            Err(e) => Ev::Err(kind(&e)),
                        })
                    };
                }
                macro_rules! collect {
                    () => {
                        out.push(match rs.collect().await {
                            Ok(r) => Ev::Rows(r.into_iter().map(|r| r.0).collect()),
                            Err(e) => Ev::Err(kind(&e)),
                        })
                    };
                }
                macro_rules! finish {
                    () => {
                        out.push(match rs.finish().await {
                            Ok(o) => Ev::Summary(summary!(o)),
                            Err(e) => Ev::Err(kind(&e)),
                        })
                    };
                }
                match $how {
                    Consume::Collect => collect!(),
                    Consume::Next(n) => {
                        for _ in 0..n {
                            next!();
                        }
                    }
                    Consume::One => out.push(match rs.one().await {
                        Ok(Some(r)) => Ev::Row(r.0),
                        Ok(None) => Ev::End,
                        Err(e) => Ev::Err(kind(&e)),
                    }),
                    Consume::Finish => finish!(),
                    Consume::FinishInner => out.push(match rs.finish_into_inner().await {
                        Ok((o, cols, _)) => {
                            let _ = cols;
                            Ev::Summary(summary!(o))
                        }
                        Err(e) => Ev::Err(kind(&e)),
                    }),
                    Consume::Drop => drop(rs),
                    Consume::IntoColumns => drop(rs.into_columns()),
                    Consume::IntoInner => drop(rs.into_inner()),
                    Consume::Mixed(n) => {
                        for _ in 0..n {
                            next!();
                        }
                        collect!();
                        finish!();
                    }
                }
            }
        }
    }};
}

/// Performs the step; what is observed goes to `out` as it happens.
pub async fn perform(conn: &mut Connection, st: &Step, out: &mut Vec<Ev>) {
    let sql = st.sql();
    match &st.call {
        Call::ExecuteQuery => out.push(match conn.execute_query(&sql).await {
            Ok(o) => Ev::Summary(summary!(o)),
            Err(e) => Ev::Err(kind(&e)),
        }),
        Call::Query(how) => consume_rows!(out, conn.query::<Picky>(&sql).await, *how),
        Call::Prepared { execs, .. } => match conn.prepare_statement(&sql).await {
            Err(e) => out.push(Ev::Err(kind(&e))),
            Ok(mut ps) => {
                out.push(Ev::Prepared);
                for (x, v) in execs {
                    match x {
                        Exec::Execute => out.push(match ps.execute(v).await {
                            Ok(o) => Ev::Summary(summary!(o)),
                            Err(e) => Ev::Err(kind(&e)),
                        }),
                        Exec::Query(how) => consume_rows!(out, ps.query::<Value, Picky>(v).await, *how),
                    }
                }
            }
        },
        Call::Cleanup => out.push(match conn.cleanup().await {
            Ok(o) => Ev::Cleaned(o.map(|o| summary!(o))),
            Err(e) => Ev::Err(kind(&e)),
        }),
    }
}

pub fn compare(want: &[Want], got: &[Ev]) -> Result<(), String> {
    for (i, g) in got.iter().enumerate() {
        match want.get(i) {
            Some(w) if w.fits(g) => {}
            Some(w) => return Err(format!("observation {i}: got {}, expected {}", crate::brief(g), crate::brief(w))),
            None => return Err(format!("observation {i}: unexpected {}", crate::brief(g))),
        }
    }
    if got.len() < want.len() {
        return Err(format!("only {} observations, expected {} next", got.len(), crate::brief(&want[got.len()])));
    }
    Ok(())
}

/// The server's half of a script.
pub struct Scripted {
    replies: HashMap<u64, (Call, VecDeque<Vec<Res>>)>,
    pub seen: Arc<Mutex<Vec<String>>>,
    pub delays: Option<(Rng, Duration)>,
}

pub fn tag_of(sql: &[u8]) -> Option<u64> {
    let s = std::str::from_utf8(sql).ok()?;
    s.strip_prefix('t')?.split(' ').next()?.parse().ok()
}

impl Scripted {
    pub fn new(steps: &[Step]) -> Self {
        Self {
            replies: steps.iter().map(|s| (s.tag, (s.call.clone(), s.replies.clone().into()))).collect(),
            seen: Default::default(),
            delays: None,
        }
    }
}

impl Handler for Scripted {
    fn cmd(&mut self, s: &mut Session, io: &mut PeerIo, cmd: Cmd) {
        let Self { replies, seen, delays } = self;
        let (what, tag) = match &cmd {
            Cmd::Query(q) => ("query", tag_of(q)),
            Cmd::Prepare(q) => ("prepare", tag_of(q)),
            Cmd::Execute { stmt, params, .. } => {
                if let Err(e) = params {
                    s.protocol_errors.push(format!("execution: {e}"));
                }
                ("execute", s.stmts.get(stmt).and_then(|x| tag_of(&x.sql)))
            }
            Cmd::Quit => {
                lock(seen).push("quit".into());
                return;
            }
            Cmd::LongData { .. } | Cmd::Close(_) => return,
            Cmd::Other(_) => ("?", None),
        };
        let Some((tag, (call, q))) = tag.and_then(|t| replies.get_mut(&t).map(|r| (t, r))) else {
            s.protocol_errors.push(format!("unexpected command {}", crate::brief(&cmd)));
            s.err(io, &ErrSpec::new(1064, "42000", "unexpected command"));
            return;
        };
        lock(seen).push(format!("{what} {tag}"));
        let mut wait = |io: &mut PeerIo| {
            if let Some((rng, d)) = delays {
                if rng.chance(1, 3) {
                    io.delay(d.mul_f64(rng.below(100) as f64 / 100.0));
                }
            }
        };
        wait(io);
        if let (Call::Prepared { params, cols, prep_err, .. }, "prepare") = (&*call, what) {
            match prep_err {
                Some(e) => s.err(io, e),
                None => {
                    let defs: Vec<ColSpec> = (0..*cols).map(|i| ColSpec::new(&format!("c{i}"), typ::VARSTRING, 0)).collect();
                    s.prepared(io, &cmd.sql().into_bytes(), *params, &defs);
                }
            }
            return;
        }
        match q.pop_front() {
            Some(list) => {
                for r in &list {
                    r.send(s, io, &mut wait);
                }
            }
            None => {
                s.protocol_errors.push(format!("command {tag} arrived too often"));
                s.err(io, &ErrSpec::new(1064, "42000", "again?"));
            }
        }
    }
}
