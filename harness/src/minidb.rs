//! A small relational database behind the fake server: enough of MySQL to run what models and
//! migrations send, with strict typing, and a log of what was executed.
use {
    crate::{
        gen,
        rng::Rng,
        server::{lock, Cmd, Handler, Session},
        sqlmini::{self, literal, tokens, Lit, Tok},
        stream::{Item, PeerIo},
        wire::{status, typ, ColSpec, ErrSpec, OkSpec, PVal, UNSIGNED},
    },
    mysql_connector::types::Value,
    std::{
        cmp::Ordering,
        collections::{BTreeMap, HashMap},
        sync::{Arc, Mutex},
    },
};

#[derive(Clone, Debug, PartialEq)]
pub struct Col {
    pub name: String,
    pub typ: u8,
    pub flags: u16,
    pub nullable: bool,
    /// used when an insert does not name the column; None: NULL or an error
    pub default: Option<Value>,
    pub auto: bool,
}

impl Col {
    pub fn new(name: &str, typ: u8, flags: u16, nullable: bool) -> Self {
        Self { name: name.into(), typ, flags, nullable, default: None, auto: false }
    }

    pub fn spec(&self, schema: &str, table: &str, alias: &str) -> ColSpec {
        let mut c = ColSpec::new(&self.name, self.typ, self.flags);
        c.db = schema.into();
        c.org_table = table.into();
        c.table = alias.into();
        c
    }
}

#[derive(Clone, Debug, Default)]
pub struct Tab {
    pub cols: Vec<Col>,
    pub rows: Vec<Vec<Value>>,
    pub unique: Vec<Vec<usize>>,
    pub next: u64,
}

impl Tab {
    pub fn col(&self, name: &str) -> Option<usize> {
        self.cols.iter().position(|c| c.name.eq_ignore_ascii_case(name))
    }
}

/// One executed (or refused) statement.
#[derive(Clone, Debug)]
pub struct Done {
    pub conn: u32,
    pub sql: String,
    pub what: What,
    pub prepared: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum What {
    Select(Vec<String>),
    Insert { schema: String, table: String, cols: Vec<String>, rows: Vec<Vec<Value>>, id: u64 },
    Update { schema: String, table: String, set: Vec<(String, Value)>, rows: Vec<usize> },
    Delete { schema: String, table: String, rows: u64 },
    Create(String),
    Drop(String),
    Other,
    Refused(u16),
}

/// What happens to a statement.
#[derive(Clone, Debug, PartialEq)]
pub enum Fate {
    Run,
    /// the server refuses it
    Refuse(ErrSpec),
    /// the connection breaks before the statement has an effect
    BreakBefore,
    /// the connection breaks after the statement took effect
    BreakAfter,
}

pub enum Out {
    Ok { affected: u64, id: u64 },
    Rows { cols: Vec<ColSpec>, rows: Vec<Vec<Value>> },
}

type Judge = dyn FnMut(&Db, &str) -> Fate + Send;

pub struct Db {
    pub schema: String,
    pub tabs: BTreeMap<(String, String), Tab>,
    pub log: Vec<Done>,
    pub rng: Rng,
    /// asked before each statement
    pub judge: Option<Box<Judge>>,
    /// rows come in any order
    pub shuffle: bool,
    /// keys that were given are not reported as generated
    pub quiet: bool,
    /// tables without a generated key report ids all the same: of another column of theirs
    pub other_ids: bool,
}

#[derive(Clone, Debug, PartialEq)]
enum Raw {
    Null,
    Int(i128),
    F32(f32),
    F64(f64),
    Bytes(Vec<u8>),
    Date(u16, u8, u8, u8, u8, u8, u32),
    Time(bool, u32, u8, u8, u8, u32),
}

type Res<T> = Result<T, ErrSpec>;

fn err<T>(code: u16, state: &str, m: impl Into<String>) -> Res<T> {
    Err(ErrSpec::new(code, state, m.into()))
}

fn syntax<T>(near: impl std::fmt::Debug) -> Res<T> {
    err(1064, "42000", format!("You have an error in your SQL syntax near {near:?}"))
}

impl Raw {
    fn of(v: &Value) -> Self {
        match v {
            Value::Null => Raw::Null,
            Value::Tiny(x) => Raw::Int(*x as i128),
            Value::Short(x) => Raw::Int(*x as i128),
            Value::Int(x) => Raw::Int(*x as i128),
            Value::Long(x) => Raw::Int(*x as i128),
            Value::UTiny(x) => Raw::Int(*x as i128),
            Value::UShort(x) => Raw::Int(*x as i128),
            Value::UInt(x) => Raw::Int(*x as i128),
            Value::ULong(x) => Raw::Int(*x as i128),
            Value::Float(x) => Raw::F32(*x),
            Value::Double(x) => Raw::F64(*x),
            Value::Bytes(b) => Raw::Bytes(b.clone()),
            Value::Date(y, m, d) => Raw::Date(*y, *m, *d, 0, 0, 0, 0),
            Value::Datetime(y, m, d, h, mi, s, us) => Raw::Date(*y, *m, *d, *h, *mi, *s, *us),
            Value::Time(n, d, h, m, s, us) => Raw::Time(*n, *d, *h, *m, *s, *us),
        }
    }

    fn param(p: &PVal) -> Self {
        match p {
            PVal::Null => Raw::Null,
            PVal::Int(x) => Raw::Int(*x as i128),
            PVal::UInt(x) => Raw::Int(*x as i128),
            PVal::F32(x) => Raw::F32(f32::from_bits(*x)),
            PVal::F64(x) => Raw::F64(f64::from_bits(*x)),
            PVal::Bytes(b) => Raw::Bytes(b.clone()),
            PVal::Date(y, m, d, h, mi, s, us) => Raw::Date(*y, *m, *d, *h, *mi, *s, *us),
            PVal::Time(n, d, h, m, s, us) => Raw::Time(*n, *d, *h, *m, *s, *us),
        }
    }

    fn lit(l: Lit) -> Self {
        match l {
            Lit::Null => Raw::Null,
            Lit::Int(x) => Raw::Int(x),
            Lit::Decimal(t) | Lit::Double(t) => Raw::F64(t.parse().unwrap_or(f64::NAN)),
            Lit::Bytes(b) => Raw::Bytes(b),
            Lit::Text(t) => Raw::Bytes(t.into_bytes()),
        }
    }

    fn text(&self) -> Option<&str> {
        match self {
            Raw::Bytes(b) => std::str::from_utf8(b).ok(),
            _ => None,
        }
    }

    fn num(&self) -> Option<f64> {
        match self {
            Raw::Int(x) => Some(*x as f64),
            Raw::F32(x) => Some(*x as f64),
            Raw::F64(x) => Some(*x),
            Raw::Bytes(_) => self.text()?.trim().parse().ok(),
            _ => None,
        }
    }

    fn date(&self) -> Option<(u16, u8, u8, u8, u8, u8, u32)> {
        match self {
            Raw::Date(y, m, d, h, mi, s, us) => Some((*y, *m, *d, *h, *mi, *s, *us)),
            _ => {
                let t = self.text()?;
                let ((y, m, d), (h, mi, s, us)) = sqlmini::datetime(t).or_else(|| sqlmini::date(t).map(|d| (d, (0, 0, 0, 0))))?;
                Some((y as u16, m as u8, d as u8, h as u8, mi as u8, s as u8, us))
            }
        }
    }

    fn time(&self) -> Option<(bool, u32, u8, u8, u8, u32)> {
        match self {
            Raw::Time(n, d, h, m, s, us) => Some((*n, *d, *h, *m, *s, *us)),
            _ => {
                let (n, h, m, s, us) = sqlmini::time(self.text()?)?;
                Some((n, (h / 24) as u32, (h % 24) as u8, m as u8, s as u8, us))
            }
        }
    }

    fn order(&self, o: &Raw) -> Option<Ordering> {
        match (self, o) {
            (Raw::Null, _) | (_, Raw::Null) => None,
            (Raw::Int(a), Raw::Int(b)) => Some(a.cmp(b)),
            (Raw::Bytes(a), Raw::Bytes(b)) => Some(a.cmp(b)),
            (Raw::Date(..), _) | (_, Raw::Date(..)) => Some(self.date()?.cmp(&o.date()?)),
            (Raw::Time(..), _) | (_, Raw::Time(..)) => Some(self.time()?.cmp(&o.time()?)),
            _ => self.num()?.partial_cmp(&o.num()?),
        }
    }

    fn truth(&self) -> bool {
        self.num().is_some_and(|x| x != 0.0)
    }
}

/// The value as the column stores it.
fn coerce(c: &Col, r: &Raw) -> Res<Value> {
    let bad = |what: &str| err(1366, "HY000", format!("Incorrect {what} value for column '{}': {}", c.name, crate::brief(r)));
    let range = || err(1264, "22003", format!("Out of range value for column '{}'", c.name));
    if *r == Raw::Null {
        return if c.nullable { Ok(Value::Null) } else { err(1048, "23000", format!("Column '{}' cannot be null", c.name)) };
    }
    let uns = c.flags & UNSIGNED != 0;
    if gen::is_int(c.typ) {
        let x = match r {
            Raw::Int(x) => *x,
            Raw::Bytes(_) => match r.text().and_then(|t| t.trim().parse::<i128>().ok()) {
                Some(x) => x,
                None => return bad("integer"),
            },
            _ => return bad("integer"),
        };
        let v = match (c.typ, uns) {
            (typ::TINY, true) => x.try_into().map(Value::UTiny).ok(),
            (typ::TINY, false) => x.try_into().map(Value::Tiny).ok(),
            (typ::SHORT | typ::YEAR, true) => x.try_into().map(Value::UShort).ok(),
            (typ::SHORT | typ::YEAR, false) => x.try_into().map(Value::Short).ok(),
            (typ::LONG | typ::INT24, true) => x.try_into().map(Value::UInt).ok(),
            (typ::LONG | typ::INT24, false) => x.try_into().map(Value::Int).ok(),
            (_, true) => x.try_into().map(Value::ULong).ok(),
            (_, false) => x.try_into().map(Value::Long).ok(),
        };
        return match v {
            Some(v) => Ok(v),
            None => range(),
        };
    }
    match c.typ {
        typ::FLOAT => match r {
            Raw::F32(x) => Ok(Value::Float(*x)),
            _ => match r.num() {
                Some(x) => Ok(Value::Float(x as f32)),
                None => bad("float"),
            },
        },
        typ::DOUBLE => match r.num() {
            Some(x) => Ok(Value::Double(x)),
            None => bad("double"),
        },
        typ::DATE => match r.date() {
            Some((y, m, d, ..)) => Ok(Value::Date(y, m, d)),
            None => bad("date"),
        },
        typ::DATETIME | typ::TIMESTAMP => match r.date() {
            Some((y, m, d, h, mi, s, us)) => Ok(Value::Datetime(y, m, d, h, mi, s, us)),
            None => bad("datetime"),
        },
        typ::TIME => match r.time() {
            Some((n, d, h, m, s, us)) => Ok(Value::Time(n, d, h, m, s, us)),
            None => bad("time"),
        },
        _ => match r {
            Raw::Bytes(b) => Ok(Value::Bytes(b.clone())),
            Raw::Int(x) => Ok(Value::Bytes(x.to_string().into_bytes())),
            Raw::F32(x) => Ok(Value::Bytes(x.to_string().into_bytes())),
            Raw::F64(x) => Ok(Value::Bytes(x.to_string().into_bytes())),
            Raw::Date(y, m, d, h, mi, s, us) => Ok(Value::Bytes(format!("{y:04}-{m:02}-{d:02} {h:02}:{mi:02}:{s:02}.{us:06}").into_bytes())),
            _ => bad("string"),
        },
    }
}

// ---------------------------------------------------------------- parser

#[derive(Clone, Debug)]
enum Expr {
    Lit(Raw),
    Param(usize),
    Col(Option<String>, String),
    Schema,
    Not(Box<Expr>),
    IsNull(Box<Expr>, bool),
    Bin(String, Box<Expr>, Box<Expr>),
    Count,
    Now,
}

#[derive(Clone, Debug)]
enum Pick {
    All(Option<String>),
    Expr(Expr, Option<String>),
}

#[derive(Clone, Debug)]
struct From {
    schema: Option<String>,
    table: String,
    alias: String,
    left: bool,
    on: Option<Expr>,
}

#[derive(Clone, Debug)]
struct Select {
    picks: Vec<Pick>,
    from: Vec<From>,
    cond: Option<Expr>,
    order: Vec<(Expr, bool)>,
    limit: Option<u64>,
}

#[derive(Clone, Debug)]
enum Stmt {
    Select(Select),
    Insert { schema: Option<String>, table: String, cols: Option<Vec<String>>, rows: Vec<Vec<Option<Expr>>> },
    Update { schema: Option<String>, table: String, set: Vec<(String, Expr)>, cond: Option<Expr> },
    Delete { schema: Option<String>, table: String, cond: Option<Expr> },
    Create { schema: Option<String>, table: String, lenient: bool, cols: Vec<Col>, unique: Vec<Vec<String>> },
    Drop { schema: Option<String>, table: String, lenient: bool },
    Other,
}

struct P {
    t: Vec<Tok>,
    i: usize,
    params: usize,
}

const RESERVED: &[&str] = &[
    "select", "from", "where", "join", "inner", "left", "outer", "on", "order", "group", "limit", "as", "and", "or", "not", "insert", "into", "values", "update", "set", "delete", "is", "null", "create", "drop", "table", "key",
    "unique", "primary", "desc", "asc", "by", "for", "exists", "if", "cross", "constraint", "foreign", "index", "default", "references",
];

impl P {
    fn kw(&mut self, k: &str) -> bool {
        match self.t.get(self.i) {
            Some(Tok::Id(n, false)) if n.eq_ignore_ascii_case(k) => {
                self.i += 1;
                true
            }
            _ => false,
        }
    }
    fn sym(&mut self, c: char) -> bool {
        if self.t.get(self.i) == Some(&Tok::Sym(c)) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn near(&self) -> String {
        crate::brief(&self.t[self.i.min(self.t.len())..])
    }
    fn need(&mut self, k: &str) -> Res<()> {
        let ok = if k.len() == 1 && !k.as_bytes()[0].is_ascii_alphabetic() { self.sym(k.as_bytes()[0] as char) } else { self.kw(k) };
        if ok {
            Ok(())
        } else {
            syntax(self.near())
        }
    }
    fn ident(&mut self) -> Res<String> {
        match self.t.get(self.i) {
            Some(Tok::Id(n, q)) if *q || !RESERVED.iter().any(|r| n.eq_ignore_ascii_case(r)) => {
                self.i += 1;
                let n = n.clone();
                if n.is_empty() || n.ends_with(' ') {
                    return err(1166, "42000", format!("Incorrect column name '{n}'"));
                }
                Ok(n)
            }
            _ => syntax(self.near()),
        }
    }
    fn opt_ident(&mut self) -> Option<String> {
        let at = self.i;
        self.ident().map_err(|_| self.i = at).ok()
    }
    fn table(&mut self) -> Res<(Option<String>, String)> {
        let a = self.ident()?;
        if self.sym('.') {
            Ok((Some(a), self.ident()?))
        } else {
            Ok((None, a))
        }
    }
    fn name_list(&mut self) -> Res<Vec<String>> {
        let mut v = Vec::new();
        self.need("(")?;
        if self.sym(')') {
            return Ok(v);
        }
        loop {
            let mut n = self.ident()?;
            if self.sym('.') {
                n = self.ident()?;
            }
            v.push(n);
            if self.sym(')') {
                return Ok(v);
            }
            self.need(",")?;
        }
    }

    fn primary(&mut self) -> Res<Expr> {
        if self.sym('(') {
            let e = self.expr()?;
            self.need(")")?;
            return Ok(e);
        }
        if self.t.get(self.i) == Some(&Tok::Param) {
            self.i += 1;
            self.params += 1;
            return Ok(Expr::Param(self.params - 1));
        }
        if self.sym('@') {
            // system variables
            while self.sym('@') {}
            self.ident()?;
            while self.sym('.') {
                self.ident()?;
            }
            return Ok(Expr::Lit(Raw::Int(0)));
        }
        for n in [2, 1] {
            if let Some(w) = self.t.get(self.i..self.i + n) {
                if let Ok(l) = literal(w) {
                    self.i += n;
                    return Ok(Expr::Lit(Raw::lit(l)));
                }
            }
        }
        if let [Tok::Id(f, false), Tok::Sym('('), ..] = &self.t[self.i..] {
            let f = f.to_ascii_lowercase();
            self.i += 2;
            return match f.as_str() {
                "database" | "schema" => self.need(")").map(|_| Expr::Schema),
                "now" | "current_timestamp" => self.need(")").map(|_| Expr::Now),
                "count" => {
                    if !self.sym('*') {
                        self.expr()?;
                    }
                    self.need(")").map(|_| Expr::Count)
                }
                _ => syntax(f),
            };
        }
        if self.kw("true") {
            return Ok(Expr::Lit(Raw::Int(1)));
        }
        if self.kw("false") {
            return Ok(Expr::Lit(Raw::Int(0)));
        }
        if self.kw("current_timestamp") {
            return Ok(Expr::Now);
        }
        let a = self.ident()?;
        if self.sym('.') {
            let b = self.ident()?;
            if self.sym('.') {
                let c = self.ident()?;
                return Ok(Expr::Col(Some(b), c));
            }
            return Ok(Expr::Col(Some(a), b));
        }
        Ok(Expr::Col(None, a))
    }

    fn cmp(&mut self) -> Res<Expr> {
        let a = self.primary()?;
        if self.kw("is") {
            let not = self.kw("not");
            self.need("null")?;
            return Ok(Expr::IsNull(Box::new(a), not));
        }
        if self.kw("in") {
            self.need("(")?;
            let mut e: Option<Expr> = None;
            loop {
                let b = self.expr()?;
                let one = Expr::Bin("=".into(), Box::new(a.clone()), Box::new(b));
                e = Some(match e {
                    None => one,
                    Some(p) => Expr::Bin("or".into(), Box::new(p), Box::new(one)),
                });
                if self.sym(')') {
                    return Ok(e.unwrap_or(Expr::Lit(Raw::Int(0))));
                }
                self.need(",")?;
            }
        }
        let op = if self.sym('=') {
            "="
        } else if self.sym('<') {
            if self.sym('>') {
                "<>"
            } else if self.sym('=') {
                if self.sym('>') {
                    "<=>"
                } else {
                    "<="
                }
            } else {
                "<"
            }
        } else if self.sym('>') {
            if self.sym('=') {
                ">="
            } else {
                ">"
            }
        } else if self.sym('!') {
            self.need("=")?;
            "<>"
        } else {
            return Ok(a);
        };
        let b = self.primary()?;
        Ok(Expr::Bin(op.into(), Box::new(a), Box::new(b)))
    }

    fn and(&mut self) -> Res<Expr> {
        let mut a = if self.kw("not") { Expr::Not(Box::new(self.cmp()?)) } else { self.cmp()? };
        while self.kw("and") {
            let b = if self.kw("not") { Expr::Not(Box::new(self.cmp()?)) } else { self.cmp()? };
            a = Expr::Bin("and".into(), Box::new(a), Box::new(b));
        }
        Ok(a)
    }

    fn expr(&mut self) -> Res<Expr> {
        let mut a = self.and()?;
        while self.kw("or") {
            a = Expr::Bin("or".into(), Box::new(a), Box::new(self.and()?));
        }
        Ok(a)
    }

    fn cond(&mut self) -> Res<Option<Expr>> {
        if self.kw("where") {
            self.expr().map(Some)
        } else {
            Ok(None)
        }
    }

    fn select(&mut self) -> Res<Select> {
        let mut s = Select { picks: vec![], from: vec![], cond: None, order: vec![], limit: None };
        loop {
            let pick = if self.sym('*') {
                Pick::All(None)
            } else if let [Tok::Id(a, _), Tok::Sym('.'), Tok::Sym('*'), ..] = &self.t[self.i..] {
                let a = a.clone();
                self.i += 3;
                Pick::All(Some(a))
            } else {
                let e = self.expr()?;
                let alias = if self.kw("as") { Some(self.ident()?) } else { self.opt_ident() };
                Pick::Expr(e, alias)
            };
            s.picks.push(pick);
            if !self.sym(',') {
                break;
            }
        }
        if self.kw("from") {
            let mut joined = false;
            let mut left = false;
            loop {
                let (schema, table) = self.table()?;
                let alias = if self.kw("as") { self.ident()? } else { self.opt_ident().unwrap_or_else(|| table.clone()) };
                let on = if joined && self.kw("on") { Some(self.expr()?) } else { None };
                s.from.push(From { schema, table, alias, left, on });
                left = false;
                joined = true;
                if self.sym(',') {
                    joined = false;
                } else if self.kw("join") {
                } else if self.kw("inner") || self.kw("cross") {
                    self.need("join")?;
                } else if self.kw("left") {
                    self.kw("outer");
                    self.need("join")?;
                    left = true;
                } else {
                    break;
                }
            }
            s.cond = self.cond()?;
            if self.kw("order") {
                self.need("by")?;
                loop {
                    let e = self.expr()?;
                    let desc = self.kw("desc");
                    if !desc {
                        self.kw("asc");
                    }
                    s.order.push((e, desc));
                    if !self.sym(',') {
                        break;
                    }
                }
            }
        }
        if self.kw("limit") {
            match self.primary()? {
                Expr::Lit(Raw::Int(n)) => s.limit = Some(n as u64),
                _ => return syntax("limit"),
            }
        }
        if self.kw("for") {
            self.need("update")?;
        }
        Ok(s)
    }

    fn column_def(&mut self) -> Res<Col> {
        let name = self.ident()?;
        let t = match self.t.get(self.i) {
            Some(Tok::Id(t, false)) => t.to_ascii_lowercase(),
            _ => return syntax(self.near()),
        };
        self.i += 1;
        let typ = match t.as_str() {
            "tinyint" | "bool" | "boolean" => typ::TINY,
            "smallint" => typ::SHORT,
            "mediumint" => typ::INT24,
            "int" | "integer" => typ::LONG,
            "bigint" => typ::LONGLONG,
            "float" => typ::FLOAT,
            "double" => typ::DOUBLE,
            "varchar" | "varbinary" => typ::VARSTRING,
            "char" | "binary" => typ::STRING,
            "text" | "blob" | "longtext" | "mediumtext" => typ::BLOB,
            "date" => typ::DATE,
            "datetime" => typ::DATETIME,
            "timestamp" => typ::TIMESTAMP,
            "time" => typ::TIME,
            _ => return syntax(t),
        };
        let mut c = Col::new(&name, typ, 0, true);
        // the rest of the definition
        let mut depth = 0;
        loop {
            match self.t.get(self.i) {
                None => return syntax("end"),
                Some(Tok::Sym('(')) => depth += 1,
                Some(Tok::Sym(')')) if depth > 0 => depth -= 1,
                Some(Tok::Sym(')' | ',')) if depth == 0 => break,
                Some(Tok::Id(w, false)) if depth == 0 => match w.to_ascii_lowercase().as_str() {
                    "unsigned" => c.flags |= UNSIGNED,
                    "not" => c.nullable = false,
                    "auto_increment" => c.auto = true,
                    "default" => {
                        c.default = match self.t.get(self.i + 1) {
                            Some(Tok::Id(w, false)) if w.eq_ignore_ascii_case("current_timestamp") || w.eq_ignore_ascii_case("now") => Some(Value::Datetime(2024, 5, 6, 7, 8, 9, 0)),
                            Some(tok) => match literal(std::slice::from_ref(tok)) {
                                Ok(Lit::Null) => None,
                                Ok(l) => Some(coerce(&c, &Raw::lit(l))?),
                                Err(_) => None,
                            },
                            None => None,
                        }
                    }
                    _ => {}
                },
                _ => {}
            }
            self.i += 1;
        }
        Ok(c)
    }

    fn stmt(&mut self) -> Res<Stmt> {
        let s = if self.kw("select") {
            Stmt::Select(self.select()?)
        } else if self.kw("insert") {
            self.kw("into");
            let (schema, table) = self.table()?;
            if self.kw("set") {
                let (mut cols, mut row) = (vec![], vec![]);
                loop {
                    cols.push(self.ident()?);
                    self.need("=")?;
                    row.push(Some(self.expr()?));
                    if !self.sym(',') {
                        break;
                    }
                }
                Stmt::Insert { schema, table, cols: Some(cols), rows: vec![row] }
            } else {
                let cols = if self.t.get(self.i) == Some(&Tok::Sym('(')) { Some(self.name_list()?) } else { None };
                if !self.kw("values") {
                    self.need("value")?;
                }
                let mut rows = vec![];
                loop {
                    self.need("(")?;
                    let mut row = vec![];
                    if !self.sym(')') {
                        loop {
                            row.push(if self.kw("default") { None } else { Some(self.expr()?) });
                            if self.sym(')') {
                                break;
                            }
                            self.need(",")?;
                        }
                    }
                    rows.push(row);
                    if !self.sym(',') {
                        break;
                    }
                }
                Stmt::Insert { schema, table, cols, rows }
            }
        } else if self.kw("update") {
            let (schema, table) = self.table()?;
            self.need("set")?;
            let mut set = vec![];
            loop {
                let (t, mut n) = (None::<String>, self.ident()?);
                if self.sym('.') {
                    n = self.ident()?;
                }
                let _ = t;
                self.need("=")?;
                set.push((n, self.expr()?));
                if !self.sym(',') {
                    break;
                }
            }
            let cond = self.cond()?;
            if self.kw("limit") {
                self.primary()?;
            }
            Stmt::Update { schema, table, set, cond }
        } else if self.kw("delete") {
            self.need("from")?;
            let (schema, table) = self.table()?;
            let cond = self.cond()?;
            if self.kw("limit") {
                self.primary()?;
            }
            Stmt::Delete { schema, table, cond }
        } else if self.kw("create") {
            self.need("table")?;
            let lenient = if self.kw("if") {
                self.need("not")?;
                self.need("exists")?;
                true
            } else {
                false
            };
            let (schema, table) = self.table()?;
            self.need("(")?;
            let (mut cols, mut unique) = (Vec::<Col>::new(), vec![]);
            loop {
                if self.kw("unique") || self.kw("primary") {
                    self.kw("key");
                    self.kw("index");
                    self.opt_ident();
                    unique.push(self.name_list()?);
                } else if self.kw("key") || self.kw("index") || self.kw("constraint") || self.kw("foreign") {
                    let mut depth = 0;
                    while let Some(t) = self.t.get(self.i) {
                        match t {
                            Tok::Sym('(') => depth += 1,
                            Tok::Sym(')') if depth > 0 => depth -= 1,
                            Tok::Sym(')' | ',') if depth == 0 => break,
                            _ => {}
                        }
                        self.i += 1;
                    }
                } else {
                    let c = self.column_def()?;
                    if cols.iter().any(|o| o.name.eq_ignore_ascii_case(&c.name)) {
                        return err(1060, "42S21", format!("Duplicate column name '{}'", c.name));
                    }
                    cols.push(c);
                }
                if self.sym(')') {
                    break;
                }
                self.need(",")?;
            }
            // options of the table
            self.i = self.t.iter().skip(self.i).position(|t| *t == Tok::Sym(';')).map_or(self.t.len(), |n| self.i + n);
            Stmt::Create { schema, table, lenient, cols, unique }
        } else if self.kw("drop") {
            self.need("table")?;
            let lenient = if self.kw("if") {
                self.need("exists")?;
                true
            } else {
                false
            };
            let (schema, table) = self.table()?;
            Stmt::Drop { schema, table, lenient }
        } else if self.kw("begin") || self.kw("commit") || self.kw("rollback") || self.kw("start") || self.kw("set") || self.kw("do") || self.kw("lock") || self.kw("unlock") {
            self.i = self.t.len();
            Stmt::Other
        } else {
            return syntax(self.near());
        };
        while self.sym(';') {}
        if self.i != self.t.len() {
            return syntax(self.near());
        }
        Ok(s)
    }
}

fn parse(sql: &str) -> Res<(Stmt, usize)> {
    let t = match tokens(sql) {
        Ok(t) if t.is_empty() => return err(1065, "42000", "Query was empty"),
        Ok(t) => t,
        Err(m) => return syntax(m),
    };
    let mut p = P { t, i: 0, params: 0 };
    let s = p.stmt()?;
    Ok((s, p.params))
}

// ---------------------------------------------------------------- engine

struct Bound<'a> {
    alias: &'a str,
    schema: String,
    table: String,
    tab: &'a Tab,
}

struct EnvAt<'a, 'r> {
    schema: &'a str,
    bound: &'a [Bound<'a>],
    /// None: the row a left join adds
    rows: &'r [Option<usize>],
    params: &'a [Raw],
}

type Env<'a> = EnvAt<'a, 'a>;

impl EnvAt<'_, '_> {
    fn find(&self, alias: Option<&str>, name: &str) -> Res<(usize, usize)> {
        let mut found = None;
        for (i, b) in self.bound.iter().enumerate() {
            if alias.is_some_and(|a| a != b.alias) {
                continue;
            }
            if let Some(c) = b.tab.col(name) {
                if found.is_some() {
                    return err(1052, "23000", format!("Column '{name}' in field list is ambiguous"));
                }
                found = Some((i, c));
            }
        }
        match found {
            Some(x) => Ok(x),
            None => {
                let q = alias.map_or(String::new(), |a| format!("{a}."));
                err(1054, "42S22", format!("Unknown column '{q}{name}' in 'field list'"))
            }
        }
    }

    fn eval(&self, e: &Expr) -> Res<Raw> {
        Ok(match e {
            Expr::Lit(r) => r.clone(),
            Expr::Param(i) => match self.params.get(*i) {
                Some(p) => p.clone(),
                None => return err(1210, "HY000", "Incorrect arguments to EXECUTE"),
            },
            Expr::Col(a, n) => {
                let (b, c) = self.find(a.as_deref(), n)?;
                match self.rows.get(b) {
                    Some(Some(r)) => Raw::of(&self.bound[b].tab.rows[*r][c]),
                    _ => Raw::Null,
                }
            }
            Expr::Schema => Raw::Bytes(self.schema.as_bytes().to_vec()),
            Expr::Now => Raw::Date(2024, 5, 6, 7, 8, 9, 0),
            Expr::Count => return syntax("count"),
            Expr::Not(e) => match self.eval(e)? {
                Raw::Null => Raw::Null,
                r => Raw::Int(!r.truth() as i128),
            },
            Expr::IsNull(e, not) => Raw::Int(((self.eval(e)? == Raw::Null) != *not) as i128),
            Expr::Bin(op, a, b) => {
                let (a, b) = (self.eval(a)?, self.eval(b)?);
                match op.as_str() {
                    "and" => Raw::Int((a.truth() && b.truth()) as i128),
                    "or" => Raw::Int((a.truth() || b.truth()) as i128),
                    "<=>" => Raw::Int(((a == Raw::Null && b == Raw::Null) || a.order(&b) == Some(Ordering::Equal)) as i128),
                    _ => match a.order(&b) {
                        None if a == Raw::Null || b == Raw::Null => Raw::Null,
                        None => Raw::Int((op == "<>") as i128),
                        Some(o) => Raw::Int(match op.as_str() {
                            "=" => o.is_eq(),
                            "<>" => o.is_ne(),
                            "<" => o.is_lt(),
                            "<=" => o.is_le(),
                            ">" => o.is_gt(),
                            _ => o.is_ge(),
                        } as i128),
                    },
                }
            }
        })
    }
}

impl Db {
    pub fn new(schema: &str, rng: Rng) -> Self {
        Self { schema: schema.into(), tabs: BTreeMap::new(), log: vec![], rng, judge: None, shuffle: true, quiet: false, other_ids: false }
    }

    pub fn tab(&self, name: &str) -> Option<&Tab> {
        self.tabs.get(&(self.schema.clone(), name.to_string()))
    }

    pub fn tab_mut(&mut self, name: &str) -> Option<&mut Tab> {
        self.tabs.get_mut(&(self.schema.clone(), name.to_string()))
    }

    pub fn add(&mut self, name: &str, tab: Tab) {
        self.tabs.insert((self.schema.clone(), name.to_string()), tab);
    }

    fn key(&self, schema: &Option<String>, table: &str) -> Res<(String, String)> {
        let k = (schema.clone().unwrap_or_else(|| self.schema.clone()), table.to_string());
        if self.tabs.contains_key(&k) {
            Ok(k)
        } else {
            err(1146, "42S02", format!("Table '{}.{}' doesn't exist", k.0, k.1))
        }
    }

    fn information(&self) -> Tab {
        let text = |n: &str| Col::new(n, typ::VARSTRING, 0, true);
        Tab {
            cols: vec![text("TABLE_SCHEMA"), text("TABLE_NAME"), text("TABLE_TYPE")],
            rows: self
                .tabs
                .keys()
                .map(|(s, t)| vec![Value::Bytes(s.clone().into_bytes()), Value::Bytes(t.clone().into_bytes()), Value::Bytes(b"BASE TABLE".to_vec())])
                .collect(),
            ..Default::default()
        }
    }

    fn select(&self, s: &Select, params: &[Raw]) -> Res<(Vec<ColSpec>, Vec<Vec<Value>>)> {
        let info = self.information();
        let mut bound: Vec<Bound> = Vec::new();
        for f in &s.from {
            let sch = f.schema.clone().unwrap_or_else(|| self.schema.clone());
            let (table, tab) = if sch.eq_ignore_ascii_case("information_schema") {
                if !["tables", "partitions"].iter().any(|t| f.table.eq_ignore_ascii_case(t)) {
                    return err(1109, "42S02", format!("Unknown table '{}' in information_schema", f.table));
                }
                (f.table.clone(), &info)
            } else {
                let k = self.key(&f.schema, &f.table)?;
                (k.1.clone(), &self.tabs[&k])
            };
            if bound.iter().any(|b| b.alias == f.alias) {
                return err(1066, "42000", format!("Not unique table/alias: '{}'", f.alias));
            }
            bound.push(Bound { alias: &f.alias, schema: sch, table, tab });
        }
        let mut sets: Vec<Vec<Option<usize>>> = vec![vec![]];
        for (i, f) in s.from.iter().enumerate() {
            let mut next = Vec::new();
            for set in &sets {
                let mut any = false;
                for r in 0..bound[i].tab.rows.len() {
                    let mut cand = set.clone();
                    cand.push(Some(r));
                    let ok = match &f.on {
                        Some(e) => Env { schema: &self.schema, bound: &bound[..=i], rows: &cand, params }.eval(e)?.truth(),
                        None => true,
                    };
                    if ok {
                        any = true;
                        next.push(cand);
                    }
                }
                if !any && f.left {
                    let mut cand = set.clone();
                    cand.push(None);
                    next.push(cand);
                }
            }
            // names are checked even without rows
            if let Some(e) = &f.on {
                Env { schema: &self.schema, bound: &bound[..=i], rows: &[], params }.eval(e)?;
            }
            sets = next;
            if sets.len() > 100_000 {
                return err(1104, "42000", "The SELECT would examine too many rows");
            }
        }
        fn envs<'a>(schema: &'a str, bound: &'a [Bound<'a>], params: &'a [Raw]) -> impl for<'r> Fn(&'r [Option<usize>]) -> EnvAt<'a, 'r> {
            move |rows| EnvAt { schema, bound, rows, params }
        }
        let env = envs(&self.schema, &bound, params);
        if let Some(e) = &s.cond {
            env(&[]).eval(e)?;
            let mut kept = Vec::new();
            for set in sets {
                if env(&set).eval(e)?.truth() {
                    kept.push(set);
                }
            }
            sets = kept;
        }
        for (e, _) in &s.order {
            env(&[]).eval(e)?;
        }
        if !s.order.is_empty() {
            sets.sort_by(|a, b| {
                for (e, desc) in &s.order {
                    let (x, y) = (env(a).eval(e).unwrap_or(Raw::Null), env(b).eval(e).unwrap_or(Raw::Null));
                    let o = x.order(&y).unwrap_or_else(|| (x != Raw::Null).cmp(&(y != Raw::Null)));
                    if o.is_ne() {
                        return if *desc { o.reverse() } else { o };
                    }
                }
                Ordering::Equal
            });
        } else if self.shuffle {
            self.rng.clone().shuffle(&mut sets);
        }
        enum Get<'a> {
            Cell(usize, usize),
            Expr(&'a Expr),
            Count,
        }
        let mut cols = Vec::new();
        let mut gets = Vec::new();
        for p in &s.picks {
            match p {
                Pick::All(a) => {
                    let mut any = false;
                    for (i, b) in bound.iter().enumerate() {
                        if a.as_ref().is_none_or(|a| a == b.alias) {
                            any = true;
                            for (j, c) in b.tab.cols.iter().enumerate() {
                                cols.push(c.spec(&b.schema, &b.table, b.alias));
                                gets.push(Get::Cell(i, j));
                            }
                        }
                    }
                    if !any {
                        return err(1051, "42S02", format!("Unknown table {a:?}"));
                    }
                }
                Pick::Expr(Expr::Col(a, n), alias) => {
                    let (i, j) = env(&[]).find(a.as_deref(), n)?;
                    let b = &bound[i];
                    let mut c = b.tab.cols[j].spec(&b.schema, &b.table, b.alias);
                    if let Some(x) = alias {
                        c.name = x.clone();
                    }
                    cols.push(c);
                    gets.push(Get::Cell(i, j));
                }
                Pick::Expr(e, alias) => {
                    let mut c = ColSpec::new(alias.as_deref().unwrap_or("expr"), typ::LONGLONG, 0);
                    c.org_name.clear();
                    c.table.clear();
                    c.org_table.clear();
                    c.db.clear();
                    if matches!(e, Expr::Count) {
                        gets.push(Get::Count);
                    } else {
                        match env(&[]).eval(e)? {
                            Raw::Bytes(_) => c.typ = typ::VARSTRING,
                            Raw::F32(_) => c.typ = typ::FLOAT,
                            Raw::F64(_) => c.typ = typ::DOUBLE,
                            Raw::Date(..) => c.typ = typ::DATETIME,
                            Raw::Time(..) => c.typ = typ::TIME,
                            _ => {}
                        }
                        gets.push(Get::Expr(e));
                    }
                    cols.push(c);
                }
            }
        }
        if gets.iter().any(|g| matches!(g, Get::Count)) {
            return Ok((cols, vec![gets.iter().map(|_| Value::Long(sets.len() as i64)).collect()]));
        }
        if let Some(n) = s.limit {
            sets.truncate(n as usize);
        }
        let mut rows = Vec::new();
        for set in &sets {
            let mut row = Vec::new();
            for (g, c) in gets.iter().zip(&cols) {
                row.push(match g {
                    Get::Cell(i, j) => match set[*i] {
                        Some(r) => bound[*i].tab.rows[r][*j].clone(),
                        None => Value::Null,
                    },
                    Get::Expr(e) => {
                        let col = Col { name: c.name.clone(), typ: c.typ, flags: c.flags, nullable: true, default: None, auto: false };
                        coerce(&col, &env(set).eval(e)?)?
                    }
                    Get::Count => Value::Null,
                });
            }
            rows.push(row);
        }
        Ok((cols, rows))
    }

    fn unique(tab: &Tab, table: &str, row: &[Value], skip: Option<usize>) -> Res<()> {
        for u in &tab.unique {
            for (i, r) in tab.rows.iter().enumerate() {
                if Some(i) != skip && u.iter().all(|c| row[*c] != Value::Null && Raw::of(&r[*c]).order(&Raw::of(&row[*c])) == Some(Ordering::Equal)) {
                    let key: Vec<_> = u.iter().map(|c| format!("{}", row[*c])).collect();
                    return err(1062, "23000", format!("Duplicate entry '{}' for a key of '{table}'", key.join("-")));
                }
            }
        }
        Ok(())
    }

    fn run(&mut self, s: &Stmt, params: &[Raw]) -> Res<(Out, What)> {
        match s {
            Stmt::Other => Ok((Out::Ok { affected: 0, id: 0 }, What::Other)),
            Stmt::Select(s) => {
                let (cols, rows) = self.select(s, params)?;
                self.rng.u64();
                Ok((Out::Rows { cols, rows }, What::Select(s.from.iter().map(|f| f.table.clone()).collect())))
            }
            Stmt::Insert { schema, table, cols, rows } => {
                let k = self.key(schema, table)?;
                let tab = &self.tabs[&k];
                let mut tab = tab.clone();
                let names: Vec<String> = match cols {
                    Some(c) if !(c.is_empty() && rows.iter().any(|r| !r.is_empty())) => c.clone(),
                    _ if rows.iter().all(|r| r.is_empty()) => vec![],
                    _ => tab.cols.iter().map(|c| c.name.clone()).collect(),
                };
                let mut at = Vec::new();
                for n in &names {
                    let Some(i) = tab.col(n) else { return err(1054, "42S22", format!("Unknown column '{n}' in 'field list'")) };
                    if at.contains(&i) {
                        return err(1110, "42000", format!("Column '{n}' specified twice"));
                    }
                    at.push(i);
                }
                let mut id = if self.other_ids && !tab.cols.iter().any(|c| c.auto) { 1 + self.rng.edgy(63) } else { 0 };
                let mut first = true;
                let mut given = Vec::new();
                for row in rows {
                    if row.len() != at.len() {
                        return err(1136, "21S01", "Column count doesn't match value count at row 1");
                    }
                    let mut full: Vec<Option<Value>> = vec![None; tab.cols.len()];
                    let mut shown = Vec::new();
                    for (e, i) in row.iter().zip(&at) {
                        let Some(e) = e else { continue };
                        let r = Env { schema: &self.schema, bound: &[], rows: &[], params }.eval(e)?;
                        let c = &tab.cols[*i];
                        if c.auto && (r == Raw::Null || r == Raw::Int(0)) {
                            shown.push(Value::Null);
                            continue;
                        }
                        let v = coerce(c, &r)?;
                        shown.push(v.clone());
                        full[*i] = Some(v);
                    }
                    given.push(shown);
                    let mut done = Vec::new();
                    for (c, v) in tab.cols.iter().zip(full) {
                        done.push(match v {
                            Some(v) => {
                                if c.auto {
                                    if let Raw::Int(x) = Raw::of(&v) {
                                        if first && !self.quiet {
                                            id = x as u64;
                                        }
                                        if x >= 0 {
                                            tab.next = tab.next.max(x as u64 + 1);
                                        }
                                    }
                                }
                                v
                            }
                            None if c.auto => {
                                if first {
                                    id = tab.next;
                                }
                                let v = coerce(c, &Raw::Int(tab.next as i128))?;
                                tab.next += 1;
                                v
                            }
                            None => match &c.default {
                                Some(d) => d.clone(),
                                None if c.nullable => Value::Null,
                                None => return err(1364, "HY000", format!("Field '{}' doesn't have a default value", c.name)),
                            },
                        });
                    }
                    first = false;
                    Self::unique(&tab, table, &done, None)?;
                    tab.rows.push(done);
                }
                self.tabs.insert(k.clone(), tab);
                Ok((Out::Ok { affected: rows.len() as u64, id }, What::Insert { schema: k.0, table: k.1, cols: names, rows: given, id }))
            }
            Stmt::Update { schema, table, set, cond } => {
                let k = self.key(schema, table)?;
                let tab = &self.tabs[&k];
                let mut at = Vec::new();
                for (n, _) in set {
                    match tab.col(n) {
                        Some(i) => at.push(i),
                        None => return err(1054, "42S22", format!("Unknown column '{n}' in 'field list'")),
                    }
                }
                let mut new = tab.clone();
                let (mut hit, mut changed, mut shown) = (vec![], 0, vec![]);
                let bound = [Bound { alias: table, schema: k.0.clone(), table: k.1.clone(), tab }];
                if let Some(e) = cond {
                    Env { schema: &self.schema, bound: &bound, rows: &[], params }.eval(e)?;
                }
                for i in 0..tab.rows.len() {
                    let rows = [Some(i)];
                    let env = Env { schema: &self.schema, bound: &bound, rows: &rows, params };
                    if let Some(e) = cond {
                        if !env.eval(e)?.truth() {
                            continue;
                        }
                    }
                    hit.push(i);
                    let mut row = tab.rows[i].clone();
                    shown.clear();
                    for ((n, e), c) in set.iter().zip(&at) {
                        let v = coerce(&tab.cols[*c], &env.eval(e)?)?;
                        shown.push((n.clone(), v.clone()));
                        row[*c] = v;
                    }
                    Self::unique(&new, table, &row, Some(i))?;
                    changed += (row != new.rows[i]) as u64;
                    new.rows[i] = row;
                }
                self.tabs.insert(k.clone(), new);
                Ok((Out::Ok { affected: changed, id: 0 }, What::Update { schema: k.0, table: k.1, set: shown, rows: hit }))
            }
            Stmt::Delete { schema, table, cond } => {
                let k = self.key(schema, table)?;
                let tab = &self.tabs[&k];
                let bound = [Bound { alias: table, schema: k.0.clone(), table: k.1.clone(), tab }];
                if let Some(e) = cond {
                    Env { schema: &self.schema, bound: &bound, rows: &[], params }.eval(e)?;
                }
                let mut keep = Vec::new();
                for (i, r) in tab.rows.iter().enumerate() {
                    let rows = [Some(i)];
                    let env = Env { schema: &self.schema, bound: &bound, rows: &rows, params };
                    let gone = match cond {
                        Some(e) => env.eval(e)?.truth(),
                        None => true,
                    };
                    if !gone {
                        keep.push(r.clone());
                    }
                }
                let n = (tab.rows.len() - keep.len()) as u64;
                if let Some(t) = self.tabs.get_mut(&k) {
                    t.rows = keep;
                }
                Ok((Out::Ok { affected: n, id: 0 }, What::Delete { schema: k.0, table: k.1, rows: n }))
            }
            Stmt::Create { schema, table, lenient, cols, unique } => {
                if self.key(schema, table).is_ok() {
                    return if *lenient {
                        Ok((Out::Ok { affected: 0, id: 0 }, What::Other))
                    } else {
                        err(1050, "42S01", format!("Table '{table}' already exists"))
                    };
                }
                let mut tab = Tab { cols: cols.clone(), rows: vec![], unique: vec![], next: 1 };
                for u in unique {
                    let mut at = vec![];
                    for n in u {
                        match tab.col(n) {
                            Some(i) => at.push(i),
                            None => return err(1072, "42000", format!("Key column '{n}' doesn't exist in table")),
                        }
                    }
                    tab.unique.push(at);
                }
                let s = schema.clone().unwrap_or_else(|| self.schema.clone());
                self.tabs.insert((s, table.clone()), tab);
                Ok((Out::Ok { affected: 0, id: 0 }, What::Create(table.clone())))
            }
            Stmt::Drop { schema, table, lenient } => match self.key(schema, table) {
                Ok(k) => {
                    self.tabs.remove(&k);
                    Ok((Out::Ok { affected: 0, id: 0 }, What::Drop(table.clone())))
                }
                Err(_) if *lenient => Ok((Out::Ok { affected: 0, id: 0 }, What::Other)),
                Err(_) => err(1051, "42S02", format!("Unknown table '{table}'")),
            },
        }
    }

    fn tables_known(&self, s: &Stmt) -> Res<()> {
        match s {
            Stmt::Insert { schema, table, .. } | Stmt::Update { schema, table, .. } | Stmt::Delete { schema, table, .. } => self.key(schema, table).map(|_| ()),
            _ => Ok(()),
        }
    }

    /// Runs a statement with literals only.
    pub fn exec(&mut self, sql: &str) -> Result<Out, ErrSpec> {
        let (s, _) = parse(sql)?;
        self.run(&s, &[]).map(|x| x.0)
    }

    /// Is the text a statement the database understands, with so many parameters?
    pub fn params(sql: &str) -> Result<usize, ErrSpec> {
        parse(sql).map(|x| x.1)
    }
}

// ---------------------------------------------------------------- server side

/// A handler for one connection to the database.
pub fn connection(db: Arc<Mutex<Db>>, conn: u32) -> impl Handler {
    let mut stmts: HashMap<u32, (Stmt, String)> = HashMap::new();
    move |s: &mut Session, io: &mut PeerIo, cmd: Cmd| {
        let mut db = lock(&db);
        let db = &mut *db;
        let (stmt, sql, params, prepared) = match cmd {
            Cmd::Query(q) => {
                let sql = String::from_utf8_lossy(&q).into_owned();
                (parse(&sql).map(|x| x.0), sql, vec![], false)
            }
            Cmd::Prepare(q) => {
                let sql = String::from_utf8_lossy(&q).into_owned();
                match parse(&sql).and_then(|(st, n)| db.tables_known(&st).map(|_| (st, n))) {
                    Ok((st, n)) => {
                        let cols = match &st {
                            Stmt::Select(sel) => match db.select(sel, &vec![Raw::Null; n]) {
                                Ok((c, _)) => c,
                                Err(e) => return s.err(io, &e),
                            },
                            _ => vec![],
                        };
                        let id = s.prepared(io, &q, n, &cols);
                        stmts.insert(id, (st, sql));
                    }
                    Err(e) => {
                        db.log.push(Done { conn, sql, what: What::Refused(e.code), prepared: true });
                        s.err(io, &e);
                    }
                }
                return;
            }
            Cmd::Execute { stmt, params, .. } => match stmts.get(&stmt) {
                Some((st, sql)) => match params {
                    Ok(p) => (Ok(st.clone()), sql.clone(), p.iter().map(|p| Raw::param(&p.val)).collect(), true),
                    Err(m) => (err(1210, "HY000", m), sql.clone(), vec![], true),
                },
                None => return s.err(io, &ErrSpec::new(1243, "HY000", "Unknown prepared statement handler")),
            },
            Cmd::Close(id) => {
                stmts.remove(&id);
                return;
            }
            Cmd::Quit | Cmd::LongData { .. } => return,
            _ => {
                db.log.push(Done { conn, sql: format!("unreadable command {}", crate::brief(&cmd)), what: What::Refused(1047), prepared: false });
                return s.err(io, &ErrSpec::new(1047, "08S01", "Unknown command"));
            }
        };
        let fate = match db.judge.take() {
            Some(mut j) => {
                let f = j(db, &sql);
                db.judge = Some(j);
                f
            }
            None => Fate::Run,
        };
        let hang_up = |io: &mut PeerIo| {
            io.closed = true;
            io.item(Item::Eof);
        };
        let done = |what| Done { conn, sql: sql.clone(), what, prepared };
        match fate {
            Fate::BreakBefore => return hang_up(io),
            Fate::Refuse(e) => {
                db.log.push(done(What::Refused(e.code)));
                return s.err(io, &e);
            }
            _ => {}
        }
        match stmt.and_then(|st| db.run(&st, &params)) {
            Err(e) => {
                db.log.push(done(What::Refused(e.code)));
                s.err(io, &e);
            }
            Ok((out, what)) => {
                db.log.push(done(what));
                if fate == Fate::BreakAfter {
                    return hang_up(io);
                }
                match out {
                    Out::Ok { affected, id } => s.ok(io, &OkSpec { affected, last_id: id, status: status::AUTOCOMMIT, ..Default::default() }),
                    Out::Rows { cols, rows } => {
                        let rng = &mut db.rng;
                        let enc: Vec<Vec<u8>> = rows.iter().map(|r| if prepared { gen::bin_row(rng, &cols, r) } else { gen::text_row(rng, &cols, r) }).collect();
                        s.result(io, &cols, &enc, &OkSpec { status: status::AUTOCOMMIT, ..Default::default() });
                    }
                }
            }
        }
    }
}
