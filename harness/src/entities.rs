//! What the harness knows about the models of `models_gen`, and databases to hold them.
use {
    crate::{
        gen,
        minidb::{Col, Db, Tab},
        rng::Rng,
        wire::{typ, ColSpec, UNSIGNED},
    },
    chrono::{Datelike, Duration, NaiveDate, NaiveDateTime, NaiveTime, Timelike},
    mysql_connector::{
        model::{FromQueryResult, HasActiveModel, IntoQuery, Model, UpdateModel},
        types::{Hex, Value},
    },
    std::collections::BTreeMap,
};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    I8,
    I16,
    I32,
    I64,
    U8,
    U16,
    U32,
    U64,
    F32,
    F64,
    Bool,
    Text,
    Blob,
    Date,
    Datetime,
    Time,
    Hex,
}

pub struct Spec {
    pub rust: &'static str,
    pub table: &'static str,
    pub primary: &'static str,
    pub auto: bool,
    pub fields: &'static [Field],
}

pub enum Field {
    Simple(&'static str, Ty, bool),
    Struct(&'static str, &'static [(&'static str, Ty, bool)]),
    Ref(&'static str, fn() -> &'static Spec),
}

/// A model as data, in the order of its fields.
#[derive(Clone, Debug)]
pub enum Node {
    Val(Value),
    Struct(Vec<Value>),
    Ref(Vec<Node>),
}

/// What is done to a field of an active model.
#[derive(Clone, Debug)]
pub enum Act {
    Unset,
    Val(Value),
    Struct(Vec<Value>),
    Key(Value),
    Insert(Vec<Act>),
}

impl Node {
    pub fn val(&self) -> Option<&Value> {
        match self {
            Node::Val(v) => Some(v),
            _ => None,
        }
    }
    pub fn cells(&self) -> Option<std::slice::Iter<'_, Value>> {
        match self {
            Node::Struct(v) => Some(v.iter()),
            _ => None,
        }
    }
    pub fn nodes(&self) -> Option<&[Node]> {
        match self {
            Node::Ref(v) => Some(v),
            _ => None,
        }
    }
}

pub trait Entity: Model + FromQueryResult + IntoQuery {
    fn spec() -> &'static Spec;
    fn dump(self) -> Vec<Node>;
    fn build(nodes: &[Node]) -> Option<Self>;
    fn updater(key: &Value) -> Option<UpdateModel<Self>>;
    fn apply(model: &mut <Self as HasActiveModel>::ActiveModel, plan: &[Act]) -> Option<()>;
}

pub fn activate<T: Entity>(plan: &[Act]) -> Option<<T as HasActiveModel>::ActiveModel> {
    let mut m = T::active_model();
    T::apply(&mut m, plan)?;
    Some(m)
}

/// A date that cannot be sent.
pub const UNSENDABLE: Value = Value::Date(u16::MAX, 13, 77);

/// The harness's own idea of how a value is stored.
pub trait Cell: Sized {
    fn put(self) -> Value;
    fn get(v: &Value) -> Option<Self>;
}

macro_rules! cell {
    ($($t:ty, $n:ident;)*) => {
        $(impl Cell for $t {
            fn put(self) -> Value {
                Value::$n(self)
            }
            fn get(v: &Value) -> Option<Self> {
                match v {
                    Value::$n(x) => Some(x.clone()),
                    _ => None,
                }
            }
        })*
    };
}
cell! { i8, Tiny; i16, Short; i32, Int; i64, Long; u8, UTiny; u16, UShort; u32, UInt; u64, ULong; f32, Float; f64, Double; Vec<u8>, Bytes; }

impl Cell for bool {
    fn put(self) -> Value {
        Value::Tiny(self as i8)
    }
    fn get(v: &Value) -> Option<Self> {
        match v {
            Value::Tiny(x) => Some(*x != 0),
            _ => None,
        }
    }
}

impl Cell for String {
    fn put(self) -> Value {
        Value::Bytes(self.into_bytes())
    }
    fn get(v: &Value) -> Option<Self> {
        match v {
            Value::Bytes(x) => String::from_utf8(x.clone()).ok(),
            _ => None,
        }
    }
}

impl Cell for Hex {
    fn put(self) -> Value {
        Value::Bytes(self.0)
    }
    fn get(v: &Value) -> Option<Self> {
        Vec::<u8>::get(v).map(Hex)
    }
}

impl Cell for NaiveDate {
    fn put(self) -> Value {
        Value::Date(self.year() as u16, self.month() as u8, self.day() as u8)
    }
    fn get(v: &Value) -> Option<Self> {
        match v {
            v if *v == UNSENDABLE => NaiveDate::from_ymd_opt(-1, 1, 1),
            Value::Date(y, m, d) => NaiveDate::from_ymd_opt(*y as i32, *m as u32, *d as u32),
            _ => None,
        }
    }
}

impl Cell for NaiveDateTime {
    fn put(self) -> Value {
        Value::Datetime(
            self.year() as u16,
            self.month() as u8,
            self.day() as u8,
            self.hour() as u8,
            self.minute() as u8,
            self.second() as u8,
            self.nanosecond() / 1000,
        )
    }
    fn get(v: &Value) -> Option<Self> {
        match v {
            Value::Datetime(y, m, d, h, mi, s, us) => Some(NaiveDateTime::new(
                NaiveDate::from_ymd_opt(*y as i32, *m as u32, *d as u32)?,
                NaiveTime::from_hms_micro_opt(*h as u32, *mi as u32, *s as u32, *us)?,
            )),
            _ => None,
        }
    }
}

impl Cell for Duration {
    fn put(self) -> Value {
        let us = self.num_seconds() as i128 * 1_000_000 + (self.subsec_nanos() / 1000) as i128;
        let a = us.unsigned_abs();
        let s = a / 1_000_000;
        Value::Time(us < 0, (s / 86400) as u32, (s / 3600 % 24) as u8, (s / 60 % 60) as u8, (s % 60) as u8, (a % 1_000_000) as u32)
    }
    fn get(v: &Value) -> Option<Self> {
        match v {
            Value::Time(n, d, h, m, s, us) => {
                let a = ((*d as i64 * 24 + *h as i64) * 60 + *m as i64) * 60 + *s as i64;
                let a = Duration::try_seconds(a)? + Duration::microseconds(*us as i64);
                Some(if *n { -a } else { a })
            }
            _ => None,
        }
    }
}

impl<T: Cell> Cell for Option<T> {
    fn put(self) -> Value {
        self.map_or(Value::Null, Cell::put)
    }
    fn get(v: &Value) -> Option<Self> {
        match v {
            Value::Null => Some(None),
            v => T::get(v).map(Some),
        }
    }
}

impl Ty {
    pub fn column(self) -> (u8, u16) {
        match self {
            Ty::I8 | Ty::Bool => (typ::TINY, 0),
            Ty::I16 => (typ::SHORT, 0),
            Ty::I32 => (typ::LONG, 0),
            Ty::I64 => (typ::LONGLONG, 0),
            Ty::U8 => (typ::TINY, UNSIGNED),
            Ty::U16 => (typ::SHORT, UNSIGNED),
            Ty::U32 => (typ::LONG, UNSIGNED),
            Ty::U64 => (typ::LONGLONG, UNSIGNED),
            Ty::F32 => (typ::FLOAT, 0),
            Ty::F64 => (typ::DOUBLE, 0),
            Ty::Text => (typ::VARSTRING, 0),
            Ty::Blob | Ty::Hex => (typ::BLOB, 0),
            Ty::Date => (typ::DATE, 0),
            Ty::Datetime => (typ::DATETIME, 0),
            Ty::Time => (typ::TIME, 0),
        }
    }

    /// A value every layer can hold exactly.
    pub fn value(self, rng: &mut Rng, max: usize) -> Value {
        let (t, f) = self.column();
        loop {
            let v = match self {
                Ty::Bool => Value::Tiny(rng.coin() as i8),
                Ty::Text => Value::Bytes(rng.text(max.min(30)).into_bytes()),
                _ => gen::value(rng, &ColSpec::new("x", t, f), max),
            };
            let fits = match self {
                Ty::Date => NaiveDate::get(&v).is_some(),
                Ty::Datetime => NaiveDateTime::get(&v).is_some(),
                _ => true,
            };
            if fits {
                return v;
            }
        }
    }

    /// Does the type hold the value?
    pub fn holds(self, v: &Value) -> bool {
        match self {
            Ty::I8 => i8::get(v).is_some(),
            Ty::I16 => i16::get(v).is_some(),
            Ty::I32 => i32::get(v).is_some(),
            Ty::I64 => i64::get(v).is_some(),
            Ty::U8 => u8::get(v).is_some(),
            Ty::U16 => u16::get(v).is_some(),
            Ty::U32 => u32::get(v).is_some(),
            Ty::U64 => u64::get(v).is_some(),
            Ty::F32 => f32::get(v).is_some(),
            Ty::F64 => f64::get(v).is_some(),
            Ty::Bool => bool::get(v).is_some(),
            Ty::Text => String::get(v).is_some(),
            Ty::Blob | Ty::Hex => Hex::get(v).is_some(),
            Ty::Date => NaiveDate::get(v).is_some(),
            Ty::Datetime => NaiveDateTime::get(v).is_some(),
            Ty::Time => Duration::get(v).is_some(),
        }
    }

    /// A value for a column of another type that cannot be understood as this one.
    pub fn unfit(self, rng: &mut Rng) -> Option<(u8, Value)> {
        match self {
            Ty::Text => Some((typ::VARSTRING, Value::Bytes(rng.pick(&[&b"\xff"[..], b"abc\xc3", b"\xed\xa0\x80", b"a\x80b"]).to_vec()))),
            Ty::Blob | Ty::Hex => None,
            Ty::Date if rng.coin() => Some((typ::DATE, if rng.coin() { Value::Date(0, 0, 0) } else { Value::Date(2023, 2, 30) })),
            Ty::Datetime if rng.coin() => Some((typ::DATETIME, if rng.coin() { Value::Datetime(0, 0, 0, 0, 0, 0, 0) } else { Value::Datetime(2024, 13, 1, 1, 2, 3, 4) })),
            _ => Some((typ::VARSTRING, Value::Bytes(rng.pick(&[&b"zz"[..], b"", b"0x", b"\xff\xfe", b"twelve"]).to_vec()))),
        }
    }
}

impl Spec {
    pub fn leaves(&self) -> usize {
        self.fields
            .iter()
            .map(|f| match f {
                Field::Simple(..) => 1,
                Field::Struct(_, c) => c.len(),
                Field::Ref(_, s) => s().leaves(),
            })
            .sum()
    }

    pub fn valid(&self, nodes: &[Node]) -> bool {
        let ok = |t: &Ty, null: &bool, v: &Value| if *v == Value::Null { *null } else { t.holds(v) };
        self.fields.iter().zip(nodes).all(|(f, n)| match (f, n) {
            (Field::Simple(_, t, null), Node::Val(v)) => ok(t, null, v),
            (Field::Struct(_, c), Node::Struct(v)) => c.iter().zip(v).all(|(c, v)| ok(&c.1, &c.2, v)),
            (Field::Ref(_, s), Node::Ref(n)) => s().valid(n),
            _ => false,
        })
    }

    /// This table's own columns that hold values (not references).
    pub fn own(&self) -> Vec<(String, Ty, bool)> {
        let mut v = Vec::new();
        for f in self.fields {
            match f {
                Field::Simple(n, t, null) => v.push((n.to_string(), *t, *null)),
                Field::Struct(_, c) => v.extend(c.iter().map(|c| (c.0.to_string(), c.1, c.2))),
                Field::Ref(..) => {}
            }
        }
        v
    }

    pub fn refs(&self) -> Vec<(&'static str, &'static Spec)> {
        self.fields
            .iter()
            .filter_map(|f| match f {
                Field::Ref(n, s) => Some((*n, s())),
                _ => None,
            })
            .collect()
    }

    pub fn primary_ty(&self) -> Ty {
        self.own().into_iter().find(|c| c.0 == self.primary).map_or(Ty::I64, |c| c.1)
    }

    /// Every table needed, referenced ones first.
    pub fn closure(&'static self, out: &mut Vec<&'static Spec>) {
        for (_, s) in self.refs() {
            s.closure(out);
        }
        if !out.iter().any(|s| std::ptr::eq(*s, self)) {
            out.push(self);
        }
    }

    pub fn has_field(&self, n: &str) -> bool {
        self.own().iter().any(|c| c.0.eq_ignore_ascii_case(n)) || self.refs().iter().any(|r| r.0.eq_ignore_ascii_case(n))
    }
}

pub struct World {
    /// columns the tables have besides those of the models
    pub extra: BTreeMap<String, Vec<String>>,
}

pub struct Shape {
    pub rows: u64,
    /// columns without a value may be left out of inserts
    pub defaults: bool,
    /// references may lead nowhere
    pub dangling: bool,
    pub max_bytes: usize,
}

/// Fills `db` with the tables of `root` and some rows.
pub fn populate(db: &mut Db, rng: &mut Rng, root: &'static Spec, shape: &Shape) -> World {
    let mut specs = Vec::new();
    root.closure(&mut specs);
    let mut world = World { extra: BTreeMap::new() };
    let mut tables: Vec<(&'static str, Vec<&'static Spec>)> = Vec::new();
    for s in specs {
        match tables.iter_mut().find(|t| t.0 == s.table) {
            Some(t) => t.1.push(s),
            None => tables.push((s.table, vec![s])),
        }
    }
    for (table, specs) in tables {
        let auto = specs[0].auto;
        // column, type, target of the reference
        let mut cols: Vec<(Col, Option<Ty>, Option<&'static Spec>)> = Vec::new();
        for s in &specs {
            for (n, t, null) in s.own() {
                match cols.iter_mut().find(|c| c.0.name == n) {
                    Some(c) => c.0.nullable &= null,
                    None => {
                        let (ct, flags) = t.column();
                        cols.push((Col::new(&n, ct, flags, null), Some(t), None));
                    }
                }
            }
            for (n, target) in s.refs() {
                let t = target.primary_ty();
                let (ct, flags) = t.column();
                if !cols.iter().any(|c| c.0.name == n) {
                    cols.push((Col::new(n, ct, flags, shape.dangling && rng.coin()), Some(t), Some(target)));
                }
            }
        }
        for n in 0..rng.below(4) {
            let base = (*rng.pick(&cols)).0.name.clone();
            let name = match rng.below(4) {
                0 => format!("{base}_"),
                1 => format!("zz{n}"),
                2 => base.chars().take(base.chars().count() - 1).collect(),
                _ => format!("{base}_{n}"),
            };
            // not a column of any of the models: those would rightly be taken for it
            if name.is_empty() || cols.iter().any(|c| c.0.name.eq_ignore_ascii_case(&name)) || specs.iter().any(|s| s.has_field(&name)) {
                continue;
            }
            let t = *rng.pick(&[Ty::I32, Ty::Text, Ty::U64, Ty::Date]);
            let (ct, flags) = t.column();
            world.extra.entry(table.into()).or_default().push(name.clone());
            cols.push((Col::new(&name, ct, flags, true), Some(t), None));
        }
        rng.shuffle(&mut cols);
        let primary = cols.iter().position(|c| c.0.name == specs[0].primary).unwrap_or(0);
        cols[primary].0.auto = auto;
        let mut rows: Vec<Vec<Value>> = Vec::new();
        for i in 0..shape.rows {
            let mut row = Vec::new();
            for (j, (c, t, target)) in cols.iter().enumerate() {
                let t = t.unwrap_or(Ty::I64);
                let v = if j == primary && auto {
                    key(t, i + 1)
                } else if c.nullable && rng.chance(1, 4) {
                    Value::Null
                } else if let Some(target) = target {
                    let there = keys(db, target);
                    if there.is_empty() || (shape.dangling && rng.chance(1, 8)) {
                        t.value(rng, 8)
                    } else {
                        rng.pick(&there).clone()
                    }
                } else {
                    t.value(rng, shape.max_bytes)
                };
                row.push(v);
            }
            if !rows.iter().any(|r| r[primary] == row[primary]) {
                rows.push(row);
            }
        }
        if shape.defaults {
            for (j, (c, t, _)) in cols.iter_mut().enumerate() {
                if j != primary && rng.chance(3, 4) {
                    c.default = t.map(|t| t.value(rng, 10));
                }
            }
        }
        db.add(
            table,
            Tab { next: if auto { shape.rows + 1 } else { 1 }, cols: cols.into_iter().map(|c| c.0).collect(), rows, unique: vec![vec![primary]] },
        );
    }
    world
}

/// The number as a key.
pub fn key(t: Ty, n: u64) -> Value {
    match t {
        Ty::I8 => Value::Tiny(n as i8),
        Ty::I16 => Value::Short(n as i16),
        Ty::I32 => Value::Int(n as i32),
        Ty::I64 => Value::Long(n as i64),
        Ty::U8 => Value::UTiny(n as u8),
        Ty::U16 => Value::UShort(n as u16),
        Ty::U32 => Value::UInt(n as u32),
        _ => Value::ULong(n),
    }
}

pub fn keys(db: &Db, spec: &Spec) -> Vec<Value> {
    match db.tab(spec.table) {
        Some(t) => match t.col(spec.primary) {
            Some(i) => t.rows.iter().map(|r| r[i].clone()).collect(),
            None => vec![],
        },
        None => vec![],
    }
}

/// The harness's own join: the model of row `row`, if all its references lead somewhere.
pub fn load(db: &Db, spec: &Spec, row: &[Value]) -> Option<Vec<Node>> {
    let tab = db.tab(spec.table)?;
    let cell = |n: &str| row.get(tab.col(n)?).cloned();
    let mut out = Vec::new();
    for f in spec.fields {
        out.push(match f {
            Field::Simple(n, ..) => Node::Val(cell(n)?),
            Field::Struct(_, c) => Node::Struct(c.iter().map(|c| cell(c.0)).collect::<Option<_>>()?),
            Field::Ref(n, s) => {
                let k = cell(n)?;
                let s = s();
                let t = db.tab(s.table)?;
                let i = t.col(s.primary)?;
                let r = t.rows.iter().find(|r| k != Value::Null && equal(&r[i], &k))?;
                Node::Ref(load(db, s, r)?)
            }
        });
    }
    Some(out)
}

/// Equality as the database sees it.
pub fn equal(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Double(x), Value::Double(y)) => x == y,
        (Value::Float(x), Value::Float(y)) => x == y,
        _ => a == b,
    }
}

pub fn load_all(db: &Db, spec: &Spec) -> Vec<Vec<Node>> {
    match db.tab(spec.table) {
        Some(t) => t.rows.iter().filter_map(|r| load(db, spec, r)).collect(),
        None => vec![],
    }
}

/// A text that is the same exactly for the same contents.
pub fn print(n: &[Node]) -> String {
    format!("{n:?}")
}

pub fn bag(rows: &[Vec<Node>]) -> Vec<String> {
    let mut v: Vec<_> = rows.iter().map(|r| print(r)).collect();
    v.sort();
    v
}
