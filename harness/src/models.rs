//! Models for the checks: nothing but derives of the code under test.
use {
    chrono::{Duration, NaiveDate, NaiveDateTime},
    mysql_connector::{macros::*, types::Hex},
};

#[derive(Clone, Debug, PartialEq)]
pub struct Vec3 {
    pub x: f32,
    pub y: f32,
    pub z: f32,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Pair {
    pub first: i64,
    pub second: Option<String>,
}

/// Every simple type.
#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "plain", primary = "id", auto_increment = "true")]
pub struct Plain {
    pub id: u32,
    pub a: i8,
    pub b: i16,
    pub c: i32,
    pub d: i64,
    pub e: u8,
    pub f: u16,
    pub g: u64,
    pub h: f32,
    pub i: f64,
    pub j: bool,
    pub name: String,
    pub blob: Vec<u8>,
    pub date: NaiveDate,
    pub at: NaiveDateTime,
    pub span: Duration,
    pub hex: Hex,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "opt", primary = "code", auto_increment = "false")]
pub struct Opt {
    pub code: i64,
    pub a: Option<i8>,
    pub e: Option<u8>,
    pub d: Option<i64>,
    pub g: Option<u64>,
    pub h: Option<f32>,
    pub i: Option<f64>,
    pub j: Option<bool>,
    pub name: Option<String>,
    pub blob: Option<Vec<u8>>,
    pub date: Option<NaiveDate>,
    pub at: Option<NaiveDateTime>,
    pub span: Option<Duration>,
    pub hex: Option<Hex>,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "leaf", primary = "id", auto_increment = "true")]
pub struct Leaf {
    pub id: u32,
    pub name: String,
    pub r#type: Option<i32>,
}

/// The primary key is not the first field and not generated.
#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "mid", primary = "key", auto_increment = "false", ty = Vec3 { x, y, z })]
pub struct Mid {
    pub name: String,
    pub key: u64,
    pub leaf: Leaf,
    pub pos: Vec3,
    pub other: Leaf,
}

/// References at two levels, the same table several times, names that repeat at every level.
#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(
    table = "root",
    primary = "id",
    auto_increment = "true",
    ty = Vec3 { x, y, z },
    ty = Pair { first: a, second: b }
)]
pub struct Root {
    pub mid: Mid,
    pub id: u32,
    pub pos: Vec3,
    pub twin: Mid,
    pub name: String,
    pub leaf: Leaf,
    pub extra: Pair,
    pub size: Vec3,
}

/// References named like tables, like prefixes of each other, and like the own table.
#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "ring", primary = "id", auto_increment = "true")]
pub struct Ring {
    pub id: u64,
    pub ring: Leaf,
    pub mid: Leaf,
    pub mid2: Mid,
    pub r#type: Leaf,
}
