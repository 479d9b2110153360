//! Written by tools/gen_models.py: nothing but derives of the code under test.
#![allow(non_snake_case, dead_code)]
use {
    chrono::{Duration, NaiveDate, NaiveDateTime},
    mysql_connector::{macros::*, types, types::Hex},
    std::{option, string},
};

#[derive(Debug)]
pub struct Vec3 {
    pub x: f32,
    pub y: f32,
    pub z: f32,
}

#[derive(Debug)]
pub struct Money {
    pub amount: i64,
    pub currency: Option<String>,
}

pub mod shapes {
    use chrono::NaiveDate;

    #[derive(Debug)]
    pub struct Span {
        pub from: NaiveDate,
        pub to: Option<NaiveDate>,
    }
}

#[derive(Debug)]
pub struct One {
    pub r#type: u16,
}

#[derive(Debug)]
pub struct Swap {
    pub a: i32,
    pub b: i32,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(auto_increment = "true", table = "only", primary = "id")]
pub struct Only {
    pub id: u64,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(primary = "id", table = "leaf", auto_increment = "true")]
pub struct Leafy {
    pub id: u32,
    pub name: std::string::String,
    pub r#type: Option<i32>,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(auto_increment = "true", primary = "id", table = "leaf")]
pub struct LeafView {
    pub r#type: Option<i32>,
    pub id: u32,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "order", auto_increment = "false", primary = "key")]
pub struct Words {
    pub select: Option<i32>,
    pub key: i16,
    pub group: option::Option<::std::string::String>,
    pub row: std::option::Option<u8>,
    pub mapping: Option<u16>,
    pub index: option::Option<i64>,
    pub table: std::option::Option<bool>,
    pub column: std::option::Option<f64>,
    pub values: option::Option<u32>,
    pub conn: option::Option<i8>,
    pub value: Option<u64>,
    pub this: std::option::Option<Hex>,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(primary = "id", auto_increment = "false", table = "every type")]
pub struct Every {
    pub id: i64,
    pub f0: i8,
    pub f1: i16,
    pub f2: i32,
    pub f3: i64,
    pub f4: u8,
    pub f5: u16,
    pub f6: u32,
    pub f7: u64,
    pub f8: f32,
    pub f9: f64,
    pub f10: bool,
    pub f11: String,
    pub f12: std::vec::Vec<u8>,
    pub f13: chrono::NaiveDate,
    pub f14: chrono::NaiveDateTime,
    pub f15: chrono::Duration,
    pub f16: mysql_connector::types::Hex,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "Maybe", auto_increment = "false", primary = "code")]
pub struct Maybe {
    pub m0: Option<i8>,
    pub m1: std::option::Option<i16>,
    pub m2: Option<i32>,
    pub m3: option::Option<i64>,
    pub m4: std::option::Option<u8>,
    pub m5: option::Option<u16>,
    pub m6: Option<u32>,
    pub m7: option::Option<u64>,
    pub m8: std::option::Option<f32>,
    pub m9: Option<f64>,
    pub m10: option::Option<bool>,
    pub m11: Option<string::String>,
    pub m12: Option<Vec<u8>>,
    pub m13: std::option::Option<chrono::NaiveDate>,
    pub m14: option::Option<chrono::NaiveDateTime>,
    pub m15: Option<chrono::Duration>,
    pub m16: Option<Hex>,
    pub code: u8,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(auto_increment = "true", table = "structs", ty = Money { amount, currency: cur }, primary = "id", ty = One { r#type }, ty = shapes::Span { from: begin, to: from }, ty = Swap { a: b, b: a }, ty = Vec3 { x, y, z })]
pub struct Structs {
    pub pos: Vec3,
    pub id: i32,
    pub size: Vec3,
    pub price: Money,
    pub span: shapes::Span,
    pub r#in: One,
    pub swap: Swap,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(primary = "after", auto_increment = "false", ty = Money { amount, currency: cur }, table = "timed")]
pub struct Timed {
    pub after: chrono::Duration,
    pub note: Option<std::string::String>,
    pub price: Money,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(primary = "size", table = "float", auto_increment = "false")]
pub struct Float {
    pub label: option::Option<string::String>,
    pub size: f64,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "mid", auto_increment = "false", ty = Vec3 { x, y, z }, primary = "key")]
pub struct Middle {
    pub name: std::string::String,
    pub key: u64,
    pub leaf: super::models_gen::Leafy,
    pub pos: Vec3,
    pub other: Leafy,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(auto_increment = "true", ty = Money { amount, currency: cur }, ty = Vec3 { x, y, z }, primary = "id", table = "root")]
pub struct Rooty {
    pub mid: super::models_gen::Middle,
    pub id: u32,
    pub pos: Vec3,
    pub twin: self::Middle,
    pub name: ::std::string::String,
    pub leaf: super::models_gen::Leafy,
    pub extra: Money,
    pub size: Vec3,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "ring", primary = "id", auto_increment = "true")]
pub struct Ringy {
    pub id: u64,
    pub ring: self::Leafy,
    pub mid: Leafy,
    pub mid2: Middle,
    pub r#type: super::models_gen::LeafView,
    pub leaf: Only,
    pub mi: super::models_gen::Only,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(primary = "id", auto_increment = "false", table = "keys")]
pub struct Keys {
    pub timed: Timed,
    pub id: i8,
    pub float: super::models_gen::Float,
    pub order: self::Words,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "refs.with.dots", auto_increment = "true", primary = "id")]
pub struct Refs {
    pub id: i16,
    pub only: Only,
    pub only_b: super::models_gen::Only,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(primary = "nr", table = "größe", auto_increment = "true")]
pub struct Deep {
    pub nr: i64,
    pub a: Refs,
    pub root: super::models_gen::Rooty,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "wide", auto_increment = "true", primary = "id")]
pub struct Wide {
    pub id: u32,
    pub c00: std::option::Option<bool>,
    pub c01: std::option::Option<f32>,
    pub c02: option::Option<u8>,
    pub c03: option::Option<String>,
    pub c04: std::option::Option<string::String>,
    pub c05: std::option::Option<bool>,
    pub c06: Option<i8>,
    pub c07: option::Option<u64>,
    pub c08: Option<f64>,
    pub c09: option::Option<i64>,
    pub c10: std::option::Option<i16>,
    pub c11: std::option::Option<NaiveDate>,
    pub c12: Option<::std::string::String>,
    pub c13: option::Option<f64>,
    pub c14: Option<i32>,
    pub c15: option::Option<u16>,
    pub c16: Option<i64>,
    pub c17: Option<i8>,
    pub c18: std::option::Option<u32>,
    pub c19: option::Option<bool>,
    pub c20: Option<i8>,
    pub c21: Option<u64>,
    pub c22: Option<f64>,
    pub c23: Option<f64>,
    pub c24: Option<NaiveDate>,
    pub c25: Option<Vec<u8>>,
    pub c26: std::option::Option<u32>,
    pub c27: option::Option<NaiveDateTime>,
    pub c28: Option<std::string::String>,
    pub c29: option::Option<NaiveDate>,
    pub c30: Option<u64>,
    pub c31: Option<i16>,
    pub c32: option::Option<f32>,
    pub c33: Option<String>,
    pub c34: Option<f32>,
    pub c35: option::Option<std::vec::Vec<u8>>,
    pub c36: std::option::Option<u64>,
    pub c37: Option<u32>,
    pub c38: std::option::Option<u8>,
    pub c39: option::Option<chrono::NaiveDate>,
    pub c40: Option<i16>,
    pub c41: std::option::Option<Vec<u8>>,
    pub c42: option::Option<i8>,
    pub c43: Option<bool>,
    pub c44: option::Option<mysql_connector::types::Hex>,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(auto_increment = "false", primary = "state", table = "g-00")]
pub struct G00 {
    pub state: u8,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(auto_increment = "false", table = "t g01", primary = "from")]
pub struct G01 {
    pub ab: Option<u8>,
    pub from: i64,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "g02.x", auto_increment = "false", primary = "n0")]
pub struct G02 {
    pub n0: u64,
    pub to: String,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "g-03", primary = "y", auto_increment = "true")]
pub struct G03 {
    pub a: Option<u8>,
    pub y: u16,
    pub n1: self::Maybe,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(primary = "id", table = "g-04", auto_increment = "true")]
pub struct G04 {
    pub id: i32,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "G05", ty = Vec3 { x, y, z }, primary = "id", auto_increment = "false")]
pub struct G05 {
    pub id: i16,
    pub r#type: self::Refs,
    pub own: Vec3,
    pub to: Option<chrono::NaiveDateTime>,
    pub state: option::Option<i64>,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(ty = Money { amount, currency: cur }, table = "G06", auto_increment = "true", primary = "owner")]
pub struct G06 {
    pub größe: i32,
    pub r#fn: option::Option<u32>,
    pub owner: u16,
    pub x_: Money,
    pub desc: super::models_gen::G05,
    pub b: mysql_connector::types::Hex,
    pub n2: i64,
    pub n1: Option<i64>,
    pub own: self::Keys,
    pub key: Option<bool>,
    pub size: Hex,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(auto_increment = "true", table = "t g07", primary = "n2")]
pub struct G07 {
    pub map: option::Option<i16>,
    pub limit: option::Option<u32>,
    pub n2: i32,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(primary = "key", table = "g08.x", auto_increment = "true")]
pub struct G08 {
    pub key: i16,
    pub size: option::Option<i16>,
    pub a: Duration,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(auto_increment = "true", primary = "owner", table = "G09")]
pub struct G09 {
    pub name: Option<f32>,
    pub owner: u64,
    pub x_: Option<bool>,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "t g10", primary = "user_id", auto_increment = "true")]
pub struct G10 {
    pub user_id: i64,
    pub name: option::Option<mysql_connector::types::Hex>,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(auto_increment = "true", primary = "n0", table = "g11.x")]
pub struct G11 {
    pub date: f64,
    pub Upper: std::option::Option<Duration>,
    pub y: i32,
    pub size: Words,
    pub r#match: G07,
    pub user_id: f32,
    pub n0: u8,
    pub x_: Refs,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "t g12", primary = "ref", ty = Swap { a: b, b: a }, ty = Vec3 { x, y, z }, auto_increment = "true")]
pub struct G12 {
    pub a: i8,
    pub key: Vec3,
    pub to: Swap,
    pub y: i8,
    pub r#ref: u32,
    pub map: Keys,
    pub x_: self::Only,
    pub abc: Timed,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "G13", auto_increment = "true", primary = "a")]
pub struct G13 {
    pub limit: f32,
    pub a: u16,
    pub r#type: option::Option<i8>,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(primary = "ab", table = "t g14", auto_increment = "false")]
pub struct G14 {
    pub y: super::models_gen::Refs,
    pub owner: bool,
    pub r#ref: Option<Hex>,
    pub state: u64,
    pub r#match: G03,
    pub abc: super::models_gen::Every,
    pub n1: Only,
    pub ab: u32,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(primary = "id", table = "g15.x", auto_increment = "true", ty = Swap { a: b, b: a })]
pub struct G15 {
    pub x: types::Hex,
    pub kind: Swap,
    pub n0: Option<string::String>,
    pub date: self::Keys,
    pub id: u16,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(auto_increment = "false", table = "g-16", primary = "id")]
pub struct G16 {
    pub mid: std::option::Option<i16>,
    pub r#match: NaiveDate,
    pub id: u64,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "g17", auto_increment = "false", ty = Swap { a: b, b: a }, primary = "to")]
pub struct G17 {
    pub state: self::Timed,
    pub to: u8,
    pub kind: self::G04,
    pub y: super::models_gen::G08,
    pub ab: Option<i64>,
    pub _x: Option<mysql_connector::types::Hex>,
    pub key: Swap,
    pub r#type: Option<i32>,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(primary = "fn", table = "g-18", auto_increment = "true", ty = One { r#type })]
pub struct G18 {
    pub from: std::option::Option<u64>,
    pub r#fn: u32,
    pub mid: One,
    pub date: std::option::Option<u8>,
    pub r#match: self::G05,
    pub size: u16,
    pub name: super::models_gen::G13,
    pub b: super::models_gen::G16,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(auto_increment = "true", table = "g19", primary = "n0", ty = One { r#type })]
pub struct G19 {
    pub x: i64,
    pub to: self::Middle,
    pub n0: i32,
    pub r#type: Option<u32>,
    pub size: One,
    pub limit: Duration,
    pub data: Vec<u8>,
    pub r#fn: f64,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(primary = "date", table = "g20", auto_increment = "false")]
pub struct G20 {
    pub Upper: self::Every,
    pub r#match: chrono::Duration,
    pub größe: std::option::Option<i8>,
    pub data: self::G10,
    pub map: std::vec::Vec<u8>,
    pub size: bool,
    pub date: i8,
    pub user: i32,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "g-21", auto_increment = "false", primary = "y")]
pub struct G21 {
    pub y: u32,
    pub b: G19,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "straße", primary = "id", ty = Money { amount, currency: cur }, auto_increment = "false")]
pub struct Umlaut {
    pub id: u16,
    pub größe: super::models_gen::Middle,
    pub größer: self::Leafy,
    pub wörter: Money,
    pub 日本: Refs,
    pub ö: Option<std::string::String>,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(auto_increment = "true", primary = "id", table = "ü")]
pub struct Umlauts {
    pub ä: self::Umlaut,
    pub id: u32,
    pub ää: super::models_gen::Leafy,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(auto_increment = "true", primary = "id", table = "knot2")]
pub struct Knot2 {
    pub id: u32,
    pub knot: Leafy,
    pub x: i32,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "knot", auto_increment = "true", primary = "key")]
pub struct Knot {
    pub id: Option<i32>,
    pub key: u16,
    pub knot: self::Knot2,
    pub leaf: Leafy,
    pub x: std::string::String,
}
