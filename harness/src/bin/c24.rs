//! C24: hex text round-trips and bad hex is an error.
use {
    mysql_connector::types::{Hex, Value},
    serde::{
        de::{
            value::{BorrowedStrDeserializer, Error as DeError, StrDeserializer, StringDeserializer},
            IntoDeserializer,
        },
        Deserialize, Serialize,
    },
    std::str::FromStr,
    vharness::{runner::catching, sqlmini::*, *},
};

fn digit(b: u8) -> Option<u8> {
    match b {
        b'0'..=b'9' => Some(b - b'0'),
        b'a'..=b'f' => Some(b - b'a' + 10),
        b'A'..=b'F' => Some(b - b'A' + 10),
        _ => None,
    }
}

/// What a text means, written independently of the library.
fn meaning(t: &[u8]) -> Option<Vec<u8>> {
    let t = match t {
        [b'0', b'x' | b'X', rest @ ..] => rest,
        t => t,
    };
    if t.len() % 2 == 1 {
        return None;
    }
    t.chunks(2).map(|p| Some(digit(p[0])? << 4 | digit(p[1])?)).collect()
}

#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct Outer {
    one: Hex,
    maybe: Option<Hex>,
    many: Vec<Hex>,
}

fn compare<E: std::fmt::Display>(c: &mut Case, how: &str, t: &[u8], want: &Option<Vec<u8>>, f: impl FnOnce() -> Result<Hex, E>) -> CaseResult {
    let shown = || brief(String::from_utf8_lossy(t));
    match catching(|| f().map(|h| h.0).map_err(|e| e.to_string())) {
        Err((at, m)) => violation("panic", format!("{how} of {} panicked: {m} at {at}", shown())),
        Ok(Ok(got)) => {
            c.count("texts accepted", 1);
            match want {
                Some(w) if *w == got => Ok(()),
                Some(w) => violation("bytes altered", format!("{how} of {} gave {}, not {}", shown(), brief(got), brief(w))),
                None => violation("bad hex accepted", format!("{how} of {} gave {}", shown(), brief(got))),
            }
        }
        Ok(Err(e)) => {
            c.count("texts refused", 1);
            match want {
                Some(_) => violation("good hex refused", format!("{how} of {} failed: {e}", shown())),
                None => Ok(()),
            }
        }
    }
}

/// Every way to read a text.
fn read(c: &mut Case, t: &[u8]) -> CaseResult {
    let want = meaning(t);
    let w = &want;
    compare(c, "try_from_hex(&[u8])", t, w, || Hex::try_from_hex(t))?;
    compare(c, "try_from_hex(Vec)", t, w, || Hex::try_from_hex(t.to_vec()))?;
    let Ok(s) = std::str::from_utf8(t) else {
        c.count("texts that are not UTF-8", 1);
        // still must be an error in bincode, not a panic
        let mut b = (t.len() as u64).to_le_bytes().to_vec();
        b.extend(t);
        return compare(c, "bincode", t, &None, || bincode::deserialize::<Hex>(&b));
    };
    compare(c, "from_str", t, w, || Hex::from_str(s))?;
    compare(c, "str::parse", t, w, || s.parse::<Hex>())?;
    compare(c, "try_from_hex(&str)", t, w, || Hex::try_from_hex(s))?;
    compare(c, "try_from_hex(String)", t, w, || Hex::try_from_hex(s.to_string()))?;
    compare(c, "StrDeserializer", t, w, || Hex::deserialize(IntoDeserializer::<DeError>::into_deserializer(s) as StrDeserializer<DeError>))?;
    compare(c, "StringDeserializer", t, w, || Hex::deserialize(IntoDeserializer::<DeError>::into_deserializer(s.to_string()) as StringDeserializer<DeError>))?;
    compare(c, "BorrowedStrDeserializer", t, w, || Hex::deserialize(BorrowedStrDeserializer::<DeError>::new(s)))?;
    let j = serde_json::to_string(s).unwrap();
    compare(c, "JSON text", t, w, || serde_json::from_str::<Hex>(&j))?;
    compare(c, "JSON reader", t, w, || serde_json::from_reader::<_, Hex>(j.as_bytes()))?;
    compare(c, "JSON value", t, w, || serde_json::from_value::<Hex>(serde_json::Value::String(s.to_string())))?;
    let mut b = (t.len() as u64).to_le_bytes().to_vec();
    b.extend(t);
    compare(c, "bincode", t, w, || bincode::deserialize::<Hex>(&b))
}

/// Every way to write bytes, and back.
fn write(c: &mut Case, b: &[u8]) -> CaseResult {
    let text = match catching(|| Hex::new(b.to_vec()).to_string()) {
        Ok(t) => t,
        Err((at, m)) => return violation("panic", format!("formatting {} panicked: {m} at {at}", brief(b))),
    };
    ensure!(text.is_ascii() && meaning(text.as_bytes()).as_deref() == Some(b), "text form wrong", "{} is displayed as {}", brief(b), brief(&text));
    let bare = text.strip_prefix("0x").unwrap_or(&text).to_string();
    let mixed: String = bare.chars().map(|d| if c.rng.coin() { d.to_ascii_uppercase() } else { d.to_ascii_lowercase() }).collect();
    for t in [text.clone(), bare.clone(), text.to_uppercase(), bare.to_uppercase(), format!("0x{mixed}"), format!("0X{mixed}"), mixed] {
        ensure!(meaning(t.as_bytes()).as_deref() == Some(b), "text form wrong", "{} is displayed as {}", brief(b), brief(&text));
        read(c, t.as_bytes())?;
    }
    // formats that write what they read
    let h = || Hex::new(b.to_vec());
    fn format<T: Serialize + PartialEq + std::fmt::Debug>(
        c: &mut Case,
        how: &str,
        v: &T,
        f: impl FnOnce(&T) -> Result<(T, String), String>,
    ) -> CaseResult {
        c.count("values serialised and read back", 1);
        match catching(|| f(v)) {
            Err((at, m)) => violation("panic", format!("{how} of {} panicked: {m} at {at}", brief(v))),
            Ok(Err(e)) => violation("serialised form refused", format!("{how} of {}: {e}", brief(v))),
            Ok(Ok((r, _))) if r == *v => Ok(()),
            Ok(Ok((r, t))) => violation("serialised form altered", format!("{how} of {} as {} reads as {}", brief(v), brief(t), brief(r))),
        }
    }
    fn all<T: Serialize + for<'a> Deserialize<'a> + PartialEq + std::fmt::Debug>(c: &mut Case, v: T) -> CaseResult {
        fn s(e: impl std::fmt::Display) -> String {
            e.to_string()
        }
        format(c, "JSON text", &v, |v| {
            let t = serde_json::to_string(v).map_err(s)?;
            Ok((serde_json::from_str(&t).map_err(|e| format!("{t}: {e}"))?, t))
        })?;
        format(c, "JSON value", &v, |v| {
            let t = serde_json::to_value(v).map_err(s)?;
            Ok((serde_json::from_value(t.clone()).map_err(|e| format!("{t}: {e}"))?, t.to_string()))
        })?;
        format(c, "bincode", &v, |v| {
            let t = bincode::serialize(v).map_err(s)?;
            Ok((bincode::deserialize(&t).map_err(|e| format!("{t:?}: {e}"))?, format!("{t:?}")))
        })?;
        format(c, "RON", &v, |v| {
            let t = ron::to_string(v).map_err(s)?;
            Ok((ron::from_str(&t).map_err(|e| format!("{t}: {e}"))?, t))
        })
    }
    all(c, h())?;
    all(c, Some(h()))?;
    let v = Outer { one: h(), maybe: if c.rng.coin() { Some(h()) } else { None }, many: (0..c.rng.below(3)).map(|_| h()).collect() };
    all(c, v)?;
    // database values
    let v = Value::from(h());
    ensure!(matches!(&v, Value::Bytes(x) if x == b), "value altered", "{} becomes {}", brief(b), brief(&v));
    let lit = tokens(&v.to_string()).and_then(|t| literal(&t));
    ensure!(matches!(&lit, Ok(Lit::Bytes(x)) if x == b) || matches!(&lit, Ok(Lit::Text(x)) if x.as_bytes() == b), "literal altered", "{} is written as {v}, which reads as {}", brief(b), brief(&lit));
    let back: Result<Hex, _> = v.try_into();
    match back {
        Ok(Hex(x)) if x == b => {}
        r => return violation("value altered", format!("{} comes back as {}", brief(b), brief(r))),
    }
    let o: Result<Option<Hex>, _> = Value::from(h()).try_into();
    ensure!(matches!(&o, Ok(Some(Hex(x))) if x == b), "value altered", "Some({}) comes back as {}", brief(b), brief(o));
    let mut m = h();
    m.push(7);
    ensure!(m.len() == b.len() + 1 && m[..b.len()] == *b && Vec::<u8>::from(m).pop() == Some(7) && h().into_bytes() == b, "value altered", "access to the bytes of {}", brief(b));
    c.count("byte strings written and read back", 1);
    Ok(())
}

fn small(c: &mut Case) -> CaseResult {
    write(c, &[])?;
    for a in 0..=255u8 {
        write(c, &[a])?;
    }
    let none: Result<Option<Hex>, _> = Value::Null.try_into();
    ensure!(matches!(none, Ok(None)), "value altered", "NULL is no None");
    // texts of up to two ASCII characters
    read(c, b"")?;
    for a in 0..=255u8 {
        read(c, &[a])?;
        for b in 0..128u8 {
            read(c, &[a, b])?;
        }
    }
    for j in ["null", "true", "1", "[]", "[1,2]", "{}", "{\"Hex\":\"0x00\"}", "\"", "", "-1e400"] {
        match catching(|| serde_json::from_str::<Hex>(j).is_ok()) {
            Err((at, m)) => return violation("panic", format!("JSON {j} panicked: {m} at {at}")),
            Ok(ok) => ensure!(!ok, "bad hex accepted", "JSON {j} is accepted"),
        }
    }
    c.count("exhaustive small texts", 1);
    Ok(())
}

/// Texts of up to five pieces, each one of these; by the first two.
const PIECES: &[&str] = &["", "0", "x", "X", "a", "F", "9", "g", " ", "-", "é", "\u{10FFFF}", "\0", "G", "`", "/", ":", "@"];

fn pieces(c: &mut Case) -> CaseResult {
    let n = PIECES.len();
    let (a, b) = (PIECES[c.idx as usize % n], PIECES[c.idx as usize / n]);
    for d in PIECES {
        for e in PIECES {
            read(c, format!("{a}{b}{d}{e}").as_bytes())?;
        }
    }
    c.feed(&(a, b));
    Ok(())
}

fn random(c: &mut Case) -> CaseResult {
    let max = match c.rng.below(40) {
        0 => 20_000,
        1..=4 => 600,
        _ => 24,
    };
    let n = c.rng.usize(max);
    let b = c.rng.bytes(n);
    c.feed(&b);
    write(c, &b)?;
    // a valid text with something wrong
    let mut t = if c.rng.coin() { b"0x".to_vec() } else { vec![] };
    t.extend(b.iter().flat_map(|x| format!("{x:02x}").into_bytes()));
    for _ in 0..c.rng.below(3) {
        let at = c.rng.usize(t.len());
        match c.rng.below(5) {
            0 => {
                t.insert(at, *c.rng.pick(b"0aFgG xX-_/:@`{\n\0\x7f\x80\xff"));
            }
            1 if at < t.len() => {
                t.remove(at);
            }
            2 if at < t.len() => t[at] = c.rng.u8(),
            3 if at < t.len() => t[at] = *c.rng.pick(b"/:@G`g"),
            _ => {
                let s = c.rng.any_char().to_string();
                t.splice(at..at, s.bytes());
            }
        }
    }
    c.count("damaged texts", 1);
    read(c, &t)
}

pub fn main() {
    Check::new("C24", "byte strings that differ; all one-byte strings, all texts of up to two ASCII characters and of up to four chosen pieces once")
        .assume("text that names no form is hex digits, with or without 0x or 0X before them; an empty text is the empty byte string")
        .scale(8)
        .group_on(1, "small", 1, 1, small)
        .group("pieces", (PIECES.len() * PIECES.len()) as u64, (PIECES.len() * PIECES.len()) as u64, pieces)
        .group("random", 30_000, 1_500_000, random)
        .require("byte strings written and read back", 20_000)
        .require("values serialised and read back", 100_000)
        .require("texts accepted", 500_000)
        .require("texts refused", 500_000)
        .require("texts that are not UTF-8", 2000)
        .require("damaged texts", 20_000)
        .main()
}
