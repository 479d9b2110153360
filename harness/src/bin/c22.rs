//! C22: escaped strings and identifiers read back as the original.
use {
    mysql_connector::types::{IdentifierEscape, StringEscape, UnquotedIdentifierEscape},
    vharness::{sqlmini::*, *},
};

fn string(c: &mut Case, s: &str) -> CaseResult {
    let e = StringEscape(s).to_string();
    // alone, and between other things
    for (pre, post, n) in [("", "", 0), ("insert into t values (", ", 'x')", 8)] {
        let sql = format!("{pre}{e}{post}");
        let toks = match tokens(&sql) {
            Ok(t) => t,
            Err(m) => return violation("not one literal", format!("{s:?} is escaped as {e:?}: {m}")),
        };
        let lit = if n == 0 {
            match toks.as_slice() {
                [Tok::Str(t)] => t.clone(),
                t => return violation("not one literal", format!("{s:?} is escaped as {e:?}, which reads as {}", brief(t))),
            }
        } else {
            match toks.as_slice() {
                [Tok::Id(..), Tok::Id(..), Tok::Id(..), Tok::Id(..), Tok::Sym('('), Tok::Str(t), Tok::Sym(','), Tok::Str(x), Tok::Sym(')')] if x == "x" => t.clone(),
                t => return violation("not one literal", format!("{s:?} is escaped as {e:?}, which reads as {} in a statement", brief(t))),
            }
        };
        if lit != s {
            if s.contains('\u{1a}') && lit == s.replace('\u{1a}', "z") {
                c.count("U+001A read as z", 1);
                return violation("escape 0x1a", format!("{s:?} is escaped as {e:?}, which reads as {lit:?}"));
            }
            return violation("string altered", format!("{s:?} is escaped as {e:?}, which reads as {lit:?}"));
        }
    }
    c.count("strings read back", 1);
    Ok(())
}

fn ident(c: &mut Case, s: &str) -> CaseResult {
    let e = IdentifierEscape(s).to_string();
    let kept: String = s.chars().filter(|c| ('\u{1}'..='\u{FFFF}').contains(c)).collect();
    let want = kept.trim_end();
    for (pre, post) in [("", ""), ("`a`.", " = 1"), ("a as ", ", 2")] {
        let sql = format!("{pre}{e}{post}");
        let toks = match tokens(&sql) {
            Ok(t) => t,
            Err(m) => return violation("not one identifier", format!("{s:?} is escaped as {e:?}: {m}")),
        };
        let at = match pre {
            "" => 0,
            _ => 2,
        };
        let len = if pre.is_empty() { 1 } else { 5 };
        match toks.get(at) {
            Some(Tok::Id(t, true)) if toks.len() == len => {
                ensure!(t == want, "identifier altered", "{s:?} is escaped as {e:?}, which reads as {t:?} and should be {want:?}")
            }
            _ => return violation("not one identifier", format!("{s:?} is escaped as {e:?}; {sql:?} reads as {}", brief(toks))),
        }
    }
    if want.len() != s.len() {
        c.count("identifiers with something removed", 1);
    }
    c.count("identifiers read back", 1);
    Ok(())
}

fn unquoted(c: &mut Case, s: &str) -> CaseResult {
    let e = UnquotedIdentifierEscape(s).to_string();
    let ok = |c: &char| c.is_ascii_alphanumeric() || *c == '$' || *c == '_' || ('\u{80}'..='\u{FFFF}').contains(c);
    let want: String = s.chars().filter(ok).collect();
    ensure!(e == want, "unquoted identifier", "{s:?} becomes {e:?} and should be {want:?}");
    c.count("unquoted identifiers", 1);
    Ok(())
}

/// The first thing that is not already known, else the known one.
fn all(c: &mut Case, s: &str) -> CaseResult {
    ident(c, s)?;
    unquoted(c, s)?;
    string(c, s)
}

fn worse(keep: &mut CaseResult, r: CaseResult) -> CaseResult {
    match &r {
        Err(Fail::Violation { sig, .. }) if sig == "escape 0x1a" => *keep = r,
        _ => return r,
    }
    Ok(())
}

const BLOCK: u32 = 2048;

/// Every character, alone and next to the ones with a meaning.
fn characters(c: &mut Case) -> CaseResult {
    let from = c.idx as u32 * BLOCK;
    c.feed(&from);
    let mut known = Ok(());
    for x in (from..from + BLOCK).filter_map(char::from_u32) {
        for s in [format!("{x}"), format!("a{x}b"), format!("\\{x}"), format!("`{x} "), format!("{x}'\"`")] {
            let r = all(c, &s);
            worse(&mut known, r)?;
        }
        c.count("characters", 1);
    }
    known
}

/// All pairs and many triples of ASCII characters.
fn pairs(c: &mut Case) -> CaseResult {
    let a = (c.idx % 128) as u8 as char;
    c.feed(&a);
    let mut known = Ok(());
    for b in 0..128u8 {
        let b = b as char;
        let r = all(c, &format!("{a}{b}"));
        worse(&mut known, r)?;
        for d in ['\\', '"', '\'', '`', ' ', '\0', '%', '_', 'n', 'Z', '\u{1a}', 'x'] {
            let r = all(c, &format!("{a}{b}{d}"));
            worse(&mut known, r)?;
            let r = all(c, &format!("{d}{a}{b}"));
            worse(&mut known, r)?;
        }
    }
    known
}

fn texts(c: &mut Case) -> CaseResult {
    const HOT: &[&str] = &[
        "\\", "\"", "'", "`", "\0", "\n", "\r", "\t", "\u{8}", "\u{1a}", " ", "%", "_", ";", "--", "-- ", "#", "/*", "*/", "\\\\", "\\\"", "``", "\u{a0}", "\u{3000}",
        "\u{2028}", "\u{FFFF}", "\u{10000}", "\u{10FFFF}", "é", "\u{80}", "\u{7f}", "z", "Z", "\\z", "0x", "NULL", "\u{feff}", "\u{202e}", "a", "\u{85}",
    ];
    let max = if c.rng.chance(1, 10) { 3000 } else { 14 };
    let n = c.rng.usize(max);
    let mut s = String::new();
    for _ in 0..n {
        match c.rng.below(3) {
            0 => s.push(c.rng.any_char()),
            _ => s.push_str(c.rng.pick(HOT)),
        }
    }
    c.feed(&s);
    c.sample(brief(&s));
    let mut known = Ok(());
    let r = all(c, &s);
    worse(&mut known, r)?;
    known
}

pub fn main() {
    Check::new("C22", "texts that differ; every character and pair of ASCII characters once")
        .assume("default SQL mode and the connection character set utf8mb4, as the client asks for")
        .scale(2)
        .group("characters", 0x110000 / BLOCK as u64, 0x110000 / BLOCK as u64, characters)
        .group("pairs", 128, 128, pairs)
        .group("texts", 100_000, 6_000_000, texts)
        .require("characters", 0x110000 - 0x800)
        .require("strings read back", 500_000)
        .require("identifiers read back", 500_000)
        .require("identifiers with something removed", 100_000)
        .main()
}
