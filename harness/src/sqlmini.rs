//! A reader of MySQL's lexical syntax (default SQL mode, utf8mb4), independent of the code under test.

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    /// (name, was it quoted)
    Id(String, bool),
    Str(String),
    Num(String),
    /// 0x…, x'…'
    Hex(Vec<u8>),
    Param,
    Sym(char),
}

fn ident_char(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '$' || c == '_' || ('\u{80}'..='\u{FFFF}').contains(&c)
}

fn unhex(s: &str) -> Option<Vec<u8>> {
    let d: Option<Vec<u8>> = s.chars().map(|c| c.to_digit(16).map(|x| x as u8)).collect();
    let d = d?;
    (d.len() % 2 == 0).then(|| d.chunks(2).map(|p| p[0] * 16 + p[1]).collect())
}

pub fn tokens(sql: &str) -> Result<Vec<Tok>, String> {
    let s: Vec<char> = sql.chars().collect();
    let mut out = Vec::new();
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        match c {
            ' ' | '\t' | '\n' | '\r' | '\u{b}' | '\u{c}' => i += 1,
            '#' => {
                while i < s.len() && s[i] != '\n' {
                    i += 1;
                }
            }
            '-' if s.get(i + 1) == Some(&'-') && s.get(i + 2).map_or(true, |c| c.is_whitespace() || c.is_control()) => {
                while i < s.len() && s[i] != '\n' {
                    i += 1;
                }
            }
            '/' if s.get(i + 1) == Some(&'*') => {
                i += 2;
                while i + 1 < s.len() && !(s[i] == '*' && s[i + 1] == '/') {
                    i += 1;
                }
                if i + 1 >= s.len() {
                    return Err("comment without end".into());
                }
                i += 2;
            }
            '\'' | '"' => {
                i += 1;
                let mut t = String::new();
                loop {
                    let Some(&d) = s.get(i) else { return Err("string without end".into()) };
                    i += 1;
                    if d == '\\' {
                        let Some(&e) = s.get(i) else { return Err("string without end".into()) };
                        i += 1;
                        match e {
                            '0' => t.push('\0'),
                            'b' => t.push('\u{8}'),
                            'n' => t.push('\n'),
                            'r' => t.push('\r'),
                            't' => t.push('\t'),
                            'Z' => t.push('\u{1a}'),
                            '%' => t.push_str("\\%"),
                            '_' => t.push_str("\\_"),
                            x => t.push(x),
                        }
                    } else if d == c {
                        if s.get(i) == Some(&c) {
                            t.push(c);
                            i += 1;
                        } else {
                            break;
                        }
                    } else {
                        t.push(d);
                    }
                }
                // adjacent strings are one
                match out.last_mut() {
                    Some(Tok::Str(p)) => p.push_str(&t),
                    _ => out.push(Tok::Str(t)),
                }
            }
            '`' => {
                i += 1;
                let mut t = String::new();
                loop {
                    let Some(&d) = s.get(i) else { return Err("identifier without end".into()) };
                    i += 1;
                    if d == '`' {
                        if s.get(i) == Some(&'`') {
                            t.push('`');
                            i += 1;
                        } else {
                            break;
                        }
                    } else if d == '\0' || d > '\u{FFFF}' {
                        return Err(format!("character {d:?} in an identifier"));
                    } else {
                        t.push(d);
                    }
                }
                out.push(Tok::Id(t, true));
            }
            'x' | 'X' if s.get(i + 1) == Some(&'\'') => {
                let end = (i + 2..s.len()).find(|j| s[*j] == '\'').ok_or("hex literal without end")?;
                let t: String = s[i + 2..end].iter().collect();
                out.push(Tok::Hex(unhex(&t).ok_or("bad hex literal")?));
                i = end + 1;
            }
            '0' if s.get(i + 1) == Some(&'x') && s.get(i + 2).is_some_and(|c| c.is_ascii_hexdigit()) => {
                let mut j = i + 2;
                while j < s.len() && ident_char(s[j]) {
                    j += 1;
                }
                let mut t: String = s[i + 2..j].iter().collect();
                if !t.chars().all(|c| c.is_ascii_hexdigit()) {
                    // such a word is an identifier
                    out.push(Tok::Id(s[i..j].iter().collect(), false));
                } else {
                    if t.len() % 2 == 1 {
                        t.insert(0, '0');
                    }
                    out.push(Tok::Hex(unhex(&t).ok_or("bad hex literal")?));
                }
                i = j;
            }
            '0'..='9' | '.' if c != '.' || s.get(i + 1).is_some_and(|d| d.is_ascii_digit()) && !matches!(out.last(), Some(Tok::Id(..))) => {
                let mut j = i;
                while j < s.len() && s[j].is_ascii_digit() {
                    j += 1;
                }
                if s.get(j) == Some(&'.') {
                    j += 1;
                    while j < s.len() && s[j].is_ascii_digit() {
                        j += 1;
                    }
                }
                if matches!(s.get(j), Some('e' | 'E')) {
                    let mut k = j + 1;
                    if matches!(s.get(k), Some('+' | '-')) {
                        k += 1;
                    }
                    if s.get(k).is_some_and(|d| d.is_ascii_digit()) {
                        while k < s.len() && s[k].is_ascii_digit() {
                            k += 1;
                        }
                        j = k;
                    }
                }
                if s.get(j).is_some_and(|d| ident_char(*d)) {
                    // an identifier may start with digits
                    while j < s.len() && ident_char(s[j]) {
                        j += 1;
                    }
                    out.push(Tok::Id(s[i..j].iter().collect(), false));
                } else {
                    out.push(Tok::Num(s[i..j].iter().collect()));
                }
                i = j;
            }
            '?' => {
                out.push(Tok::Param);
                i += 1;
            }
            c if ident_char(c) => {
                let mut j = i;
                while j < s.len() && ident_char(s[j]) {
                    j += 1;
                }
                out.push(Tok::Id(s[i..j].iter().collect(), false));
                i = j;
            }
            c => {
                out.push(Tok::Sym(c));
                i += 1;
            }
        }
    }
    Ok(out)
}

/// What a literal denotes.
#[derive(Clone, Debug, PartialEq)]
pub enum Lit {
    Null,
    Int(i128),
    /// exact decimal, as text (within the limits of the type)
    Decimal(String),
    /// approximate number, as text
    Double(String),
    Bytes(Vec<u8>),
    /// a string; may be used as a date or time
    Text(String),
}

/// One literal with an optional sign.
pub fn literal(toks: &[Tok]) -> Result<Lit, String> {
    let (neg, rest) = match toks {
        [Tok::Sym('-'), r @ ..] => (true, r),
        [Tok::Sym('+'), r @ ..] => (false, r),
        r => (false, r),
    };
    let signed = rest.len() != toks.len();
    match rest {
        [Tok::Num(n)] => {
            let sign = if neg { "-" } else { "" };
            if n.contains(['e', 'E']) {
                let v: f64 = n.parse().map_err(|_| format!("number {n}"))?;
                if !v.is_finite() {
                    return Err(format!("{n} is out of the range of double"));
                }
                return Ok(Lit::Double(format!("{sign}{n}")));
            }
            if !n.contains('.') {
                if let Ok(v) = n.parse::<i128>() {
                    if v <= u64::MAX as i128 && (!neg || v <= 1 << 63) {
                        return Ok(Lit::Int(if neg { -v } else { v }));
                    }
                }
            }
            let (int, frac) = n.split_once('.').unwrap_or((n, ""));
            let int = int.trim_start_matches('0');
            if int.len() + frac.len() > 65 || frac.len() > 30 {
                return Err(format!("{n} exceeds the limits of DECIMAL"));
            }
            Ok(Lit::Decimal(format!("{sign}{n}")))
        }
        [Tok::Id(n, false)] if !signed && n.eq_ignore_ascii_case("null") => Ok(Lit::Null),
        [Tok::Id(n, false), Tok::Str(t)] if !signed => match n.to_ascii_lowercase().as_str() {
            "date" | "time" | "timestamp" => Ok(Lit::Text(t.clone())),
            "_binary" => Ok(Lit::Bytes(t.clone().into_bytes())),
            _ => Err(format!("{toks:?} is no literal")),
        },
        [Tok::Id(n, false), Tok::Hex(b)] if !signed && n == "_binary" => Ok(Lit::Bytes(b.clone())),
        [Tok::Hex(b)] if !signed => Ok(Lit::Bytes(b.clone())),
        [Tok::Str(t)] if !signed => Ok(Lit::Text(t.clone())),
        _ => Err(format!("{toks:?} is no literal")),
    }
}

fn digits(s: &str) -> Option<u64> {
    if s.is_empty() || s.len() > 19 || !s.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    s.parse().ok()
}

fn micros(s: &str) -> Option<u32> {
    if s.is_empty() || s.len() > 6 {
        return None;
    }
    Some(digits(s)? as u32 * 10u32.pow(6 - s.len() as u32))
}

/// (negative, hours, minutes, seconds, micros)
pub fn time(t: &str) -> Option<(bool, u64, u64, u64, u32)> {
    let (neg, t) = match t.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, t),
    };
    let (days, t) = match t.split_once(' ') {
        Some((d, r)) => (digits(d)?, r),
        None => (0, t),
    };
    let (t, us) = match t.split_once('.') {
        Some((t, f)) => (t, micros(f)?),
        None => (t, 0),
    };
    let p: Vec<&str> = t.split(':').collect();
    if p.len() != 3 || p[1].len() > 2 || p[2].len() > 2 {
        return None;
    }
    let (h, m, s) = (digits(p[0])?, digits(p[1])?, digits(p[2])?);
    (m < 60 && s < 60).then_some((neg, days * 24 + h, m, s, us))
}

pub fn date(t: &str) -> Option<(u64, u64, u64)> {
    let p: Vec<&str> = t.split('-').collect();
    if p.len() != 3 || p[1].len() > 2 || p[2].len() > 2 {
        return None;
    }
    let y = match p[0].len() {
        4 => digits(p[0])?,
        // two digits mean a year of 1970 to 2069
        2 => match digits(p[0])? {
            y @ 0..=69 => 2000 + y,
            y => 1900 + y,
        },
        _ => return None,
    };
    Some((y, digits(p[1])?, digits(p[2])?))
}

#[allow(clippy::type_complexity)]
pub fn datetime(t: &str) -> Option<((u64, u64, u64), (u64, u64, u64, u32))> {
    let (d, t) = t.split_once([' ', 'T'])?;
    let (neg, h, m, s, us) = time(t)?;
    (!neg && h < 24).then_some((date(d)?, (h, m, s, us)))
}
