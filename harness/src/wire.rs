//! Server side of the wire protocol, written from the protocol documentation.
pub const MAX: usize = 0xFF_FFFF;

pub mod caps {
    pub const LONG_PASSWORD: u32 = 1;
    pub const FOUND_ROWS: u32 = 2;
    pub const LONG_FLAG: u32 = 4;
    pub const CONNECT_WITH_DB: u32 = 8;
    pub const LOCAL_FILES: u32 = 0x80;
    pub const PROTOCOL_41: u32 = 0x200;
    pub const TRANSACTIONS: u32 = 0x2000;
    pub const SECURE_CONNECTION: u32 = 0x8000;
    pub const MULTI_STATEMENTS: u32 = 0x1_0000;
    pub const MULTI_RESULTS: u32 = 0x2_0000;
    pub const PS_MULTI_RESULTS: u32 = 0x4_0000;
    pub const PLUGIN_AUTH: u32 = 0x8_0000;
    pub const CONNECT_ATTRS: u32 = 0x10_0000;
    pub const PLUGIN_AUTH_LENENC: u32 = 0x20_0000;
    pub const SESSION_TRACK: u32 = 0x80_0000;
    pub const DEPRECATE_EOF: u32 = 0x100_0000;
    pub const SSL: u32 = 0x800;
    pub const COMPRESS: u32 = 0x20;
    /// What a current server announces (without SSL and compression).
    pub const MODERN: u32 = 0xDFFF_F7DF & !SSL & !COMPRESS;
}

pub mod status {
    pub const AUTOCOMMIT: u16 = 2;
    pub const MORE_RESULTS: u16 = 8;
}

pub mod typ {
    pub const DECIMAL: u8 = 0;
    pub const TINY: u8 = 1;
    pub const SHORT: u8 = 2;
    pub const LONG: u8 = 3;
    pub const FLOAT: u8 = 4;
    pub const DOUBLE: u8 = 5;
    pub const NULL: u8 = 6;
    pub const TIMESTAMP: u8 = 7;
    pub const LONGLONG: u8 = 8;
    pub const INT24: u8 = 9;
    pub const DATE: u8 = 10;
    pub const TIME: u8 = 11;
    pub const DATETIME: u8 = 12;
    pub const YEAR: u8 = 13;
    pub const VARCHAR: u8 = 15;
    pub const BIT: u8 = 16;
    pub const JSON: u8 = 245;
    pub const NEWDECIMAL: u8 = 246;
    pub const ENUM: u8 = 247;
    pub const SET: u8 = 248;
    pub const TINYBLOB: u8 = 249;
    pub const MEDIUMBLOB: u8 = 250;
    pub const LONGBLOB: u8 = 251;
    pub const BLOB: u8 = 252;
    pub const VARSTRING: u8 = 253;
    pub const STRING: u8 = 254;
    pub const GEOMETRY: u8 = 255;
}

pub const UNSIGNED: u16 = 32;

pub fn lenenc(out: &mut Vec<u8>, n: u64) {
    match n {
        0..=250 => out.push(n as u8),
        251..=0xFFFF => {
            out.push(0xFC);
            out.extend_from_slice(&(n as u16).to_le_bytes());
        }
        0x1_0000..=0xFF_FFFF => {
            out.push(0xFD);
            out.extend_from_slice(&n.to_le_bytes()[..3]);
        }
        _ => {
            out.push(0xFE);
            out.extend_from_slice(&n.to_le_bytes());
        }
    }
}

pub fn lenenc_bytes(out: &mut Vec<u8>, b: &[u8]) {
    lenenc(out, b.len() as u64);
    out.extend_from_slice(b);
}

/// Cuts a payload into frames.
pub fn frame(mut payload: &[u8], seq: &mut u8) -> Vec<u8> {
    let mut out = Vec::with_capacity(payload.len() + 4 * (payload.len() / MAX + 1));
    loop {
        let n = payload.len().min(MAX);
        out.extend_from_slice(&(n as u32).to_le_bytes()[..3]);
        out.push(*seq);
        *seq = seq.wrapping_add(1);
        out.extend_from_slice(&payload[..n]);
        payload = &payload[n..];
        if n < MAX {
            return out;
        }
    }
}

#[derive(Clone, Debug)]
pub struct Greeting {
    pub protocol: u8,
    pub version: String,
    pub conn_id: u32,
    /// the challenge, without terminator
    pub nonce: Vec<u8>,
    pub caps: u32,
    pub collation: u8,
    pub status: u16,
    pub plugin: String,
    pub plugin_nul: bool,
}

impl Default for Greeting {
    fn default() -> Self {
        Self {
            protocol: 10,
            version: "8.0.36".into(),
            conn_id: 7,
            nonce: b"0123456789abcdefghij".to_vec(),
            caps: caps::MODERN,
            collation: 255,
            status: 2,
            plugin: "mysql_native_password".into(),
            plugin_nul: true,
        }
    }
}

impl Greeting {
    pub fn encode(&self) -> Vec<u8> {
        let mut o = vec![self.protocol];
        o.extend_from_slice(self.version.as_bytes());
        o.push(0);
        o.extend_from_slice(&self.conn_id.to_le_bytes());
        o.extend_from_slice(&self.nonce[..8]);
        o.push(0);
        o.extend_from_slice(&(self.caps as u16).to_le_bytes());
        o.push(self.collation);
        o.extend_from_slice(&self.status.to_le_bytes());
        o.extend_from_slice(&((self.caps >> 16) as u16).to_le_bytes());
        o.push(if self.caps & caps::PLUGIN_AUTH != 0 { self.nonce.len() as u8 + 1 } else { 0 });
        o.extend_from_slice(&[0; 10]);
        if self.caps & caps::SECURE_CONNECTION != 0 {
            o.extend_from_slice(&self.nonce[8..]);
            o.push(0);
        }
        if self.caps & caps::PLUGIN_AUTH != 0 {
            o.extend_from_slice(self.plugin.as_bytes());
            if self.plugin_nul {
                o.push(0);
            }
        }
        o
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct OkSpec {
    pub affected: u64,
    pub last_id: u64,
    pub status: u16,
    pub warnings: u16,
    pub message: Vec<u8>,
}

impl OkSpec {
    /// header 0x00: OK packet; header 0xFE: end of rows with DEPRECATE_EOF.
    pub fn encode(&self, header: u8) -> Vec<u8> {
        let mut o = vec![header];
        lenenc(&mut o, self.affected);
        lenenc(&mut o, self.last_id);
        o.extend_from_slice(&self.status.to_le_bytes());
        o.extend_from_slice(&self.warnings.to_le_bytes());
        if !self.message.is_empty() {
            // servers without SESSION_TRACK send the rest of the packet as message;
            // current servers send a length-encoded string
            lenenc_bytes(&mut o, &self.message);
        }
        o
    }

    pub fn old_eof(&self) -> Vec<u8> {
        let mut o = vec![0xFE];
        o.extend_from_slice(&self.warnings.to_le_bytes());
        o.extend_from_slice(&self.status.to_le_bytes());
        o
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct ErrSpec {
    pub code: u16,
    pub state: Option<[u8; 5]>,
    pub message: String,
}

impl ErrSpec {
    pub fn new(code: u16, state: &str, message: impl Into<String>) -> Self {
        let mut s = [0; 5];
        s.copy_from_slice(state.as_bytes());
        Self { code, state: Some(s), message: message.into() }
    }

    pub fn encode(&self) -> Vec<u8> {
        let mut o = vec![0xFF];
        o.extend_from_slice(&self.code.to_le_bytes());
        if let Some(s) = &self.state {
            o.push(b'#');
            o.extend_from_slice(s);
        }
        o.extend_from_slice(self.message.as_bytes());
        o
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct ColSpec {
    pub db: String,
    pub table: String,
    pub org_table: String,
    pub name: String,
    pub org_name: String,
    pub charset: u16,
    pub length: u32,
    pub typ: u8,
    pub flags: u16,
    pub decimals: u8,
}

impl ColSpec {
    pub fn new(name: &str, typ: u8, flags: u16) -> Self {
        Self {
            db: "db".into(),
            table: "t".into(),
            org_table: "t".into(),
            name: name.into(),
            org_name: name.into(),
            charset: 45,
            length: 255,
            typ,
            flags,
            decimals: 0,
        }
    }

    pub fn encode(&self) -> Vec<u8> {
        let mut o = Vec::new();
        lenenc_bytes(&mut o, b"def");
        for s in [&self.db, &self.table, &self.org_table, &self.name, &self.org_name] {
            lenenc_bytes(&mut o, s.as_bytes());
        }
        o.push(0x0c);
        o.extend_from_slice(&self.charset.to_le_bytes());
        o.extend_from_slice(&self.length.to_le_bytes());
        o.push(self.typ);
        o.extend_from_slice(&self.flags.to_le_bytes());
        o.push(self.decimals);
        o.extend_from_slice(&[0, 0]);
        o
    }
}

pub fn text_row(cells: &[Option<Vec<u8>>]) -> Vec<u8> {
    let mut o = Vec::with_capacity(cells.iter().map(|c| c.as_ref().map_or(1, |x| x.len() + 9)).sum());
    for c in cells {
        match c {
            None => o.push(0xFB),
            Some(b) => lenenc_bytes(&mut o, b),
        }
    }
    o
}

/// Cells are already in binary encoding.
pub fn bin_row(cells: &[Option<Vec<u8>>]) -> Vec<u8> {
    let mut o = vec![0x00];
    let mut bitmap = vec![0u8; (cells.len() + 9) / 8];
    for (i, c) in cells.iter().enumerate() {
        if c.is_none() {
            bitmap[(i + 2) / 8] |= 1 << ((i + 2) % 8);
        }
    }
    o.extend_from_slice(&bitmap);
    for c in cells.iter().flatten() {
        o.extend_from_slice(c);
    }
    o
}

pub fn prepare_ok(id: u32, cols: u16, params: u16, warnings: u16) -> Vec<u8> {
    let mut o = vec![0];
    o.extend_from_slice(&id.to_le_bytes());
    o.extend_from_slice(&cols.to_le_bytes());
    o.extend_from_slice(&params.to_le_bytes());
    o.push(0);
    o.extend_from_slice(&warnings.to_le_bytes());
    o
}

/// Checked reader over client packets.
pub struct Rd<'a> {
    pub b: &'a [u8],
}

impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.b.len() < n {
            return None;
        }
        let (l, r) = self.b.split_at(n);
        self.b = r;
        Some(l)
    }
    pub fn u8(&mut self) -> Option<u8> {
        self.take(1).map(|x| x[0])
    }
    pub fn u16(&mut self) -> Option<u16> {
        self.take(2).map(|x| u16::from_le_bytes([x[0], x[1]]))
    }
    pub fn u32(&mut self) -> Option<u32> {
        self.take(4).map(|x| u32::from_le_bytes([x[0], x[1], x[2], x[3]]))
    }
    pub fn u64(&mut self) -> Option<u64> {
        self.take(8).map(|x| {
            let mut a = [0; 8];
            a.copy_from_slice(x);
            u64::from_le_bytes(a)
        })
    }
    pub fn lenenc(&mut self) -> Option<u64> {
        Some(match self.u8()? {
            x @ 0..=250 => x as u64,
            0xFC => self.u16()? as u64,
            0xFD => {
                let b = self.take(3)?;
                u32::from_le_bytes([b[0], b[1], b[2], 0]) as u64
            }
            0xFE => self.u64()?,
            _ => return None,
        })
    }
    pub fn lenenc_bytes(&mut self) -> Option<&'a [u8]> {
        let n = self.lenenc()?;
        self.take(usize::try_from(n).ok()?)
    }
    pub fn nul(&mut self) -> Option<&'a [u8]> {
        let p = self.b.iter().position(|x| *x == 0)?;
        let r = self.take(p)?;
        self.take(1)?;
        Some(r)
    }
}

/// The fields a server finds in a login packet, read by the abilities it announces.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct LoginInfo {
    pub caps: u32,
    pub max_packet: u32,
    pub collation: u8,
    pub filler_zero: bool,
    pub user: Vec<u8>,
    pub auth: Vec<u8>,
    pub db: Option<Vec<u8>>,
    pub plugin: Option<Vec<u8>>,
    pub rest: Vec<u8>,
}

pub fn parse_login(pkt: &[u8]) -> Option<LoginInfo> {
    let mut r = Rd { b: pkt };
    let mut l = LoginInfo { caps: r.u32()?, max_packet: r.u32()?, collation: r.u8()?, ..Default::default() };
    l.filler_zero = r.take(23)?.iter().all(|x| *x == 0);
    l.user = r.nul()?.to_vec();
    l.auth = if l.caps & caps::PLUGIN_AUTH_LENENC != 0 {
        r.lenenc_bytes()?.to_vec()
    } else if l.caps & caps::SECURE_CONNECTION != 0 {
        let n = r.u8()? as usize;
        r.take(n)?.to_vec()
    } else {
        r.nul()?.to_vec()
    };
    if l.caps & caps::CONNECT_WITH_DB != 0 {
        l.db = Some(r.nul()?.to_vec());
    }
    if l.caps & caps::PLUGIN_AUTH != 0 {
        l.plugin = Some(r.nul()?.to_vec());
    }
    if l.caps & caps::CONNECT_ATTRS != 0 {
        r.lenenc_bytes()?;
    }
    l.rest = r.b.to_vec();
    Some(l)
}

#[derive(Clone, Debug, PartialEq)]
pub enum PVal {
    Null,
    Int(i64),
    UInt(u64),
    F32(u32),
    F64(u64),
    Bytes(Vec<u8>),
    /// year, month, day, hour, minute, second, micro
    Date(u16, u8, u8, u8, u8, u8, u32),
    Time(bool, u32, u8, u8, u8, u32),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Param {
    pub typ: u8,
    pub unsigned: bool,
    pub val: PVal,
    pub long: bool,
}

/// Decodes one binary value of the given type as a server does.
pub fn decode_bin(r: &mut Rd<'_>, t: u8, unsigned: bool) -> Result<PVal, String> {
    let short = || format!("value of type {t} is cut off");
    Ok(match t {
        typ::TINY => {
            let x = r.u8().ok_or_else(short)?;
            if unsigned { PVal::UInt(x as u64) } else { PVal::Int(x as i8 as i64) }
        }
        typ::SHORT | typ::YEAR => {
            let x = r.u16().ok_or_else(short)?;
            if unsigned { PVal::UInt(x as u64) } else { PVal::Int(x as i16 as i64) }
        }
        typ::LONG | typ::INT24 => {
            let x = r.u32().ok_or_else(short)?;
            if unsigned { PVal::UInt(x as u64) } else { PVal::Int(x as i32 as i64) }
        }
        typ::LONGLONG => {
            let x = r.u64().ok_or_else(short)?;
            if unsigned { PVal::UInt(x) } else { PVal::Int(x as i64) }
        }
        typ::FLOAT => PVal::F32(r.u32().ok_or_else(short)?),
        typ::DOUBLE => PVal::F64(r.u64().ok_or_else(short)?),
        typ::DATE | typ::DATETIME | typ::TIMESTAMP => {
            let n = r.u8().ok_or_else(short)?;
            let mut v = (0u16, 0u8, 0u8, 0u8, 0u8, 0u8, 0u32);
            if !matches!(n, 0 | 4 | 7 | 11) {
                return Err(format!("date with length {n}"));
            }
            if n >= 4 {
                v.0 = r.u16().ok_or_else(short)?;
                v.1 = r.u8().ok_or_else(short)?;
                v.2 = r.u8().ok_or_else(short)?;
            }
            if n >= 7 {
                v.3 = r.u8().ok_or_else(short)?;
                v.4 = r.u8().ok_or_else(short)?;
                v.5 = r.u8().ok_or_else(short)?;
            }
            if n == 11 {
                v.6 = r.u32().ok_or_else(short)?;
            }
            PVal::Date(v.0, v.1, v.2, v.3, v.4, v.5, v.6)
        }
        typ::TIME => {
            let n = r.u8().ok_or_else(short)?;
            let mut v = (false, 0u32, 0u8, 0u8, 0u8, 0u32);
            if !matches!(n, 0 | 8 | 12) {
                return Err(format!("time with length {n}"));
            }
            if n >= 8 {
                v.0 = match r.u8().ok_or_else(short)? {
                    0 => false,
                    1 => true,
                    x => return Err(format!("time with sign byte {x}")),
                };
                v.1 = r.u32().ok_or_else(short)?;
                v.2 = r.u8().ok_or_else(short)?;
                v.3 = r.u8().ok_or_else(short)?;
                v.4 = r.u8().ok_or_else(short)?;
            }
            if n == 12 {
                v.5 = r.u32().ok_or_else(short)?;
            }
            PVal::Time(v.0, v.1, v.2, v.3, v.4, v.5)
        }
        typ::NULL => PVal::Null,
        typ::DECIMAL | typ::VARCHAR | typ::BIT | 245..=255 => PVal::Bytes(r.lenenc_bytes().ok_or_else(short)?.to_vec()),
        _ => return Err(format!("parameter of unknown type {t}")),
    })
}
