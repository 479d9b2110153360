//! Deterministic random numbers; every choice of the harness derives from VERIF_SEED.
#[derive(Clone, Debug)]
pub struct Rng {
    s: u64,
}

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(parts: &[u64]) -> Self {
        let mut s = 0x9E3779B97F4A7C15u64;
        for p in parts {
            s = mix(s ^ p.wrapping_mul(0x9E3779B97F4A7C15)).wrapping_add(0xD1B54A32D192ED03);
        }
        Self { s }
    }

    pub fn u64(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.s)
    }

    pub fn u32(&mut self) -> u32 {
        self.u64() as u32
    }

    pub fn u8(&mut self) -> u8 {
        self.u64() as u8
    }

    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.u64() % n
        }
    }

    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }

    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }

    pub fn coin(&mut self) -> bool {
        self.u64() & 1 == 1
    }

    pub fn pick<'a, T>(&mut self, list: &'a [T]) -> &'a T {
        &list[self.usize(list.len())]
    }

    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }

    /// Cheap non-repeating filler for big payloads.
    pub fn filler(&mut self, n: usize) -> Vec<u8> {
        self.bytes(n)
    }

    pub fn fork(&mut self) -> Rng {
        Rng::new(&[self.u64()])
    }

    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.usize(i + 1);
            v.swap(i, j);
        }
    }

    /// Any bit width equally likely, edges frequent.
    pub fn edgy(&mut self, bits: u32) -> u64 {
        let mask = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
        let v = match self.below(8) {
            0 => 0,
            1 => mask,
            2 => 1u64 << self.below(bits as u64),
            3 => (1u64 << self.below(bits as u64)).wrapping_sub(1),
            4 => mask >> 1,
            5 => (mask >> 1).wrapping_add(1),
            _ => {
                let w = self.range(1, bits as u64);
                self.u64() >> (64 - w)
            }
        };
        v & mask
    }

    pub fn ascii(&mut self, n: usize) -> String {
        (0..n).map(|_| (b'a' + self.below(26) as u8) as char).collect()
    }

    /// Any Unicode scalar, special characters frequent.
    pub fn any_char(&mut self) -> char {
        const SPECIAL: &[char] = &[
            '\0', '\u{1}', '\u{8}', '\t', '\n', '\r', '\u{1a}', '"', '\'', '\\', '`', ' ', '%', '_', '$', '#', '-', '/', '*',
            ';', '0', 'x', 'n', 'b', 'z', 'Z', 'N', 'é', 'ß', 'ä', '\u{a0}', '\u{7f}', '\u{80}', '\u{fff}', '\u{ffff}',
            '\u{10000}', '\u{10ffff}', '\u{2003}', '\u{3000}', '\u{feff}', '\u{d7ff}', '\u{e000}', '0', '\u{85}', '\u{2028}',
        ];
        match self.below(10) {
            0..=4 => *self.pick(SPECIAL),
            5..=7 => (self.range(0x20, 0x7e) as u8) as char,
            8 => char::from_u32(self.below(0x800) as u32).unwrap_or('a'),
            _ => loop {
                if let Some(c) = char::from_u32(self.below(0x110000) as u32) {
                    break c;
                }
            },
        }
    }

    pub fn text(&mut self, max: usize) -> String {
        let n = self.usize(max + 1);
        (0..n).map(|_| self.any_char()).collect()
    }
}
