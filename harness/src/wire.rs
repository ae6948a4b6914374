//! Writers for the replay wire format: bits, bytes, text, CRC.

/// Little endian bit writer (first bit written is the lowest bit of byte 0).
#[derive(Clone, Default, Debug, PartialEq)]
pub struct BitW {
    pub bytes: Vec<u8>,
    pub len: usize,
    /// Texts may be written with a size that no text has.
    pub spoil: bool,
}

impl BitW {
    pub fn new() -> BitW {
        BitW::default()
    }
    pub fn bit(&mut self, b: bool) {
        if self.len % 8 == 0 {
            self.bytes.push(0);
        }
        if b {
            *self.bytes.last_mut().unwrap() |= 1 << (self.len % 8);
        }
        self.len += 1;
    }
    pub fn bits(&mut self, v: u64, n: u32) {
        for i in 0..n {
            self.bit(v >> i & 1 == 1);
        }
    }
    pub fn u8(&mut self, v: u8) {
        self.bits(u64::from(v), 8);
    }
    pub fn u32(&mut self, v: u32) {
        self.bits(u64::from(v), 32);
    }
    pub fn i32(&mut self, v: i32) {
        self.u32(v as u32);
    }
    pub fn f32(&mut self, v: f32) {
        self.u32(v.to_bits());
    }
    pub fn u64(&mut self, v: u64) {
        self.bits(v, 64);
    }
    pub fn raw(&mut self, b: &[u8]) {
        for &x in b {
            self.u8(x);
        }
    }
    /// Unreal's SerializeInt: `v` in `0..max`.
    pub fn int_max(&mut self, v: u64, max: u64) {
        let mut acc = 0u64;
        let mut mask = 1u64;
        while acc + mask < max {
            let b = v & mask != 0;
            self.bit(b);
            if b {
                acc |= mask;
            }
            mask <<= 1;
        }
        debug_assert_eq!(acc, v, "value {v} not encodable below {max}");
    }
    pub fn append(&mut self, o: &BitW) {
        if self.len % 8 == 0 {
            self.bytes.extend_from_slice(&o.bytes);
            self.len += o.len;
            return;
        }
        for i in 0..o.len {
            self.bit(o.get(i));
        }
    }
    pub fn get(&self, i: usize) -> bool {
        self.bytes[i / 8] >> (i % 8) & 1 == 1
    }
}

/// Width in bits of a value written by `int_max`.
pub fn int_max_width(v: u64, max: u64) -> usize {
    let mut acc = 0u64;
    let mut mask = 1u64;
    let mut n = 0;
    while acc + mask < max {
        acc |= v & mask;
        mask <<= 1;
        n += 1;
    }
    n
}

/// CRC-32 exactly as documented by boxcars: poly 0x04c11db7, init 0xefcbf201
/// (fed inverted and byte swapped), not reflected, final xor 0xffffffff --
/// computed one bit at a time.
pub fn crc_ref(data: &[u8]) -> u32 {
    let mut crc: u32 = !0xefcb_f201;
    for &b in data {
        crc ^= u32::from(b) << 24;
        for _ in 0..8 {
            crc = if crc & 0x8000_0000 != 0 { (crc << 1) ^ 0x04c1_1db7 } else { crc << 1 };
        }
    }
    !crc
}

/// The Unicode value of each windows-1252 byte 0x80..=0x9f (WHATWG index).
const W1252: [u16; 32] = [
    0x20ac, 0x81, 0x201a, 0x192, 0x201e, 0x2026, 0x2020, 0x2021, 0x2c6, 0x2030, 0x160, 0x2039, 0x152, 0x8d,
    0x17d, 0x8f, 0x90, 0x2018, 0x2019, 0x201c, 0x201d, 0x2022, 0x2013, 0x2014, 0x2dc, 0x2122, 0x161, 0x203a,
    0x153, 0x9d, 0x17e, 0x178,
];

pub fn w1252_char(b: u8) -> char {
    if (0x80..0xa0).contains(&b) {
        char::from_u32(u32::from(W1252[(b - 0x80) as usize])).unwrap()
    } else {
        b as char
    }
}

pub fn w1252_byte(c: char) -> Option<u8> {
    (0..=255u8).find(|&b| w1252_char(b) == c)
}

pub fn dec_w1252(b: &[u8]) -> String {
    b.iter().map(|&x| w1252_char(x)).collect()
}

/// UTF-16 with lone surrogates replaced by U+FFFD.
pub fn dec_utf16(units: &[u16]) -> String {
    let mut s = String::new();
    let mut i = 0;
    while i < units.len() {
        let u = units[i];
        i += 1;
        if (0xd800..0xdc00).contains(&u) {
            if let Some(&l) = units.get(i) {
                if (0xdc00..0xe000).contains(&l) {
                    i += 1;
                    let c = 0x10000 + ((u32::from(u) - 0xd800) << 10) + (u32::from(l) - 0xdc00);
                    s.push(char::from_u32(c).unwrap());
                    continue;
                }
            }
            s.push('\u{fffd}');
        } else if (0xdc00..0xe000).contains(&u) {
            s.push('\u{fffd}');
        } else {
            s.push(char::from_u32(u32::from(u)).unwrap());
        }
    }
    s
}

pub fn units_of(b: &[u8]) -> Vec<u16> {
    b.chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect()
}

/// A text as it stands on the wire, with the string it must decode to.
#[derive(Clone, Debug, PartialEq)]
pub struct Text {
    pub size: i32,
    pub raw: Vec<u8>,
    pub value: String,
}

impl Text {
    /// One byte per character; `term` is the final byte, which is dropped.
    pub fn latin(body: &[u8], term: u8) -> Text {
        let mut raw = body.to_vec();
        raw.push(term);
        Text { size: raw.len() as i32, raw, value: dec_w1252(body) }
    }
    pub fn utf16(body: &[u16], term: u16) -> Text {
        let mut raw: Vec<u8> = body.iter().flat_map(|u| u.to_le_bytes()).collect();
        raw.extend_from_slice(&term.to_le_bytes());
        Text { size: -((body.len() + 1) as i32), raw, value: dec_utf16(body) }
    }
    pub fn empty() -> Text {
        Text { size: 0, raw: Vec::new(), value: String::new() }
    }
    pub fn plain(s: &str) -> Text {
        let b: Option<Vec<u8>> = s.chars().map(w1252_byte).collect();
        match b {
            Some(b) => Text::latin(&b, 0),
            None => Text::utf16(&s.encode_utf16().collect::<Vec<_>>(), 0),
        }
    }
    pub fn put(&self, out: &mut Vec<u8>) {
        out.extend_from_slice(&self.size.to_le_bytes());
        out.extend_from_slice(&self.raw);
    }
    pub fn put_bits(&self, w: &mut BitW) {
        w.i32(self.size);
        w.raw(&self.raw);
    }
}

/// A length prefixed UTF-8 string (used for property keys, kinds, classes).
pub fn put_str(out: &mut Vec<u8>, s: &str) {
    out.extend_from_slice(&(s.len() as i32 + 1).to_le_bytes());
    out.extend_from_slice(s.as_bytes());
    out.push(0);
}

pub fn put_i32(out: &mut Vec<u8>, v: i32) {
    out.extend_from_slice(&v.to_le_bytes());
}

pub fn put_u32(out: &mut Vec<u8>, v: u32) {
    out.extend_from_slice(&v.to_le_bytes());
}
