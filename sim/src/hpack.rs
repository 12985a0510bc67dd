//! HPACK (RFC 7541): a reader of its own for what hyper and h2 write, and an
//! encoder whose representations are drawn, for raw peers.
use crate::core::*;
use std::collections::VecDeque;

pub type Field = (Vec<u8>, Vec<u8>);

const CODES: [u32; 256] = [
    0x1ff8, 0x7fffd8, 0xfffffe2, 0xfffffe3, 0xfffffe4, 0xfffffe5, 0xfffffe6, 0xfffffe7, 0xfffffe8, 0xffffea,
    0x3ffffffc, 0xfffffe9, 0xfffffea, 0x3ffffffd, 0xfffffeb, 0xfffffec, 0xfffffed, 0xfffffee, 0xfffffef,
    0xffffff0, 0xffffff1, 0xffffff2, 0x3ffffffe, 0xffffff3, 0xffffff4, 0xffffff5, 0xffffff6, 0xffffff7,
    0xffffff8, 0xffffff9, 0xffffffa, 0xffffffb, 0x14, 0x3f8, 0x3f9, 0xffa, 0x1ff9, 0x15, 0xf8, 0x7fa, 0x3fa,
    0x3fb, 0xf9, 0x7fb, 0xfa, 0x16, 0x17, 0x18, 0x0, 0x1, 0x2, 0x19, 0x1a, 0x1b, 0x1c, 0x1d, 0x1e, 0x1f, 0x5c,
    0xfb, 0x7ffc, 0x20, 0xffb, 0x3fc, 0x1ffa, 0x21, 0x5d, 0x5e, 0x5f, 0x60, 0x61, 0x62, 0x63, 0x64, 0x65,
    0x66, 0x67, 0x68, 0x69, 0x6a, 0x6b, 0x6c, 0x6d, 0x6e, 0x6f, 0x70, 0x71, 0x72, 0xfc, 0x73, 0xfd, 0x1ffb,
    0x7fff0, 0x1ffc, 0x3ffc, 0x22, 0x7ffd, 0x3, 0x23, 0x4, 0x24, 0x5, 0x25, 0x26, 0x27, 0x6, 0x74, 0x75, 0x28,
    0x29, 0x2a, 0x7, 0x2b, 0x76, 0x2c, 0x8, 0x9, 0x2d, 0x77, 0x78, 0x79, 0x7a, 0x7b, 0x7ffe, 0x7fc, 0x3ffd,
    0x1ffd, 0xffffffc, 0xfffe6, 0x3fffd2, 0xfffe7, 0xfffe8, 0x3fffd3, 0x3fffd4, 0x3fffd5, 0x7fffd9, 0x3fffd6,
    0x7fffda, 0x7fffdb, 0x7fffdc, 0x7fffdd, 0x7fffde, 0xffffeb, 0x7fffdf, 0xffffec, 0xffffed, 0x3fffd7,
    0x7fffe0, 0xffffee, 0x7fffe1, 0x7fffe2, 0x7fffe3, 0x7fffe4, 0x1fffdc, 0x3fffd8, 0x7fffe5, 0x3fffd9,
    0x7fffe6, 0x7fffe7, 0xffffef, 0x3fffda, 0x1fffdd, 0xfffe9, 0x3fffdb, 0x3fffdc, 0x7fffe8, 0x7fffe9,
    0x1fffde, 0x7fffea, 0x3fffdd, 0x3fffde, 0xfffff0, 0x1fffdf, 0x3fffdf, 0x7fffeb, 0x7fffec, 0x1fffe0,
    0x1fffe1, 0x3fffe0, 0x1fffe2, 0x7fffed, 0x3fffe1, 0x7fffee, 0x7fffef, 0xfffea, 0x3fffe2, 0x3fffe3,
    0x3fffe4, 0x7ffff0, 0x3fffe5, 0x3fffe6, 0x7ffff1, 0x3ffffe0, 0x3ffffe1, 0xfffeb, 0x7fff1, 0x3fffe7,
    0x7ffff2, 0x3fffe8, 0x1ffffec, 0x3ffffe2, 0x3ffffe3, 0x3ffffe4, 0x7ffffde, 0x7ffffdf, 0x3ffffe5, 0xfffff1,
    0x1ffffed, 0x7fff2, 0x1fffe3, 0x3ffffe6, 0x7ffffe0, 0x7ffffe1, 0x3ffffe7, 0x7ffffe2, 0xfffff2, 0x1fffe4,
    0x1fffe5, 0x3ffffe8, 0x3ffffe9, 0xffffffd, 0x7ffffe3, 0x7ffffe4, 0x7ffffe5, 0xfffec, 0xfffff3, 0xfffed,
    0x1fffe6, 0x3fffe9, 0x1fffe7, 0x1fffe8, 0x7ffff3, 0x3fffea, 0x3fffeb, 0x1ffffee, 0x1ffffef, 0xfffff4,
    0xfffff5, 0x3ffffea, 0x7ffff4, 0x3ffffeb, 0x7ffffe6, 0x3ffffec, 0x3ffffed, 0x7ffffe7, 0x7ffffe8,
    0x7ffffe9, 0x7ffffea, 0x7ffffeb, 0xffffffe, 0x7ffffec, 0x7ffffed, 0x7ffffee, 0x7ffffef, 0x7fffff0,
    0x3ffffee,
];
const LENS: [u8; 256] = [
    13, 23, 28, 28, 28, 28, 28, 28, 28, 24, 30, 28, 28, 30, 28, 28, 28, 28, 28, 28, 28, 28, 30, 28, 28, 28,
    28, 28, 28, 28, 28, 28, 6, 10, 10, 12, 13, 6, 8, 11, 10, 10, 8, 11, 8, 6, 6, 6, 5, 5, 5, 6, 6, 6, 6, 6, 6,
    6, 7, 8, 15, 6, 12, 10, 13, 6, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 8, 7, 8,
    13, 19, 13, 14, 6, 15, 5, 6, 5, 6, 5, 6, 6, 6, 5, 7, 7, 6, 6, 6, 5, 6, 7, 6, 5, 5, 6, 7, 7, 7, 7, 7, 15,
    11, 14, 13, 28, 20, 22, 20, 20, 22, 22, 22, 23, 22, 23, 23, 23, 23, 23, 24, 23, 24, 24, 22, 23, 24, 23,
    23, 23, 23, 21, 22, 23, 22, 23, 23, 24, 22, 21, 20, 22, 22, 23, 23, 21, 23, 22, 22, 24, 21, 22, 23, 23,
    21, 21, 22, 21, 23, 22, 23, 23, 20, 22, 22, 22, 23, 22, 22, 23, 26, 26, 20, 19, 22, 23, 22, 25, 26, 26,
    26, 27, 27, 26, 24, 25, 19, 21, 26, 27, 27, 26, 27, 24, 21, 21, 26, 26, 28, 27, 27, 27, 20, 24, 20, 21,
    22, 21, 21, 23, 22, 22, 25, 25, 24, 24, 26, 23, 26, 27, 26, 26, 27, 27, 27, 27, 27, 28, 27, 27, 27, 27,
    27, 26,
];
const STATIC: [(&str, &str); 61] = [
    (":authority", ""),
    (":method", "GET"),
    (":method", "POST"),
    (":path", "/"),
    (":path", "/index.html"),
    (":scheme", "http"),
    (":scheme", "https"),
    (":status", "200"),
    (":status", "204"),
    (":status", "206"),
    (":status", "304"),
    (":status", "400"),
    (":status", "404"),
    (":status", "500"),
    ("accept-charset", ""),
    ("accept-encoding", "gzip, deflate"),
    ("accept-language", ""),
    ("accept-ranges", ""),
    ("accept", ""),
    ("access-control-allow-origin", ""),
    ("age", ""),
    ("allow", ""),
    ("authorization", ""),
    ("cache-control", ""),
    ("content-disposition", ""),
    ("content-encoding", ""),
    ("content-language", ""),
    ("content-length", ""),
    ("content-location", ""),
    ("content-range", ""),
    ("content-type", ""),
    ("cookie", ""),
    ("date", ""),
    ("etag", ""),
    ("expect", ""),
    ("expires", ""),
    ("from", ""),
    ("host", ""),
    ("if-match", ""),
    ("if-modified-since", ""),
    ("if-none-match", ""),
    ("if-range", ""),
    ("if-unmodified-since", ""),
    ("last-modified", ""),
    ("link", ""),
    ("location", ""),
    ("max-forwards", ""),
    ("proxy-authenticate", ""),
    ("proxy-authorization", ""),
    ("range", ""),
    ("referer", ""),
    ("refresh", ""),
    ("retry-after", ""),
    ("server", ""),
    ("set-cookie", ""),
    ("strict-transport-security", ""),
    ("transfer-encoding", ""),
    ("user-agent", ""),
    ("vary", ""),
    ("via", ""),
    ("www-authenticate", ""),
];

fn tree() -> &'static Vec<[i32; 2]> {
    static T: std::sync::OnceLock<Vec<[i32; 2]>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        // >0: next node, <=0: -symbol, i32::MIN: none
        let mut t = vec![[i32::MIN; 2]];
        for s in 0..256 {
            let mut n = 0;
            for b in (0..LENS[s]).rev() {
                let bit = (CODES[s] >> b & 1) as usize;
                if b == 0 {
                    t[n][bit] = -(s as i32);
                } else {
                    if t[n][bit] == i32::MIN {
                        t.push([i32::MIN; 2]);
                        t[n][bit] = t.len() as i32 - 1;
                    }
                    n = t[n][bit] as usize;
                }
            }
        }
        t
    })
}
fn huff_decode(b: &[u8]) -> Result<Vec<u8>, String> {
    let t = tree();
    let mut out = Vec::new();
    let (mut n, mut depth, mut ones) = (0usize, 0, true);
    for byte in b {
        for k in (0..8).rev() {
            let bit = (byte >> k & 1) as usize;
            ones &= bit == 1;
            depth += 1;
            let x = t[n][bit];
            if x == i32::MIN {
                return Err("huffman code".into());
            }
            if x <= 0 {
                out.push((-x) as u8);
                n = 0;
                depth = 0;
                ones = true;
            } else {
                n = x as usize;
            }
        }
    }
    if depth > 7 || !ones {
        return Err("huffman padding".into());
    }
    Ok(out)
}
fn huff_encode(b: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let (mut acc, mut n) = (0u64, 0);
    for &x in b {
        acc = acc << LENS[x as usize] | CODES[x as usize] as u64;
        n += LENS[x as usize] as u32;
        while n >= 8 {
            n -= 8;
            out.push((acc >> n) as u8);
        }
        acc &= (1 << n) - 1;
    }
    if n > 0 {
        out.push((acc << (8 - n) | (0xff >> n)) as u8);
    }
    out
}

#[derive(Debug)]
pub struct Decoder {
    dynamic: VecDeque<Field>,
    size: usize,
    max: usize,
    /// what the reader announced
    pub limit: usize,
}
impl Decoder {
    pub fn new(limit: usize) -> Self {
        Decoder { dynamic: VecDeque::new(), size: 0, max: 4096, limit }
    }
    fn evict(&mut self) {
        while self.size > self.max {
            let (n, v) = self.dynamic.pop_back().unwrap();
            self.size -= n.len() + v.len() + 32;
        }
    }
    fn get(&self, i: usize) -> Result<Field, String> {
        match i {
            0 => Err("index 0".into()),
            1..=61 => Ok((STATIC[i - 1].0.as_bytes().to_vec(), STATIC[i - 1].1.as_bytes().to_vec())),
            _ => self.dynamic.get(i - 62).cloned().ok_or(format!("index {i} of {}", self.dynamic.len())),
        }
    }
    pub fn decode(&mut self, b: &[u8]) -> Result<Vec<Field>, String> {
        let mut p = 0;
        let mut out = Vec::new();
        while p < b.len() {
            let x = b[p];
            if x & 0x80 != 0 {
                let i = int(b, &mut p, 7)?;
                out.push(self.get(i)?);
            } else if x & 0xe0 == 0x20 {
                let n = int(b, &mut p, 5)?;
                if n > self.limit.max(4096) {
                    return Err(format!("table size {n}"));
                }
                self.max = n;
                self.evict();
            } else {
                let add = x & 0x40 != 0;
                let i = int(b, &mut p, if add { 6 } else { 4 })?;
                let name = if i == 0 { string(b, &mut p)? } else { self.get(i)?.0 };
                let value = string(b, &mut p)?;
                if add {
                    self.size += name.len() + value.len() + 32;
                    self.dynamic.push_front((name.clone(), value.clone()));
                    self.evict();
                }
                out.push((name, value));
            }
        }
        Ok(out)
    }
}
fn int(b: &[u8], p: &mut usize, bits: u32) -> Result<usize, String> {
    let m = (1usize << bits) - 1;
    let mut v = *b.get(*p).ok_or("short")? as usize & m;
    *p += 1;
    if v < m {
        return Ok(v);
    }
    let mut s = 0;
    loop {
        let x = *b.get(*p).ok_or("short")? as usize;
        *p += 1;
        if s > 28 {
            return Err("integer".into());
        }
        v += (x & 0x7f) << s;
        s += 7;
        if x & 0x80 == 0 {
            return Ok(v);
        }
    }
}
fn string(b: &[u8], p: &mut usize) -> Result<Vec<u8>, String> {
    let h = *b.get(*p).ok_or("short")? & 0x80 != 0;
    let n = int(b, p, 7)?;
    let s = b.get(*p..*p + n).ok_or("short string")?;
    *p += n;
    if h {
        huff_decode(s)
    } else {
        Ok(s.to_vec())
    }
}

/// Encodes with drawn representations (no dynamic table references).
#[derive(Debug)]
pub struct Encoder {
    started: bool,
    /// the table the reader allows
    pub max: usize,
}
impl Default for Encoder {
    fn default() -> Self {
        Encoder { started: false, max: 4096 }
    }
}
impl Encoder {
    pub fn encode(&mut self, fields: &[Field]) -> Vec<u8> {
        let mut out = Vec::new();
        if !self.started && wc(1, 6) {
            put_int(&mut out, 0x20, 5, wd(self.max.min(4096) as u32 + 1) as usize);
        }
        self.started = true;
        for (n, v) in fields {
            let full = STATIC.iter().position(|s| s.0.as_bytes() == n && s.1.as_bytes() == v && !v.is_empty());
            let name = STATIC.iter().position(|s| s.0.as_bytes() == n);
            match (full, name) {
                (Some(i), _) if !wc(1, 4) => {
                    put_int(&mut out, 0x80, 7, i + 1);
                    continue;
                }
                (_, name) => {
                    let (first, bits) = pick(&[(0x00, 4), (0x10, 4), (0x40, 6)]);
                    match name {
                        Some(i) if !wc(1, 4) => put_int(&mut out, first, bits, i + 1),
                        _ => {
                            put_int(&mut out, first, bits, 0);
                            put_str(&mut out, n);
                        }
                    }
                    put_str(&mut out, v);
                }
            }
        }
        out
    }
}
fn put_int(out: &mut Vec<u8>, first: u8, bits: u32, mut v: usize) {
    let m = (1usize << bits) - 1;
    if v < m {
        out.push(first | v as u8);
        return;
    }
    out.push(first | m as u8);
    v -= m;
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}
fn put_str(out: &mut Vec<u8>, s: &[u8]) {
    if wc(1, 3) {
        let h = huff_encode(s);
        put_int(out, 0x80, 7, h.len());
        out.extend(h);
    } else {
        put_int(out, 0, 7, s.len());
        out.extend_from_slice(s);
    }
}
/// The reader and the encoder agree with each other.
pub fn selftest() -> Result<(), String> {
    let all: Vec<u8> = (0..=255).collect();
    if huff_decode(&huff_encode(&all))? != all {
        return Err("huffman".into());
    }
    // RFC 7541 C.4.1
    let b = [0x82, 0x86, 0x84, 0x41, 0x8c, 0xf1, 0xe3, 0xc2, 0xe5, 0xf2, 0x3a, 0x6b, 0xa0, 0xab, 0x90, 0xf4, 0xff];
    let got = Decoder::new(4096).decode(&b)?;
    if got[3] != (b":authority".to_vec(), b"www.example.com".to_vec()) {
        return Err(format!("C.4.1: {got:?}"));
    }
    Ok(())
}
