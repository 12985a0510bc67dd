//! Workload generators shared by the families.
use crate::body::*;
use crate::core::*;
use crate::h1ref::Hdrs;
use bytes::Bytes;

/// Deterministic body content: recognisable per message and position.
pub fn content(id: u32, len: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(len);
    // a smuggling attempt in some bodies
    if id % 3 == 2 {
        v.extend_from_slice(format!("GET /smuggled{id} HTTP/1.1\r\n\r\nHTTP/1.1 299 smuggled\r\n\r\n0\r\n\r\n").as_bytes());
    }
    let mut x = (id as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    while v.len() < len {
        x = crate::choice::mix(x, v.len() as u64);
        let a = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_";
        for k in 0..8 {
            v.push(a[(x >> (k * 6)) as usize & 63]);
        }
    }
    v.truncate(len);
    v
}

pub fn body_len() -> usize {
    match ww(&[4, 4, 3, 2, 1]) {
        0 => 0,
        1 => wr(1, 16) as usize,
        2 => wr(1, 300) as usize,
        3 => wr(200, 5000) as usize,
        _ => wr(4000, 60_000) as usize,
    }
}

/// Splits data into outgoing body steps of sizable chunks.
pub fn big_steps(data: &[u8]) -> Vec<Step> {
    let mut out = Vec::new();
    let top = pick(&[300u32, 5_000, 20_000, 60_000]);
    let slow = wc(1, 3);
    let mut i = 0;
    while i < data.len() {
        let k = (wr(1, top) as usize).min(data.len() - i);
        let k = if out.len() > 400 { data.len() - i } else { k };
        if slow && wc(1, 4) {
            out.push(if wc(1, 2) { Step::Yield } else { Step::Pend(wr(1, 2000) as u64 * 1000) });
        }
        out.push(Step::Data(Bytes::copy_from_slice(&data[i..i + k]), if wc(1, 4) { wr(2, 5) as usize } else { 1 }));
        i += k;
    }
    out
}

/// Splits data into outgoing body steps.
pub fn body_steps(data: &[u8], slow: bool) -> Vec<Step> {
    let mut out = Vec::new();
    let mut i = 0;
    let mode = ww(&[4, 2, 3, 2]);
    let mut n = 0;
    while i < data.len() {
        let left = data.len() - i;
        let k = match mode {
            0 => left,
            1 => (wr(1, 8) as usize).min(left),
            2 => (wr(1, 1000) as usize).min(left),
            _ => left.div_ceil(2),
        };
        n += 1;
        let k = if n > 40 { left } else { k };
        if slow || mode == 3 {
            match ww(&[5, 2, 2]) {
                1 => out.push(Step::Yield),
                2 => out.push(Step::Pend(wr(1, 2000) as u64 * 1000)),
                _ => {}
            }
        }
        if wc(1, 12) {
            out.push(Step::Data(Bytes::new(), 1));
        }
        out.push(Step::Data(Bytes::copy_from_slice(&data[i..i + k]), if wc(1, 4) { wr(2, 5) as usize } else { 1 }));
        i += k;
    }
    if wc(1, 10) {
        out.push(Step::Data(Bytes::new(), 1));
    }
    if wc(1, 8) {
        out.push(if wc(1, 2) { Step::Yield } else { Step::Pend(wr(1, 2000) as u64 * 1000) });
    }
    out
}

pub fn header_value() -> Vec<u8> {
    match ww(&[5, 2, 1, 1, 1]) {
        0 => {
            let n = wr(1, 20) as usize;
            content(wd(1000) * 3, n)
        }
        1 => b"a, b;q=0.5, \"c d\"".to_vec(),
        2 => Vec::new(),
        3 => b"caf\xc3\xa9 \xff\x80 x".to_vec(),
        _ => {
            let n = wr(50, 900) as usize;
            content(wd(1000) * 3, n)
        }
    }
}
pub fn header_value_ascii() -> Vec<u8> {
    let n = wr(1, 30) as usize;
    content(wd(1000) * 3, n)
}

/// Header fields with no meaning for framing.
pub fn plain_headers(max: u32) -> Hdrs {
    let names = ["accept", "x-a", "x-b", "cookie", "user-agent", "x-long-header-name-for-tests", "a", "set-cookie", "cache-control", "x-a"];
    let n = wd(max + 1);
    (0..n).map(|_| (pick(&names).to_string(), header_value())).collect()
}

/// Case changes that must not matter.
pub fn vary_case(n: &str) -> String {
    match ww(&[3, 1, 1]) {
        0 => n.to_string(),
        1 => n.to_ascii_uppercase(),
        _ => {
            let mut up = true;
            n.chars()
                .map(|c| {
                    let r = if up { c.to_ascii_uppercase() } else { c };
                    up = c == '-';
                    r
                })
                .collect()
        }
    }
}

pub fn write_fields(out: &mut Vec<u8>, h: &Hdrs, vary: bool) {
    for (n, v) in h {
        let name = if vary { vary_case(n) } else { n.clone() };
        out.extend_from_slice(name.as_bytes());
        out.push(b':');
        match if vary { ww(&[5, 1, 1, 1]) } else { 0 } {
            0 => out.push(b' '),
            1 => {}
            2 => out.extend_from_slice(b"  \t"),
            _ => out.push(b'\t'),
        }
        out.extend_from_slice(v);
        if vary && wc(1, 10) {
            out.extend_from_slice(b" ");
        }
        out.extend_from_slice(b"\r\n");
    }
}

/// What a lenient parser was asked to put up with.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Lenient {
    pub fold: bool,
    pub space: bool,
    pub skip: bool,
    /// several spaces in the request line
    pub gaps: bool,
}
impl Lenient {
    pub fn any(&self) -> bool {
        *self != Lenient::default()
    }
    pub fn gap(&self) -> &'static str {
        if self.gaps { pick(&[" ", " ", "  ", "     "]) } else { " " }
    }
}
/// Fields written as sloppily as the other side was told to accept.
pub fn write_lenient(out: &mut Vec<u8>, h: &Hdrs, l: Lenient) {
    if !l.any() {
        return write_fields(out, h, true);
    }
    let junk = |out: &mut Vec<u8>| {
        if l.skip && wc(1, 4) {
            count("invalid_lines");
            out.extend_from_slice(pick(&[&b"no colon here\r\n"[..], b"bad name: x\r\n", b"x-ctl: a\x01b\r\n", b"(x): y\r\n", b"connec tion: close\r\n", b"content-length\x7f: 3\r\n", b"@: \r\n"]));
        }
    };
    junk(out);
    for (n, v) in h {
        out.extend_from_slice(vary_case(n).as_bytes());
        if l.space && wc(1, 3) {
            count("spaces_before_colons");
            out.extend_from_slice(pick(&[&b" "[..], b"  ", b"\t"]));
        }
        out.push(b':');
        let mut fold = || {
            count("folds");
            pick(&[&b"\r\n "[..], b" \r\n\t", b"\r\n  \t ", b"\t\r\n ", b"\n "])
        };
        out.extend_from_slice(if l.fold && !v.is_empty() && wc(1, 10) { fold() } else { pick(&[&b" "[..], b"", b"\t "]) });
        let k = v.len();
        for (i, b) in v.iter().enumerate() {
            if *b == b' ' && i > 0 && i + 1 < k && v[i - 1] != b' ' && v[i + 1] != b' ' && l.fold && wc(1, 2) {
                out.extend_from_slice(fold());
            } else {
                out.push(*b);
            }
        }
        if l.fold && !v.is_empty() && wc(1, 12) {
            // folded, with nothing after it
            out.extend_from_slice(b"\r\n ");
        }
        out.extend_from_slice(b"\r\n");
        junk(out);
    }
}

/// Chunked encoding by a peer that varies everything it may vary.
pub fn write_chunked(out: &mut Vec<u8>, body: &[u8], trailers: &Hdrs) {
    let mut i = 0;
    let mode = ww(&[3, 2, 2]);
    let mut n = 0;
    while i < body.len() {
        let left = body.len() - i;
        n += 1;
        let k = match mode {
            _ if n > 60 => left,
            0 => left,
            1 => (wr(1, 7) as usize).min(left),
            _ => (wr(1, 2000) as usize).min(left),
        };
        write_chunk_size(out, k);
        out.extend_from_slice(b"\r\n");
        out.extend_from_slice(&body[i..i + k]);
        out.extend_from_slice(b"\r\n");
        i += k;
    }
    match ww(&[5, 1, 1]) {
        0 => out.extend_from_slice(b"0\r\n"),
        1 => out.extend_from_slice(b"000\r\n"),
        _ => out.extend_from_slice(b"0;last=1\r\n"),
    }
    write_fields(out, trailers, true);
    out.extend_from_slice(b"\r\n");
}
fn write_chunk_size(out: &mut Vec<u8>, k: usize) {
    let s = match ww(&[5, 1, 1]) {
        0 => format!("{k:x}"),
        1 => format!("{k:X}"),
        _ => format!("{k:06x}"),
    };
    out.extend_from_slice(s.as_bytes());
    match ww(&[8, 1, 1]) {
        1 => out.extend_from_slice(b";ext=val;q=\"x\""),
        2 => out.extend_from_slice(b" "),
        _ => {}
    }
}

/// Now and then the number before this one: the same name once more.
pub fn again(k: u32) -> u32 {
    if k > 0 && wc(1, 4) {
        k - 1
    } else {
        k
    }
}

/// A chunked body carrying `b` whose framing goes wrong in one byte.
pub fn spoiled_chunks(b: &[u8]) -> (&'static str, Vec<u8>) {
    let mut v = format!("{:x}\r\n", b.len()).into_bytes();
    v.extend_from_slice(b);
    let (name, pre, not, post): (&'static str, &[u8], &[u8], &[u8]) = match wd(7) {
        0 => ("byte-after-size", b"\r\n5", b"0123456789abcdefABCDEF\t ;\r", b"\nabcde\r\n0\r\n\r\n"),
        1 => ("byte-after-size-cr", b"\r\n5\r", b"\n", b"abcde\r\n0\r\n\r\n"),
        2 => ("byte-after-data", b"", b"\r", b"\n0\r\n\r\n"),
        3 => ("byte-after-data-cr", b"\r", b"\n", b"0\r\n\r\n"),
        4 => ("byte-after-ext-cr", b"\r\n5;x=y\r", b"\n", b"abcde\r\n0\r\n\r\n"),
        5 => ("byte-after-last-cr", b"\r\n0\r", b"\n", b"\r\n"),
        _ => ("byte-after-end-cr", b"\r\n0\r\n\r", b"\n", b""),
    };
    v.extend_from_slice(pre);
    let mut x = if wc(1, 2) { pick(b"\r\n0a;X \t:\0\xff-") } else { wd(256) as u8 };
    while not.contains(&x) {
        x = x.wrapping_add(1);
    }
    v.push(x);
    v.extend_from_slice(post);
    (name, v)
}
