//! An independent, strict HTTP/1 message reader: the reference against which
//! bytes written by hyper are judged.
use std::collections::BTreeMap;

pub type Hdrs = Vec<(String, Vec<u8>)>;
pub type HMap = BTreeMap<String, Vec<Vec<u8>>>;

pub fn hmap(h: &[(String, Vec<u8>)]) -> HMap {
    let mut m = HMap::new();
    for (n, v) in h {
        m.entry(n.to_ascii_lowercase()).or_default().push(v.clone());
    }
    m
}
pub fn hmap_http(h: &http::HeaderMap) -> HMap {
    let mut m = HMap::new();
    for (n, v) in h {
        m.entry(n.as_str().to_string()).or_default().push(v.as_bytes().to_vec());
    }
    m
}
pub fn to_http(h: &[(String, Vec<u8>)]) -> http::HeaderMap {
    let mut m = http::HeaderMap::new();
    for (n, v) in h {
        m.append(
            http::HeaderName::from_bytes(n.as_bytes()).unwrap(),
            http::HeaderValue::from_bytes(v).unwrap(),
        );
    }
    m
}
pub fn show_hmap(m: &HMap) -> String {
    let mut s = String::new();
    for (n, v) in m {
        for x in v {
            s.push_str(&format!("{n}: {}; ", crate::core::shorten(x)));
        }
    }
    s
}

#[derive(Clone, Debug, PartialEq)]
pub enum Framing {
    None,
    Len(u64),
    Chunked,
    Eof,
}

#[derive(Clone, Debug)]
pub struct Msg {
    /// start-line parts: (method, target, version) or (version, status, reason)
    pub start: [String; 3],
    pub hdrs: Hdrs,
    pub framing: Framing,
    pub body: Vec<u8>,
    pub trailers: Hdrs,
    pub head_done: bool,
    pub complete: bool,
    /// offset just after the head / after the message
    pub head_end: usize,
    pub end: usize,
    pub begin: usize,
    pub upgraded: bool,
}
impl Msg {
    fn new(begin: usize) -> Msg {
        Msg {
            start: Default::default(),
            hdrs: Vec::new(),
            framing: Framing::None,
            body: Vec::new(),
            trailers: Vec::new(),
            head_done: false,
            complete: false,
            head_end: begin,
            end: begin,
            begin,
            upgraded: false,
        }
    }
    pub fn status(&self) -> u16 {
        self.start[1].parse().unwrap_or(0)
    }
    pub fn get(&self, n: &str) -> Vec<&[u8]> {
        self.hdrs.iter().filter(|(k, _)| k.eq_ignore_ascii_case(n)).map(|(_, v)| &v[..]).collect()
    }
    pub fn has_token(&self, n: &str, tok: &str) -> bool {
        self.get(n).iter().any(|v| {
            v.split(|b| *b == b',').any(|t| {
                let t = String::from_utf8_lossy(t);
                t.trim().eq_ignore_ascii_case(tok)
            })
        })
    }
}

pub fn is_token(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b)
}
fn is_value(b: u8) -> bool {
    b == b'\t' || (b >= 0x20 && b != 0x7f)
}

fn line(buf: &[u8], pos: usize) -> Option<(&[u8], usize)> {
    let rest = &buf[pos.min(buf.len())..];
    let i = rest.windows(2).position(|w| w == b"\r\n")?;
    Some((&rest[..i], pos + i + 2))
}

fn field(l: &[u8]) -> Result<(String, Vec<u8>), String> {
    let c = l.iter().position(|b| *b == b':').ok_or_else(|| format!("field line without colon: {:?}", String::from_utf8_lossy(l)))?;
    let (n, v) = (&l[..c], &l[c + 1..]);
    if n.is_empty() || !n.iter().all(|b| is_token(*b)) {
        return Err(format!("bad field name {:?}", String::from_utf8_lossy(n)));
    }
    let mut v = v;
    while let [b' ' | b'\t', r @ ..] = v {
        v = r;
    }
    while let [r @ .., b' ' | b'\t'] = v {
        v = r;
    }
    if !v.iter().all(|b| is_value(*b)) {
        return Err(format!("bad field value {:?}", String::from_utf8_lossy(v)));
    }
    Ok((String::from_utf8(n.to_vec()).unwrap(), v.to_vec()))
}

/// Reads header or trailer lines up to the empty line.
fn fields(buf: &[u8], mut pos: usize, out: &mut Hdrs) -> Result<Option<usize>, String> {
    loop {
        match line(buf, pos) {
            None => return Ok(None),
            Some((l, next)) => {
                pos = next;
                if l.is_empty() {
                    return Ok(Some(pos));
                }
                if l.contains(&b'\n') || l.contains(&b'\r') {
                    return Err("bare CR or LF in a field line".into());
                }
                out.push(field(l)?);
            }
        }
    }
}

fn read_body(buf: &[u8], m: &mut Msg, eof: bool) -> Result<(), String> {
    let pos = m.head_end;
    match m.framing {
        Framing::None => {
            m.end = pos;
            m.complete = true;
        }
        Framing::Len(n) => {
            let have = (buf.len() - pos).min(n as usize);
            m.body = buf[pos..pos + have].to_vec();
            m.end = pos + have;
            m.complete = have as u64 == n;
        }
        Framing::Eof => {
            m.body = buf[pos..].to_vec();
            m.end = buf.len();
            m.complete = eof;
        }
        Framing::Chunked => {
            let mut p = pos;
            loop {
                m.end = p;
                let Some((l, next)) = line(buf, p) else {
                    if buf.len() - p > 18 {
                        return Err(format!("endless chunk size line {:?}", crate::core::shorten(&buf[p..])));
                    }
                    m.end = buf.len();
                    return Ok(());
                };
                if l.is_empty() || l.len() > 16 || !l.iter().all(|b| b.is_ascii_hexdigit()) {
                    return Err(format!("bad chunk size line {:?}", crate::core::shorten(l)));
                }
                let n = usize::from_str_radix(std::str::from_utf8(l).unwrap(), 16).map_err(|e| e.to_string())?;
                if n == 0 {
                    let mut t = Vec::new();
                    match fields(buf, next, &mut t)? {
                        Some(e) => {
                            m.trailers = t;
                            m.end = e;
                            m.complete = true;
                        }
                        None => m.end = buf.len(),
                    }
                    return Ok(());
                }
                let have = (buf.len() - next).min(n);
                m.body.extend_from_slice(&buf[next..next + have]);
                m.end = next + have;
                if have < n {
                    return Ok(());
                }
                let e = next + n;
                let crlf = &buf[e..(e + 2).min(buf.len())];
                if !b"\r\n".starts_with(crlf) {
                    return Err(format!("chunk data not followed by CRLF: {:?}", crate::core::shorten(crlf)));
                }
                if crlf.len() < 2 {
                    m.end = buf.len();
                    return Ok(());
                }
                p = e + 2;
            }
        }
    }
    Ok(())
}

fn framing_fields(m: &Msg, v11: bool) -> Result<Option<Framing>, String> {
    let cl = m.get("content-length");
    let te = m.get("transfer-encoding");
    if cl.len() > 1 {
        return Err("several content-length fields".into());
    }
    if !cl.is_empty() && !te.is_empty() {
        return Err("content-length with transfer-encoding".into());
    }
    if !te.is_empty() {
        if !v11 {
            return Err("transfer-encoding in HTTP/1.0".into());
        }
        let all: Vec<String> = te
            .iter()
            .flat_map(|v| String::from_utf8_lossy(v).split(',').map(|s| s.trim().to_ascii_lowercase()).collect::<Vec<_>>())
            .collect();
        if all.iter().filter(|x| *x == "chunked").count() != 1 || all.last().map(|s| s.as_str()) != Some("chunked") {
            return Err(format!("transfer-encoding is {all:?}"));
        }
        return Ok(Some(Framing::Chunked));
    }
    if let Some(v) = cl.first() {
        if v.is_empty() || !v.iter().all(|b| b.is_ascii_digit()) {
            return Err("bad content-length".into());
        }
        let n: u64 = std::str::from_utf8(v).unwrap().parse().map_err(|_| "content-length too big".to_string())?;
        return Ok(Some(Framing::Len(n)));
    }
    Ok(None)
}

fn start_line<'a>(buf: &'a [u8], m: &mut Msg) -> Result<Option<(&'a [u8], usize)>, String> {
    match line(buf, m.begin) {
        None => {
            m.end = buf.len();
            if buf.len() - m.begin > 80_000 {
                return Err("endless start line".into());
            }
            Ok(None)
        }
        Some((l, n)) => {
            if l.contains(&b'\n') || l.contains(&b'\r') {
                return Err("bare CR or LF in the start line".into());
            }
            Ok(Some((l, n)))
        }
    }
}

/// Reads one response at `pos`. `Ok(m)` with `complete == false` if bytes ran out.
pub fn parse_response(buf: &[u8], pos: usize, method: &str, eof: bool) -> Result<Msg, String> {
    let mut m = Msg::new(pos);
    let Some((l, n)) = start_line(buf, &mut m)? else {
        // even a partial start line must look like one
        let p = &buf[pos..];
        let pat = b"HTTP/1.";
        let k = p.len().min(pat.len());
        if p[..k] != pat[..k] {
            return Err(format!("not a status line: {:?}", crate::core::shorten(p)));
        }
        return Ok(m);
    };
    let s = l;
    if s.len() < 12 || !(s.starts_with(b"HTTP/1.1 ") || s.starts_with(b"HTTP/1.0 ")) {
        return Err(format!("not a status line: {:?}", crate::core::shorten(l)));
    }
    if !s[9..12].iter().all(|b| b.is_ascii_digit()) || (s.len() > 12 && s[12] != b' ') {
        return Err(format!("bad status line: {:?}", crate::core::shorten(l)));
    }
    m.start = [
        String::from_utf8_lossy(&s[..8]).into(),
        String::from_utf8_lossy(&s[9..12]).into(),
        String::from_utf8_lossy(s.get(13..).unwrap_or(b"")).into(),
    ];
    let mut h = Vec::new();
    let Some(e) = fields(buf, n, &mut h)? else {
        m.end = buf.len();
        return Ok(m);
    };
    m.hdrs = h;
    m.head_done = true;
    m.head_end = e;
    let st = m.status();
    let v11 = m.start[0] == "HTTP/1.1";
    let f = framing_fields(&m, v11)?;
    if st == 101 || (method == "CONNECT" && (200..300).contains(&st)) {
        m.upgraded = true;
        m.framing = Framing::None;
    } else if (100..200).contains(&st) || st == 204 || st == 304 || method == "HEAD" {
        if ((100..200).contains(&st) || st == 204) && f.is_some() {
            return Err(format!("{st} response with framing fields"));
        }
        m.framing = Framing::None;
    } else {
        m.framing = f.unwrap_or(Framing::Eof);
    }
    read_body(buf, &mut m, eof)?;
    Ok(m)
}

/// Reads one request at `pos`.
pub fn parse_request(buf: &[u8], pos: usize) -> Result<Msg, String> {
    let mut m = Msg::new(pos);
    let Some((l, n)) = start_line(buf, &mut m)? else {
        return Ok(m);
    };
    let s = String::from_utf8_lossy(l).to_string();
    let p: Vec<&str> = s.split(' ').collect();
    if p.len() != 3
        || p[0].is_empty()
        || !p[0].bytes().all(is_token)
        || p[1].is_empty()
        || !(p[2] == "HTTP/1.1" || p[2] == "HTTP/1.0")
    {
        return Err(format!("bad request line {:?}", crate::core::shorten(l)));
    }
    m.start = [p[0].into(), p[1].into(), p[2].into()];
    let mut h = Vec::new();
    let Some(e) = fields(buf, n, &mut h)? else {
        m.end = buf.len();
        return Ok(m);
    };
    m.hdrs = h;
    m.head_done = true;
    m.head_end = e;
    let f = framing_fields(&m, p[2] == "HTTP/1.1")?;
    m.framing = f.unwrap_or(Framing::None);
    read_body(buf, &mut m, false)?;
    Ok(m)
}
