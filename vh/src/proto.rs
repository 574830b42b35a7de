//! The protocol: requests, responses, and well-formedness.

use std::collections::BTreeMap;
use vcore::B;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Part {
    Data(B),
    Delim,
    Flush,
}

pub fn data<T: Into<B>>(d: T) -> Part {
    Part::Data(d.into())
}

pub fn encode_part(p: &Part, out: &mut Vec<u8>) {
    match p {
        Part::Flush => out.extend_from_slice(b"0000"),
        Part::Delim => out.extend_from_slice(b"0001"),
        Part::Data(d) => {
            assert!(d.len() <= 65516);
            out.extend_from_slice(format!("{:04x}", d.len() + 4).as_bytes());
            out.extend_from_slice(d);
        }
    }
}

pub fn encode(parts: &[Part]) -> Vec<u8> {
    let mut v = vec![];
    for p in parts {
        encode_part(p, &mut v);
    }
    v
}

/// A strict parser; returns the packets, the offset of each one's end, and whether what follows is
/// malformed (as opposed to incomplete).
pub fn decode(wire: &[u8]) -> (Vec<(Part, usize)>, bool) {
    let mut v = vec![];
    let mut i = 0;
    while wire.len() - i >= 4 {
        let mut len = 0usize;
        for &c in &wire[i..i + 4] {
            let d = match c {
                b'0'..=b'9' => c - b'0',
                b'a'..=b'f' => c - b'a' + 10,
                _ => return (v, true),
            };
            len = len * 16 + d as usize;
        }
        match len {
            0 | 1 => {
                i += 4;
                v.push((if len == 0 { Part::Flush } else { Part::Delim }, i));
            }
            n if n < 4 || n > 65520 => return (v, true),
            n => {
                if wire.len() - i < n {
                    break;
                }
                let d = Part::Data(wire[i + 4..i + n].into());
                i += n;
                v.push((d, i));
            }
        }
    }
    (v, false)
}

/// One response.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Resp {
    pub status: u32,
    pub args: Vec<B>,
    /// The packets after the delimiter, if there is one.
    pub body: Option<Vec<B>>,
    /// Where it ends in the output.
    pub end: usize,
}

impl Resp {
    pub fn ok(&self) -> bool {
        (200..300).contains(&self.status)
    }
    pub fn refused(&self) -> bool {
        (400..600).contains(&self.status)
    }
    pub fn content(&self) -> Vec<u8> {
        let mut v = vec![];
        for p in self.body.iter().flatten() {
            v.extend_from_slice(p);
        }
        v
    }
    /// The arguments by name.
    pub fn args(&self) -> Result<BTreeMap<Vec<u8>, Vec<u8>>, String> {
        let mut m = BTreeMap::new();
        for a in &self.args {
            let eq = match a.iter().position(|&c| c == b'=') {
                Some(e) => e,
                None => return Err(format!("argument without equals sign: {:?}", a)),
            };
            if a.last() != Some(&b'\n') {
                return Err(format!("argument without newline: {:?}", a));
            }
            if m.insert(a[..eq].to_vec(), a[eq + 1..a.len() - 1].to_vec())
                .is_some()
            {
                return Err(format!("duplicate argument: {:?}", a));
            }
        }
        Ok(m)
    }
    pub fn brief(&self) -> String {
        format!(
            "status {} args {:?} body {}",
            self.status,
            self.args,
            match &self.body {
                None => "none".into(),
                Some(b) => {
                    let all = self.content();
                    if all.len() > 300 {
                        format!("{} packets with {} bytes", b.len(), all.len())
                    } else {
                        format!("{:?}", b)
                    }
                }
            }
        )
    }
}

/// Everything a server wrote.
#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Output {
    pub greeting: bool,
    pub resps: Vec<Resp>,
    /// What follows the last complete response.
    pub rest: usize,
}

/// Parse the output; an error means that it is malformed, rather than merely incomplete.
pub fn parse_output(out: &[u8]) -> Result<Output, String> {
    let (parts, malformed) = decode(out);
    if malformed {
        let at = parts.last().map_or(0, |p| p.1);
        return Err(format!(
            "malformed packet at offset {} of the output: {:?}",
            at,
            B(out[at..out.len().min(at + 40)].to_vec())
        ));
    }
    let mut o = Output::default();
    let mut i = 0;
    let mut end = 0;
    // The greeting: capabilities up to a flush.
    let mut caps = vec![];
    while i < parts.len() {
        match &parts[i].0 {
            Part::Data(d) => caps.push(d.clone()),
            Part::Flush => {
                o.greeting = true;
                end = parts[i].1;
                i += 1;
                break;
            }
            Part::Delim => return Err("delimiter in the greeting".into()),
        }
        i += 1;
    }
    if !o.greeting {
        o.rest = out.len();
        return Ok(o);
    }
    if !caps.iter().any(|c| c.0 == b"version=1\n") {
        return Err(format!("the greeting does not offer version 1: {:?}", caps));
    }
    for c in &caps {
        if c.last() != Some(&b'\n') || c.len() < 2 {
            return Err(format!("malformed capability {:?}", c));
        }
    }
    while i < parts.len() {
        let status = match &parts[i].0 {
            Part::Data(d) => match parse_status(d) {
                Some(s) => s,
                None => return Err(format!("not a status: {:?}", d)),
            },
            p => return Err(format!("{:?} instead of a status", p)),
        };
        i += 1;
        let mut r = Resp {
            status,
            args: vec![],
            body: None,
            end: 0,
        };
        let mut complete = false;
        while i < parts.len() {
            match &parts[i].0 {
                Part::Data(d) => match &mut r.body {
                    Some(b) => b.push(d.clone()),
                    None => r.args.push(d.clone()),
                },
                Part::Delim => {
                    if r.body.is_some() {
                        return Err("two delimiters in a response".into());
                    }
                    r.body = Some(vec![]);
                }
                Part::Flush => {
                    complete = true;
                    end = parts[i].1;
                    i += 1;
                    break;
                }
            }
            i += 1;
        }
        // Arguments have to be well-formed even if the response is incomplete.
        r.args()?;
        if complete {
            r.end = end;
            o.resps.push(r);
        }
    }
    o.rest = out.len() - end;
    Ok(o)
}

fn parse_status(d: &[u8]) -> Option<u32> {
    let s = std::str::from_utf8(d).ok()?;
    let s = s.strip_prefix("status ")?.strip_suffix('\n')?;
    if s.len() == 3 && s.bytes().all(|b| b.is_ascii_digit()) {
        let v = s.parse().ok()?;
        if (100..600).contains(&v) {
            return Some(v);
        }
    }
    None
}

// ---------------------------------------------------------------------------------------------
// Requests

pub fn line(s: &str) -> Part {
    data(format!("{}\n", s))
}

pub fn arg(k: &str, v: &[u8]) -> Part {
    let mut b = k.as_bytes().to_vec();
    b.push(b'=');
    b.extend_from_slice(v);
    b.push(b'\n');
    Part::Data(B(b))
}

pub fn version() -> Vec<Part> {
    vec![line("version 1"), Part::Flush]
}

pub fn put(oid: &str, size: u64, chunks: &[B]) -> Vec<Part> {
    let mut v = vec![
        line(&format!("put-object {}", oid)),
        arg("size", size.to_string().as_bytes()),
        Part::Delim,
    ];
    v.extend(chunks.iter().map(|c| Part::Data(c.clone())));
    v.push(Part::Flush);
    v
}

pub fn chunked(content: &[u8], size: usize) -> Vec<B> {
    content.chunks(size.max(1)).map(|c| c.into()).collect()
}

pub fn put_simple(content: &[u8]) -> Vec<Part> {
    put(
        &vcore::sha256::hex(content),
        content.len() as u64,
        &chunked(content, 65516),
    )
}

pub fn get(oid: &str) -> Vec<Part> {
    vec![line(&format!("get-object {}", oid)), Part::Flush]
}

pub fn verify(oid: &str, size: u64) -> Vec<Part> {
    vec![
        line(&format!("verify-object {}", oid)),
        arg("size", size.to_string().as_bytes()),
        Part::Flush,
    ]
}

pub fn batch(items: &[(String, u64)], args: &[(&str, &str)]) -> Vec<Part> {
    let mut v = vec![line("batch")];
    for (k, x) in args {
        v.push(arg(k, x.as_bytes()));
    }
    v.push(Part::Delim);
    for (oid, size) in items {
        v.push(line(&format!("{} {}", oid, size)));
    }
    v.push(Part::Flush);
    v
}

pub fn lock(path: &[u8]) -> Vec<Part> {
    vec![
        line("lock"),
        arg("path", path),
        arg("refname", b"refs/heads/main"),
        Part::Flush,
    ]
}

pub fn unlock(id: &[u8]) -> Vec<Part> {
    let mut c = b"unlock ".to_vec();
    c.extend_from_slice(id);
    c.push(b'\n');
    vec![Part::Data(B(c)), Part::Flush]
}

pub fn list(args: &[(&str, &[u8])]) -> Vec<Part> {
    let mut v = vec![line("list-lock")];
    for (k, x) in args {
        v.push(arg(k, x));
    }
    v.push(Part::Flush);
    v
}

pub fn quit() -> Vec<Part> {
    vec![line("quit"), Part::Flush]
}

pub fn lock_id(path: &[u8]) -> String {
    let mut v = b"v1:".to_vec();
    v.extend_from_slice(path);
    vcore::sha256::hex(&v)
}

pub fn is_oid(b: &[u8]) -> bool {
    b.len() == 64
        && b.iter()
            .all(|c| c.is_ascii_digit() || (b'a'..=b'f').contains(c))
}

/// A lock as it appears in a listing.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct LockSpec {
    pub id: String,
    pub path: B,
    pub locked_at: String,
    pub ownername: String,
    pub owner: Option<String>,
}

/// Parse the body of a response to list-lock.
pub fn parse_locks(body: &[B]) -> Result<Vec<LockSpec>, String> {
    let mut v: Vec<LockSpec> = vec![];
    let mut seen: Vec<&'static str> = vec![];
    for l in body {
        let bad = || format!("malformed line in list of locks: {:?}", l);
        if l.last() != Some(&b'\n') {
            return Err(bad());
        }
        let l2 = &l[..l.len() - 1];
        let mut it = l2.splitn(3, |&c| c == b' ');
        let key = it.next().unwrap_or(b"");
        let id = it.next().ok_or_else(bad)?;
        let rest = it.next();
        if !is_oid(id) {
            return Err(format!("malformed lock ID in list of locks: {:?}", l));
        }
        let id = String::from_utf8_lossy(id).into_owned();
        if key == b"lock" {
            if rest.is_some() {
                return Err(bad());
            }
            v.push(LockSpec {
                id,
                path: B(vec![]),
                locked_at: String::new(),
                ownername: String::new(),
                owner: None,
            });
            seen.clear();
            continue;
        }
        let cur = v.last_mut().ok_or_else(bad)?;
        if cur.id != id {
            return Err(format!("line about another lock: {:?}", l));
        }
        let rest = rest.ok_or_else(bad)?;
        let text = || String::from_utf8(rest.to_vec()).map_err(|_| bad());
        let name = match key {
            b"path" => {
                cur.path = rest.into();
                "path"
            }
            b"locked-at" => {
                cur.locked_at = text()?;
                "locked-at"
            }
            b"ownername" => {
                cur.ownername = text()?;
                "ownername"
            }
            b"owner" => {
                cur.owner = Some(text()?);
                "owner"
            }
            _ => return Err(bad()),
        };
        if seen.contains(&name) {
            return Err(format!("duplicate line in list of locks: {:?}", l));
        }
        seen.push(name);
    }
    Ok(v)
}

/// The time in the form used by the protocol.
pub fn rfc3339(t: i64) -> String {
    let days = t.div_euclid(86400);
    let secs = t.rem_euclid(86400);
    // Days to a civil date.
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + if m <= 2 { 1 } else { 0 };
    format!(
        "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}+00:00",
        y,
        m,
        d,
        secs / 3600,
        secs / 60 % 60,
        secs % 60
    )
}

#[cfg(test)]
mod tests {
    #[test]
    fn times() {
        assert_eq!(super::rfc3339(0), "1970-01-01T00:00:00+00:00");
        assert_eq!(super::rfc3339(1609459199), "2020-12-31T23:59:59+00:00");
        assert_eq!(super::rfc3339(951782400), "2000-02-29T00:00:00+00:00");
        assert_eq!(super::rfc3339(-1), "1969-12-31T23:59:59+00:00");
    }
}
