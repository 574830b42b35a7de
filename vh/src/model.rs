//! The reference model of the server: what each request has to be answered with.

use crate::proto::{self, LockSpec, Part, Resp};
use crate::store::{user_name, Store};
use std::collections::BTreeMap;
use vcore::{ensure, sha256, violation, Check, B};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Upload,
    Download,
}

impl Op {
    pub fn name(self) -> &'static str {
        match self {
            Op::Upload => "upload",
            Op::Download => "download",
        }
    }
}

/// A request, in terms of what the model has to know about it.
#[derive(Clone, Debug)]
pub enum Req {
    Version,
    /// Well-formed as far as framing and arguments go, unless `refuse` is set.
    Put {
        oid: B,
        size: B,
        data: B,
        /// Sizes of the data packets; the last one is used repeatedly.
        chunks: Vec<usize>,
        extra: Vec<B>,
    },
    Get(String),
    Verify(String, u64),
    Batch(Vec<(String, u64)>, Vec<(String, String)>),
    Lock(B),
    Unlock(String),
    /// List all locks, up to the limit.
    List(Option<u64>),
    Lookup(B),
    /// Has to be refused in either operation.
    Bad(&'static str, Vec<Part>),
    Quit,
}

impl Req {
    pub fn parts(&self) -> Vec<Part> {
        match self {
            Req::Version => proto::version(),
            Req::Put {
                oid,
                size,
                data,
                chunks,
                extra,
            } => {
                let mut c = b"put-object ".to_vec();
                c.extend_from_slice(oid);
                c.push(b'\n');
                let mut v = vec![Part::Data(B(c))];
                v.push(proto::arg("size", size));
                for e in extra {
                    v.push(Part::Data(e.clone()));
                }
                v.push(Part::Delim);
                v.extend(split(data, chunks).into_iter().map(Part::Data));
                v.push(Part::Flush);
                v
            }
            Req::Get(oid) => proto::get(oid),
            Req::Verify(oid, size) => proto::verify(oid, *size),
            Req::Batch(items, args) => {
                let args: Vec<(&str, &str)> =
                    args.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
                proto::batch(items, &args)
            }
            Req::Lock(path) => proto::lock(path),
            Req::Unlock(id) => proto::unlock(id.as_bytes()),
            Req::List(None) => proto::list(&[]),
            Req::List(Some(l)) => proto::list(&[("limit", l.to_string().as_bytes())]),
            Req::Lookup(path) => proto::list(&[("path", path)]),
            Req::Bad(_, p) => p.clone(),
            Req::Quit => proto::quit(),
        }
    }

    pub fn kind(&self) -> &'static str {
        match self {
            Req::Version => "version",
            Req::Put { .. } => "put",
            Req::Get(_) => "get",
            Req::Verify(..) => "verify",
            Req::Batch(..) => "batch",
            Req::Lock(_) => "lock",
            Req::Unlock(_) => "unlock",
            Req::List(_) => "list",
            Req::Lookup(_) => "lookup",
            Req::Bad(w, _) => w,
            Req::Quit => "quit",
        }
    }

    /// A correct upload.
    pub fn put(data: &[u8], chunks: &[usize]) -> Req {
        Req::Put {
            oid: sha256::hex(data).into(),
            size: data.len().to_string().into(),
            data: data.into(),
            chunks: chunks.to_vec(),
            extra: vec![],
        }
    }

    pub fn list() -> Req {
        Req::List(None)
    }

    pub fn mutator(&self) -> bool {
        matches!(self, Req::Put { .. } | Req::Lock(_) | Req::Unlock(_))
    }
}

pub fn encode_all(reqs: &[Req]) -> Vec<u8> {
    let mut v = vec![];
    for r in reqs {
        v.extend(proto::encode(&r.parts()));
    }
    v
}

pub fn split(data: &[u8], chunks: &[usize]) -> Vec<B> {
    let mut v = vec![];
    let mut i = 0;
    let mut n = 0;
    // Chunk sizes of zero are empty packets, but not forever.
    let mut zeros = 0;
    loop {
        let mut c = match chunks.get(n).or_else(|| chunks.last()) {
            Some(&c) => c.min(65516),
            None => 65516,
        };
        if c == 0 {
            zeros += 1;
            if zeros > 4 {
                c = 65516;
            }
        }
        n += 1;
        if i >= data.len() {
            if n <= chunks.len() && c == 0 {
                v.push(B(vec![]));
                continue;
            }
            break;
        }
        let e = (i + c).min(data.len());
        v.push(data[i..e].into());
        i = e;
    }
    v
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Held {
    pub path: B,
    pub uid: u32,
    /// As reported when it was created.
    pub time: String,
}

/// The longest path which fits into a packet of a listing.
pub const LONGEST: usize = 65445;

/// Who asks, and when.
#[derive(Clone, Copy, Debug)]
pub struct Who {
    pub op: Op,
    pub uid: u32,
    /// The earliest and latest time a lock created now may have.
    pub clock: (i64, i64),
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Model {
    pub objects: BTreeMap<String, B>,
    pub locks: BTreeMap<String, Held>,
    /// IDs of locks whose own record is damaged, so that they can be neither granted nor released.
    pub damaged: Vec<String>,
}

pub fn valid_put(oid: &[u8], size: &[u8], data: &[u8]) -> bool {
    proto::is_oid(oid)
        && size == data.len().to_string().as_bytes()
        && sha256::hex(data).as_bytes() == oid
}

impl Model {
    /// Check the response to a request, and carry the request out in the model.
    pub fn step(&mut self, who: &Who, req: &Req, resp: &Resp) -> Check {
        let r = self.step1(who, req, resp);
        if let Err(vcore::Stop::Violation(v)) = r {
            let q = format!("{:?}", req);
            violation!(
                "{}; request: {} ({})",
                v,
                &q[..q.len().min(600)],
                who.op.name()
            );
        }
        r
    }

    fn step1(&mut self, who: &Who, req: &Req, resp: &Resp) -> Check {
        let upload = who.op == Op::Upload;
        let allowed = match req {
            Req::Put { .. } | Req::Verify(..) | Req::Lock(_) | Req::Unlock(_) => upload,
            Req::Get(_) => !upload,
            _ => true,
        };
        if !allowed {
            return refused(resp, "a request not allowed in this operation");
        }
        match req {
            Req::Version | Req::Quit => success(resp, 200, "a valid request"),
            Req::Bad(what, _) => refused(resp, what),
            Req::Put {
                oid, size, data, ..
            } => {
                if valid_put(oid, size, data) {
                    success(resp, 200, "a valid upload")?;
                    ensure!(
                        resp.args.is_empty() && resp.content().is_empty(),
                        "upload answered with {}",
                        resp.brief()
                    );
                    self.objects
                        .insert(String::from_utf8_lossy(oid).into_owned(), data.clone());
                    Ok(())
                } else {
                    refused(resp, "an invalid upload")
                }
            }
            Req::Get(oid) => match self.objects.get(oid) {
                None => {
                    ensure!(
                        resp.status == 404,
                        "download of a missing object answered with {}",
                        resp.brief()
                    );
                    Ok(())
                }
                Some(d) => {
                    success(resp, 200, "the download of a stored object")?;
                    let args = args(resp)?;
                    ensure!(
                        args.get("size") == Some(&B(d.len().to_string().into_bytes())),
                        "download of an object of {} bytes answered with {}",
                        d.len(),
                        resp.brief()
                    );
                    let c = resp.content();
                    ensure!(
                        resp.body.is_some() && &c == &d.0,
                        "download of {:?} returned {:?}",
                        d,
                        B(c)
                    );
                    Ok(())
                }
            },
            Req::Verify(oid, size) => {
                let want = match self.objects.get(oid) {
                    None => 404,
                    Some(d) if d.len() as u64 == *size => 200,
                    Some(_) => 409,
                };
                ensure!(
                    resp.status == want,
                    "verify of {} answered with {} instead of {}",
                    match self.objects.get(oid) {
                        None => "a missing object".to_string(),
                        Some(d) => format!("an object of {} bytes", d.len()),
                    },
                    resp.brief(),
                    want
                );
                Ok(())
            }
            Req::Batch(items, _) => {
                success(resp, 200, "a valid batch request")?;
                let want: Vec<B> = items
                    .iter()
                    .map(|(oid, size)| {
                        let s = match (self.objects.get(oid), upload) {
                            (Some(d), true) => format!("{} {} noop\n", oid, d.len()),
                            (Some(d), false) => format!("{} {} download\n", oid, d.len()),
                            (None, true) => format!("{} {} upload\n", oid, size),
                            (None, false) => format!("{} {} noop\n", oid, size),
                        };
                        B(s.into_bytes())
                    })
                    .collect();
                let got = resp.body.clone().unwrap_or_default();
                let first = got.iter().zip(&want).position(|(a, b)| a != b);
                ensure!(
                    want.len() <= 100 || got == want,
                    "batch of {} objects answered with {} lines; the first which is wrong: {:?}",
                    want.len(),
                    got.len(),
                    first.map(|i| (i, &got[i], &want[i]))
                );
                ensure!(
                    got == want,
                    "batch answered with {:?} instead of {:?}",
                    got,
                    want
                );
                Ok(())
            }
            Req::Lock(path) => {
                let id = proto::lock_id(path);
                if path.len() > LONGEST {
                    return refused(resp, "locking a path too long for listings");
                }
                if self.damaged.contains(&id) {
                    return refused(resp, "locking a path whose record is damaged");
                }
                if let Some(h) = self.locks.get(&id) {
                    ensure!(
                        resp.status == 409,
                        "locking a locked path answered with {}",
                        resp.brief()
                    );
                    return h.check_args(resp);
                }
                success(resp, 201, "locking an unlocked path")?;
                let a = args(resp)?;
                let time = a
                    .get("locked-at")
                    .map(|t| String::from_utf8_lossy(t).into_owned());
                let time = match time {
                    Some(t) => t,
                    None => violation!("no time for a lock: {}", resp.brief()),
                };
                ensure!(
                    in_range(&time, who.clock),
                    "locked at {:?}, but the time is from {} to {}",
                    time,
                    proto::rfc3339(who.clock.0),
                    proto::rfc3339(who.clock.1)
                );
                let h = Held {
                    path: path.clone(),
                    uid: who.uid,
                    time,
                };
                h.check_args(resp)?;
                self.locks.insert(id, h);
                Ok(())
            }
            Req::Unlock(id) => {
                if self.damaged.contains(id) {
                    return refused(resp, "releasing a lock whose record is damaged");
                }
                match self.locks.get(id) {
                    None => refused(resp, "releasing a lock which is not held"),
                    Some(h) => {
                        success(resp, 200, "releasing a lock")?;
                        h.check_args(resp)?;
                        self.locks.remove(id);
                        Ok(())
                    }
                }
            }
            Req::List(limit) => {
                success(resp, 200, "listing the locks")?;
                let limit = limit.unwrap_or(100).min(100) as usize;
                let specs = specs(resp)?;
                let n = self.locks.len().min(limit);
                let mut got: Vec<&String> = specs.iter().map(|s| &s.id).collect();
                got.sort();
                got.dedup();
                ensure!(
                    got.len() == specs.len(),
                    "a lock is listed twice: {}",
                    resp.brief()
                );
                let unexpected = got.iter().find(|id| !self.locks.contains_key(**id));
                ensure!(
                    unexpected.is_none(),
                    "a lock which is not held is listed: {:?}",
                    unexpected
                );
                if got.len() != n {
                    let missing: Vec<_> = self
                        .locks
                        .iter()
                        .filter(|(id, _)| !got.contains(id))
                        .map(|(_, h)| h)
                        .take(3)
                        .collect();
                    violation!(
                        "listed {} locks of {}, with a limit of {}; missing for example {:?}",
                        got.len(),
                        self.locks.len(),
                        limit,
                        missing
                    );
                }
                for s in &specs {
                    self.locks[&s.id].check_spec(s, who)?;
                }
                let next = args(resp)?.get("next-cursor").cloned();
                ensure!(
                    next.is_some() == (self.locks.len() > limit),
                    "listed {} locks of {}, but the cursor is {:?}",
                    n,
                    self.locks.len(),
                    next
                );
                Ok(())
            }
            Req::Lookup(path) => {
                let id = proto::lock_id(path);
                match self.locks.get(&id) {
                    None => {
                        if resp.ok() {
                            let s = specs(resp)?;
                            ensure!(
                                s.is_empty(),
                                "looking up a path which is not locked found {:?}",
                                s
                            );
                        } else {
                            ensure!(
                                resp.status == 404 || self.damaged.contains(&id),
                                "looking up a path which is not locked answered with {}",
                                resp.brief()
                            );
                        }
                        Ok(())
                    }
                    Some(h) => {
                        success(resp, 200, "looking up a locked path")?;
                        let s = specs(resp)?;
                        ensure!(
                            s.len() == 1 && s[0].id == id,
                            "looking up a locked path found {:?}",
                            s
                        );
                        h.check_spec(&s[0], who)
                    }
                }
            }
        }
    }

    /// Check all responses of a session.
    pub fn session(&mut self, who: &Who, reqs: &[Req], resps: &[Resp]) -> Check {
        for (i, (q, r)) in reqs.iter().zip(resps).enumerate() {
            if let Err(vcore::Stop::Violation(v)) = self.step(who, q, r) {
                violation!("request {}: {}", i, v);
            }
        }
        Ok(())
    }

    /// Carry out a request without looking at any response.
    pub fn apply(&mut self, who: &Who, req: &Req) {
        if who.op != Op::Upload {
            return;
        }
        match req {
            Req::Put {
                oid, size, data, ..
            } if valid_put(oid, size, data) => {
                self.objects
                    .insert(String::from_utf8_lossy(oid).into_owned(), data.clone());
            }
            Req::Lock(path) if path.len() <= LONGEST => {
                self.locks
                    .entry(proto::lock_id(path))
                    .or_insert_with(|| Held {
                        path: path.clone(),
                        uid: who.uid,
                        time: proto::rfc3339(who.clock.0),
                    });
            }
            Req::Unlock(id) => {
                self.locks.remove(id);
            }
            _ => (),
        }
    }

    /// The store has to contain exactly what the model does.
    pub fn check_store(&self, s: &Store, strict_others: bool) -> Check {
        if let Some(e) = s.corrupt_object() {
            violation!("{}", e);
        }
        for (oid, d) in &self.objects {
            match s.objects.get(oid) {
                None => violation!("object {} is missing from the store", oid),
                Some(x) => ensure!(x == d, "object {} contains {:?}", oid, x),
            }
        }
        for (oid, d) in &s.objects {
            ensure!(
                self.objects.contains_key(oid),
                "object {} ({:?}) is in the store, but should not be",
                oid,
                d
            );
        }
        for (id, h) in &self.locks {
            match s.locks.get(id) {
                None => violation!("the record of the lock on {:?} is missing", h.path),
                Some((t, p)) => ensure!(
                    p == &h.path && proto::rfc3339(*t) == h.time,
                    "the record of the lock on {:?} at {} says {:?} at {}",
                    h.path,
                    h.time,
                    p,
                    proto::rfc3339(*t)
                ),
            }
        }
        for (id, (_, p)) in &s.locks {
            ensure!(
                self.locks.contains_key(id),
                "there is a record for a lock on {:?}, which is not held",
                p
            );
        }
        if strict_others && !s.others.is_empty() {
            violation!("files left behind: {}", s.others_list());
        }
        Ok(())
    }
}

impl Held {
    pub fn check_args(&self, resp: &Resp) -> Check {
        let a = args(resp)?;
        let s = |k: &str| a.get(k).map(|b| String::from_utf8_lossy(b).into_owned());
        ensure!(
            s("id") == Some(proto::lock_id(&self.path))
                && a.get("path") == Some(&self.path)
                && s("locked-at").as_ref() == Some(&self.time)
                && (anonymous() || s("ownername") == Some(user_name(self.uid))),
            "a lock on {:?} by {} at {} is described as {:?}",
            self.path,
            user_name(self.uid),
            self.time,
            resp.args
        );
        Ok(())
    }

    pub fn check_spec(&self, s: &LockSpec, who: &Who) -> Check {
        let owner = match who.op {
            Op::Download => None,
            Op::Upload => Some(
                if user_name(self.uid) == user_name(who.uid) {
                    "ours"
                } else {
                    "theirs"
                }
                .to_string(),
            ),
        };
        ensure!(
            s.path == self.path
                && s.locked_at == self.time
                && (anonymous()
                    || s.ownername == user_name(self.uid) && s.owner == owner)
                && s.owner.is_some() == owner.is_some(),
            "a lock on {:?} by {} at {} is listed for {} as {:?}",
            self.path,
            user_name(self.uid),
            self.time,
            user_name(who.uid),
            s
        );
        Ok(())
    }
}

thread_local! {
    static ANONYMOUS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Whether names of owners are ignored because looking them up may have failed.
fn anonymous() -> bool {
    ANONYMOUS.with(|a| a.get())
}

pub fn set_anonymous(v: bool) {
    ANONYMOUS.with(|a| a.set(v));
}

pub fn in_range(time: &str, clock: (i64, i64)) -> bool {
    match parse_rfc3339(time) {
        Some(t) => clock.0 <= t && t <= clock.1,
        None => false,
    }
}

/// Only the form the server uses.
pub fn parse_rfc3339(s: &str) -> Option<i64> {
    let b = s.as_bytes();
    if b.len() != 25 || &s[19..] != "+00:00" || b[4] != b'-' || b[7] != b'-' || b[10] != b'T' {
        return None;
    }
    let n = |r: std::ops::Range<usize>| s.get(r).and_then(|x| x.parse::<i64>().ok());
    let (y, m, d) = (n(0..4)?, n(5..7)?, n(8..10)?);
    let (hh, mm, ss) = (n(11..13)?, n(14..16)?, n(17..19)?);
    // Days from the civil date.
    let y2 = if m <= 2 { y - 1 } else { y };
    let era = y2.div_euclid(400);
    let yoe = y2.rem_euclid(400);
    let mp = (m + 9) % 12;
    let doy = (153 * mp + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    let t = (era * 146097 + doe - 719468) * 86400 + hh * 3600 + mm * 60 + ss;
    if proto::rfc3339(t) == s {
        Some(t)
    } else {
        None
    }
}

pub fn args(resp: &Resp) -> Check<BTreeMap<String, B>> {
    match resp.args() {
        Ok(m) => Ok(m
            .into_iter()
            .map(|(k, v)| (String::from_utf8_lossy(&k).into_owned(), B(v)))
            .collect()),
        Err(e) => violation!("{}", e),
    }
}

pub fn specs(resp: &Resp) -> Check<Vec<LockSpec>> {
    match proto::parse_locks(resp.body.as_ref().unwrap_or(&vec![])) {
        Ok(v) => Ok(v),
        Err(e) => violation!("{}", e),
    }
}

pub fn refused(resp: &Resp, what: &str) -> Check {
    ensure!(
        resp.refused(),
        "not refused ({}): answered with {}",
        what,
        resp.brief()
    );
    Ok(())
}

pub fn success(resp: &Resp, code: u32, what: &str) -> Check {
    ensure!(
        resp.status == code,
        "{} answered with {} instead of {}",
        what,
        resp.brief(),
        code
    );
    Ok(())
}

#[cfg(test)]
mod tests {
    #[test]
    fn times() {
        for t in [0, 1609459199, 951782400, -1, 253402300799, -62135596800] {
            let s = crate::proto::rfc3339(t);
            assert_eq!(super::parse_rfc3339(&s), Some(t));
        }
    }
}
