//! P30: the protocol processor of the library, checked in-process with a mock backend.  P32 is in `helpers`.
//!
//! The transport never delivers bytes of two requests in one read, so the request which was
//! delivered from last is the one a call of the backend belongs to.

mod helpers;

use bytes::Bytes;
use scutiger_core::errors::{Error, ErrorKind};
use scutiger_lfs::backend::{Backend, Lock, LockBackend};
use scutiger_lfs::processor::{BatchItem, Mode, Oid, PktLineHandler, Processor, Status};
use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{self, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use vcore::{ensure, sha256, violation, Cfg, Check, Outcome, Prop, Src, Stop, B};

// ---------------------------------------------------------------------------------------------
// Errors a backend may return.

const KINDS: &[(ErrorKind, u32)] = &[
    (ErrorKind::IOError, 500),
    (ErrorKind::NoSuchRevision, 500),
    (ErrorKind::Conflict, 500),
    (ErrorKind::GitError, 500),
    (ErrorKind::PCREError, 500),
    (ErrorKind::BadPktlineHeader, 400),
    (ErrorKind::InvalidPacket, 400),
    (ErrorKind::UnexpectedPacket, 400),
    (ErrorKind::InvalidLFSOid, 400),
    (ErrorKind::InvalidInteger, 400),
    (ErrorKind::ParseError, 500),
    (ErrorKind::UnknownCommand, 400),
    (ErrorKind::MissingData, 400),
    (ErrorKind::ExtraData, 400),
    (ErrorKind::CorruptData, 400),
    (ErrorKind::NotAllowed, 400),
    (ErrorKind::InvalidPath, 500),
    (ErrorKind::DowncastError, 500),
];

const IO_KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::Other,
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::Interrupted,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::InvalidData,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::WriteZero,
];

#[derive(Debug, Clone)]
enum E {
    /// An error of this kind, with a message or without.
    Kind(usize, bool),
    /// An I/O error.
    Io(io::ErrorKind),
}

impl E {
    fn gen(s: &mut Src) -> E {
        if s.chance(1, 2) {
            E::Kind(s.usize(0, KINDS.len() - 1), s.chance(1, 2))
        } else {
            E::Io(*s.pick(IO_KINDS))
        }
    }
    fn gen_not_conflict(s: &mut Src) -> E {
        match E::gen(s) {
            E::Kind(i, _) if KINDS[i].0 == ErrorKind::Conflict => E::Kind(0, true),
            e => e,
        }
    }
    fn conflict() -> E {
        let i = KINDS.iter().position(|k| k.0 == ErrorKind::Conflict);
        E::Kind(i.unwrap(), false)
    }
    fn make(&self) -> Error {
        match self {
            E::Kind(i, true) => Error::from_message(KINDS[*i].0, "some\nmessage"),
            E::Kind(i, false) => Error::new_simple(KINDS[*i].0),
            E::Io(k) => io::Error::from(*k).into(),
        }
    }
    fn code(&self) -> u32 {
        match self {
            E::Kind(i, _) => KINDS[*i].1,
            E::Io(_) => 500,
        }
    }
    fn is(&self, k: io::ErrorKind) -> bool {
        matches!(self, E::Io(x) if *x == k)
    }
    fn is_conflict(&self) -> bool {
        matches!(self, E::Kind(i, _) if KINDS[*i].0 == ErrorKind::Conflict)
    }
}

type Res<T> = Result<T, E>;

fn made<T>(r: Res<T>) -> Result<T, Error> {
    r.map_err(|e| e.make())
}

fn gen_res<T>(s: &mut Src, ok: impl FnOnce(&mut Src) -> T) -> Res<T> {
    if s.chance(1, 3) {
        Err(E::gen(s))
    } else {
        Ok(ok(s))
    }
}

// ---------------------------------------------------------------------------------------------
// Cases.

/// What a backend does with an upload before it reads on buffer by buffer.
#[derive(Debug, Clone)]
enum First {
    Nothing,
    /// Fill a buffer exactly, which is no larger than the upload is.
    Exact(usize),
    /// Read several buffers at once.
    Vectored(Vec<usize>),
    /// Read or copy all there is.
    ToEnd,
    Copy,
    Bytes(usize),
}

/// How a backend reads an upload.
#[derive(Debug, Clone)]
struct Upload {
    /// The sizes of its buffers, repeated; an empty buffer gets no data, which is not the end.
    reads: Vec<usize>,
    /// How it begins.
    first: First,
    /// Stop before the end, once this much has been read.
    stop: Option<usize>,
    /// Go on as if nothing were wrong when reading fails.
    careless: bool,
    /// Read on at the end.
    again: Vec<usize>,
    start: Res<()>,
    finish: Res<()>,
}

#[derive(Debug, Clone)]
enum Verified {
    Success,
    Messages(Vec<Vec<u8>>),
    Args(u32, Vec<Vec<u8>>),
    Both(u32, Vec<Vec<u8>>, Vec<Vec<u8>>),
    Failure(u32, Vec<u8>),
    FailureArgs(u32, Vec<Vec<u8>>, Vec<u8>),
    Reader(Vec<Vec<u8>>, Content),
    Collected(Vec<Vec<u8>>),
}

/// What a reader returned by a backend does.
#[derive(Debug, Clone)]
struct Content {
    data: B,
    /// How much each read returns at most, repeated; zero means an interruption.
    reads: Vec<usize>,
    /// Fail after so many bytes.
    fail: Option<(usize, io::ErrorKind)>,
}

#[derive(Debug, Clone)]
struct MLock {
    id: String,
    path: Vec<u8>,
    time: String,
    owner: String,
    /// Why its lines cannot be formatted, if so.
    spec: Res<()>,
    unlock: Res<()>,
}

#[derive(Debug, Clone)]
enum Kind {
    Version,
    /// No command there is, or no command at all.
    Unknown(u64),
    Batch {
        oids: Vec<(String, u64)>,
        algo: Option<bool>,
        ret: Res<Vec<(String, u64, bool)>>,
    },
    Put {
        oid: String,
        size: u64,
        data: Vec<B>,
        up: Upload,
        /// Whether there is rubbish instead of the flush packet.
        rubbish: bool,
    },
    Verify {
        oid: String,
        ret: Res<Verified>,
    },
    Get {
        oid: String,
        ret: Res<(Content, Option<u64>)>,
    },
    Lock {
        path: Vec<u8>,
        refname: bool,
        create: Vec<Res<MLock>>,
        from_path: Vec<Res<Option<MLock>>>,
    },
    List {
        limit: Option<usize>,
        cursor: Option<String>,
        path: Option<Vec<u8>>,
        items: Vec<Res<MLock>>,
        from_path: Res<Option<MLock>>,
    },
    Unlock {
        id: Vec<u8>,
        from_id: Res<Option<MLock>>,
    },
    Quit,
}

#[derive(Debug, Clone)]
struct Req {
    kind: Kind,
    /// Further arguments.
    args: Vec<(String, Vec<u8>)>,
}

#[derive(Debug)]
struct Case {
    upload: bool,
    reqs: Vec<Req>,
    /// How many bytes of the last request are missing.
    cut: Option<usize>,
    /// How reading fails at the end, if it does, instead of ending.
    input: Option<io::ErrorKind>,
    /// In which part of the output (in 65536ths), how, and whether only once, writing fails in
    /// another run.
    output: Option<(usize, io::ErrorKind, bool)>,
    /// How much each read and write transfers at most, repeated; zero means an interruption.
    transport: Vec<usize>,
}

fn gen_sizes(s: &mut Src, zero: bool) -> Vec<usize> {
    match s.weighted(&[3, 2, 3]) {
        0 => vec![],
        1 => vec![s.usize(1, 9)],
        _ => {
            let n = s.usize(1, 5);
            let mut v: Vec<usize> = (0..n)
                .map(|_| match s.weighted(&[4, 2, 1]) {
                    0 => 1 + s.size(60),
                    1 => 1 + s.size(70000),
                    _ => usize::from(!zero),
                })
                .collect();
            if v.iter().all(|&x| x == 0) {
                v.push(1);
            }
            v
        }
    }
}

fn gen_oid(s: &mut Src) -> String {
    if s.chance(1, 12) {
        let good = sha256::hex(&s.blob(3));
        return match s.below(4) {
            0 => good.to_uppercase(),
            1 => good[1..].to_string(),
            2 => good + "0",
            _ => format!("{}g", &good[1..]),
        };
    }
    some_oid(s)
}

/// Often one of a few.
fn some_oid(s: &mut Src) -> String {
    let n = s.size(1 << 20) as u64;
    sha256::hex(&n.to_le_bytes())
}

fn whole(data: &[B]) -> Vec<u8> {
    data.iter().flat_map(|d| d.iter().copied()).collect()
}

fn valid_oid(oid: &str) -> bool {
    oid.len() == 64 && oid.bytes().all(|b| matches!(b, b'0'..=b'9' | b'a'..=b'f'))
}

/// The line which lists the path of a lock has to fit into a packet.
const MAX_LOCK_PATH: usize = 65516 - "path  \n".len() - 64;

fn gen_text(s: &mut Src) -> Vec<u8> {
    let n = s.size(20);
    let mut v: Vec<u8> = (0..n)
        .map(|_| *s.pick(b"a= \xffz/.\x01b\xc3"))
        .collect();
    v.push(b'x');
    v
}

fn gen_lines(s: &mut Src) -> Vec<Vec<u8>> {
    let n = s.size(4);
    (0..n)
        .map(|_| {
            let mut v = gen_text(s);
            if s.chance(1, 30) {
                v.extend(s.blob(40000));
            }
            v.push(b'\n');
            v
        })
        .collect()
}

fn gen_content(s: &mut Src) -> Content {
    let len = if s.chance(1, 8) { s.size(200_000) } else { s.size(300) };
    let data = s.blob(len);
    let fail = if s.chance(1, 12) {
        let at = match s.below(3) {
            0 => 0,
            1 => len,
            _ => s.usize(0, len),
        };
        Some((
            at,
            *s.pick(&[
                io::ErrorKind::Other,
                io::ErrorKind::UnexpectedEof,
                io::ErrorKind::NotFound,
                io::ErrorKind::PermissionDenied,
                io::ErrorKind::BrokenPipe,
                io::ErrorKind::InvalidData,
            ]),
        ))
    } else {
        None
    };
    Content {
        data: data.into(),
        reads: gen_sizes(s, true),
        fail,
    }
}

fn gen_lock(s: &mut Src) -> MLock {
    MLock {
        id: sha256::hex(&s.blob(2)),
        path: gen_text(s),
        time: format!("2024-01-0{}T00:00:00Z", s.usize(1, 9)),
        owner: s.pick(&["me", "you", "some one", ""]).to_string(),
        spec: if s.chance(1, 40) { Err(E::gen(s)) } else { Ok(()) },
        unlock: gen_res(s, |_| ()),
    }
}

fn gen_opt_lock(s: &mut Src) -> Res<Option<MLock>> {
    match s.weighted(&[4, 2, 2]) {
        0 => Ok(Some(gen_lock(s))),
        1 => Ok(None),
        _ => Err(E::gen(s)),
    }
}

fn gen_req(s: &mut Src, upload: bool) -> Req {
    // Mostly what the operation allows.
    let weights: [u64; 9] = if upload {
        [1, 1, 2, 9, 4, 1, 5, 4, 4]
    } else {
        [1, 1, 3, 1, 1, 8, 1, 4, 1]
    };
    let kind = match s.weighted(&weights) {
        0 => Kind::Version,
        1 => Kind::Unknown(s.below(6)),
        2 => {
            let n = s.size(12);
            let m = s.size(12);
            Kind::Batch {
                oids: (0..n).map(|_| (gen_oid(s), s.size(1 << 40) as u64)).collect(),
                algo: if s.chance(1, 3) { Some(!s.chance(1, 4)) } else { None },
                ret: gen_res(s, |s| {
                    (0..m)
                        .map(|_| (some_oid(s), s.size(1 << 40) as u64, s.chance(1, 2)))
                        .collect()
                }),
            }
        }
        3 => {
            let n = s.size(5);
            let data: Vec<B> = (0..n)
                .map(|_| {
                    let len = match s.weighted(&[8, 2, 1, 1]) {
                        0 => s.size(50),
                        1 => s.size(65516),
                        2 => 65516 - s.size(3),
                        _ => 0,
                    };
                    s.blob(len).into()
                })
                .collect();
            let all = whole(&data);
            let oid = match s.weighted(&[6, 1, 1]) {
                0 => sha256::hex(&all),
                1 => sha256::hex(&all[..s.usize(0, all.len())]),
                _ => gen_oid(s),
            };
            let size = match s.weighted(&[6, 1, 1]) {
                0 => all.len() as u64,
                1 => s.usize(0, all.len()) as u64,
                _ => all.len() as u64 + s.size(70000) as u64,
            };
            let stop = match s.weighted(&[8, 1, 1, 1]) {
                0 => None,
                1 => Some(all.len()),
                2 => Some(size.min(all.len() as u64) as usize),
                _ => Some(s.usize(0, all.len())),
            };
            let bad = |s: &mut Src| if s.chance(1, 5) { Err(E::gen(s)) } else { Ok(()) };
            Kind::Put {
                oid,
                size,
                data,
                up: Upload {
                    reads: gen_sizes(s, true),
                    first: match s.weighted(&[5, 1, 1, 1, 1, 1]) {
                        0 => First::Nothing,
                        1 => First::Exact(s.usize(0, all.len())),
                        2 => First::Vectored((0..s.usize(1, 4)).map(|_| s.size(70000)).collect()),
                        3 => First::ToEnd,
                        4 => First::Copy,
                        _ => First::Bytes(s.usize(0, all.len().min(20))),
                    },
                    stop,
                    careless: s.chance(1, 2),
                    again: if s.chance(1, 4) { gen_sizes(s, true) } else { vec![] },
                    start: bad(s),
                    finish: bad(s),
                },
                rubbish: s.chance(1, 25),
            }
        }
        4 => Kind::Verify {
            oid: gen_oid(s),
            ret: gen_res(s, |s| match s.below(8) {
                0 => Verified::Success,
                1 => Verified::Messages(gen_lines(s)),
                2 => Verified::Args(s.range(200, 299) as u32, gen_lines(s)),
                3 => Verified::Both(s.range(200, 299) as u32, gen_lines(s), gen_lines(s)),
                4 => Verified::Failure(s.range(400, 599) as u32, gen_text(s)),
                5 => Verified::FailureArgs(s.range(400, 599) as u32, gen_lines(s), gen_text(s)),
                6 => Verified::Reader(gen_lines(s), gen_content(s)),
                _ => Verified::Collected(gen_lines(s)),
            }),
        },
        5 => Kind::Get {
            oid: gen_oid(s),
            ret: gen_res(s, |s| {
                let c = gen_content(s);
                let size = match s.weighted(&[3, 2]) {
                    0 => Some(c.data.len() as u64),
                    _ => None,
                };
                (c, size)
            }),
        },
        6 => {
            let create = |s: &mut Src| match s.weighted(&[3, 4, 1]) {
                0 => Ok(gen_lock(s)),
                1 => Err(E::conflict()),
                _ => Err(E::gen_not_conflict(s)),
            };
            let mut path = gen_text(s);
            if s.chance(1, 25) {
                path.resize(MAX_LOCK_PATH + 3 - s.usize(0, 5), b'y');
            }
            Kind::Lock {
                path,
                refname: !s.chance(1, 10),
                create: vec![create(s), create(s)],
                from_path: vec![gen_opt_lock(s), gen_opt_lock(s)],
            }
        }
        7 => {
            let n = if s.chance(1, 6) { s.usize(95, 125) } else { s.size(12) };
            let mut locks: Vec<MLock> = (0..n).map(|_| gen_lock(s)).collect();
            locks.sort_by(|a, b| a.id.cmp(&b.id));
            locks.dedup_by(|a, b| a.id == b.id);
            let cursor = match s.weighted(&[3, 2, 1]) {
                0 => None,
                1 if !locks.is_empty() => Some(s.pick(&locks).id.clone()),
                _ => Some(String::from_utf8_lossy(&gen_text(s)).into_owned()),
            };
            let mut items: Vec<Res<MLock>> = locks.into_iter().map(Ok).collect();
            if s.chance(1, 6) {
                let i = s.usize(0, items.len());
                items.insert(i, Err(E::gen(s)));
            }
            let limit = match s.weighted(if n > 90 { &[2, 1, 8] } else { &[2, 4, 1] }) {
                0 => None,
                1 => Some(s.size(12)),
                _ => Some(s.usize(97, 105)),
            };
            let mut from_path = gen_opt_lock(s);
            if let (Ok(Some(l)), Some(c)) = (&mut from_path, &cursor) {
                if s.chance(1, 3) {
                    l.id = c.clone();
                }
            }
            Kind::List {
                limit,
                cursor,
                path: if s.chance(1, 3) { Some(gen_text(s)) } else { None },
                items,
                from_path,
            }
        }
        _ => Kind::Unlock {
            id: if s.chance(1, 10) {
                b"\xff\xfe".to_vec()
            } else {
                sha256::hex(&s.blob(2)).into_bytes()
            },
            from_id: gen_opt_lock(s),
        },
    };
    let n = if s.chance(1, 3) { s.size(3) } else { 0 };
    let args = (0..n).map(|i| (format!("x{}", i), gen_text(s))).collect();
    Req { kind, args }
}

fn pkt(data: &[u8]) -> Vec<u8> {
    let mut v = format!("{:04x}", data.len() + 4).into_bytes();
    v.extend_from_slice(data);
    v
}

impl Req {
    /// The arguments as the backend should get them.
    fn arguments(&self) -> Vec<(Vec<u8>, Vec<u8>)> {
        let mut v: Vec<(Vec<u8>, Vec<u8>)> = match &self.kind {
            Kind::Batch { algo: Some(a), .. } => {
                let name: &[u8] = if *a { b"sha256" } else { b"sha1" };
                vec![(b"hash-algo".to_vec(), name.to_vec())]
            }
            Kind::Put { size, .. } => {
                vec![(b"size".to_vec(), size.to_string().into_bytes())]
            }
            Kind::Verify { .. } => vec![(b"size".to_vec(), b"7".to_vec())],
            Kind::Lock { path, refname, .. } => {
                let mut v = vec![(b"path".to_vec(), path.clone())];
                if *refname {
                    v.push((b"refname".to_vec(), b"refs/heads/dev".to_vec()));
                }
                v
            }
            Kind::List { limit, cursor, path, .. } => {
                let mut v = vec![];
                if let Some(l) = limit {
                    v.push((b"limit".to_vec(), l.to_string().into_bytes()));
                }
                if let Some(c) = cursor {
                    v.push((b"cursor".to_vec(), c.clone().into_bytes()));
                }
                if let Some(p) = path {
                    v.push((b"path".to_vec(), p.clone()));
                }
                v
            }
            _ => vec![],
        };
        v.extend(self.args.iter().map(|(k, v)| (k.clone().into_bytes(), v.clone())));
        v
    }

    fn wire(&self) -> Vec<u8> {
        let command: Vec<u8> = match &self.kind {
            Kind::Version => b"version 1".to_vec(),
            Kind::Unknown(0) => b"".to_vec(),
            Kind::Unknown(3) => b"\n".to_vec(),
            Kind::Unknown(4) => b"version 2".to_vec(),
            Kind::Unknown(_) => b"sing".to_vec(),
            Kind::Batch { .. } => b"batch".to_vec(),
            Kind::Put { oid, .. } => format!("put-object {}", oid).into_bytes(),
            Kind::Verify { oid, .. } => format!("verify-object {}", oid).into_bytes(),
            Kind::Get { oid, .. } => format!("get-object {}", oid).into_bytes(),
            Kind::Lock { .. } => b"lock".to_vec(),
            Kind::List { .. } => b"list-lock".to_vec(),
            Kind::Unlock { id, .. } => [b"unlock " as &[u8], id].concat(),
            Kind::Quit => b"quit".to_vec(),
        };
        let mut v = match self.kind {
            Kind::Unknown(1) => return b"0000".to_vec(),
            Kind::Unknown(2) => b"0001".to_vec(),
            _ => pkt(&command),
        };
        for (k, a) in self.arguments() {
            v.extend(pkt(&[&k as &[u8], b"=", &a, b"\n"].concat()));
        }
        match &self.kind {
            Kind::Batch { oids, .. } => {
                v.extend(b"0001");
                for (oid, size) in oids {
                    v.extend(pkt(format!("{} {}\n", oid, size).as_bytes()));
                }
            }
            Kind::Put { data, rubbish, .. } => {
                v.extend(b"0001");
                for d in data {
                    v.extend(pkt(d));
                }
                if *rubbish {
                    v.extend(b"00zz");
                }
            }
            _ => (),
        }
        v.extend(b"0000");
        v
    }

    fn rubbish(&self) -> bool {
        matches!(self.kind, Kind::Put { rubbish: true, .. })
    }
}

// ---------------------------------------------------------------------------------------------
// The mock backend and the transport.

type Args = Vec<(Vec<u8>, Vec<u8>)>;

/// The calls which matter, each with the request during which it was made.
#[derive(Debug, Clone, PartialEq)]
enum Call {
    Batch(bool, Vec<(String, u64)>),
    Start(String, Args),
    Finish,
    Verify(String, Args),
    Download(String, Args),
    Create(Vec<u8>),
    Unlock(String),
}

#[derive(Default)]
struct World {
    cur: usize,
    calls: Vec<(usize, Call)>,
    /// What the backend has read of each upload, and whether it has seen its end, or an error.
    uploads: BTreeMap<usize, (Vec<u8>, bool, bool)>,
    alive: usize,
    flaw: Option<String>,
    output: Vec<u8>,
    flushed: usize,
    counts: BTreeMap<(usize, &'static str), usize>,
}

impl World {
    fn flaw<S: Into<String>>(&mut self, s: S) {
        if self.flaw.is_none() {
            self.flaw = Some(s.into());
        }
    }
    fn count(&mut self, what: &'static str) -> usize {
        let n = self.counts.entry((self.cur, what)).or_default();
        *n += 1;
        if *n > 40 {
            panic!("{} is called over and over again", what);
        }
        *n - 1
    }
}

type Shared = Rc<RefCell<World>>;

struct Upstate {
    req: usize,
    world: Shared,
}

impl Drop for Upstate {
    fn drop(&mut self) {
        self.world.borrow_mut().alive -= 1;
    }
}

struct ContentReader {
    c: Content,
    pos: usize,
    i: usize,
}

impl Read for ContentReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = usize::MAX;
        if !self.c.reads.is_empty() {
            n = self.c.reads[self.i % self.c.reads.len()];
            self.i += 1;
            if n == 0 {
                return Err(io::ErrorKind::Interrupted.into());
            }
        }
        let end = self.c.fail.map_or(self.c.data.len(), |f| f.0);
        let n = n.min(buf.len()).min(end - self.pos);
        if n == 0 {
            if let Some((_, k)) = self.c.fail {
                return Err(k.into());
            }
        }
        buf[..n].copy_from_slice(&self.c.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn reader(c: &Content) -> Box<dyn Read> {
    Box::new(ContentReader {
        c: c.clone(),
        pos: 0,
        i: 0,
    })
}

struct Mock<'a> {
    world: Shared,
    reqs: &'a [Req],
}

fn arg_list(args: &BTreeMap<Bytes, Bytes>) -> Args {
    args.iter().map(|(k, v)| (k.to_vec(), v.to_vec())).collect()
}

fn to_bytes(v: &[Vec<u8>]) -> Vec<Bytes> {
    v.iter().map(|x| Bytes::from(x.clone())).collect()
}

impl<'a> Mock<'a> {
    fn call(&self, c: Call) -> &'a Kind {
        let mut w = self.world.borrow_mut();
        let cur = w.cur;
        w.calls.push((cur, c));
        &self.reqs[cur].kind
    }
    fn unexpected(&self) -> Error {
        Error::new_simple(ErrorKind::GitError)
    }
}

impl<'a> Backend for Mock<'a> {
    fn batch(&mut self, mode: Mode, oids: &[(Oid, u64)]) -> Result<Vec<BatchItem>, Error> {
        let oids = oids.iter().map(|(o, s)| (o.as_str().to_string(), *s)).collect();
        match self.call(Call::Batch(matches!(mode, Mode::Upload), oids)) {
            Kind::Batch { ret, .. } => made(ret.clone()).map(|v| {
                v.into_iter()
                    .map(|(oid, size, present)| BatchItem {
                        oid: Oid::new(oid.as_bytes()).unwrap(),
                        size,
                        present,
                    })
                    .collect()
            }),
            _ => Err(self.unexpected()),
        }
    }

    fn start_upload(
        &mut self,
        oid: &Oid,
        rdr: &mut dyn Read,
        args: &BTreeMap<Bytes, Bytes>,
    ) -> Result<Box<dyn Any>, Error> {
        let kind = self.call(Call::Start(oid.as_str().to_string(), arg_list(args)));
        let up = match kind {
            Kind::Put { up, .. } => up,
            _ => return Err(self.unexpected()),
        };
        let req = self.world.borrow().cur;
        let mut seen = vec![];
        let (mut eof, mut err) = (false, None);
        match &up.first {
            First::Nothing => (),
            First::Exact(n) => {
                let mut buf = vec![0xa5; *n];
                match rdr.read_exact(&mut buf) {
                    Ok(()) => seen = buf,
                    Err(e) => err = Some(e),
                }
            }
            First::Vectored(sizes) => {
                let mut bufs: Vec<Vec<u8>> = sizes.iter().map(|n| vec![0xa5; *n]).collect();
                let mut slices: Vec<io::IoSliceMut> =
                    bufs.iter_mut().map(|b| io::IoSliceMut::new(b)).collect();
                match rdr.read_vectored(&mut slices) {
                    Ok(n) => {
                        seen = bufs.concat();
                        eof = n == 0 && !seen.is_empty();
                        seen.truncate(n);
                    }
                    Err(e) => err = Some(e),
                }
            }
            First::ToEnd | First::Copy => {
                let r = match up.first {
                    First::ToEnd => rdr.read_to_end(&mut seen).map(|n| n as u64),
                    _ => io::copy(rdr, &mut seen),
                };
                match r {
                    Ok(n) => {
                        eof = true;
                        if n != seen.len() as u64 {
                            self.world.borrow_mut().flaw("a wrong number of bytes is returned");
                        }
                    }
                    Err(e) => err = Some(e),
                }
            }
            First::Bytes(n) => {
                for b in Read::bytes(&mut *rdr).take(*n) {
                    match b {
                        Ok(b) => seen.push(b),
                        Err(e) => {
                            err = Some(e);
                            break;
                        }
                    }
                }
            }
        }
        for i in 0.. {
            if eof || err.is_some() {
                break;
            }
            if up.stop.map_or(false, |n| seen.len() >= n) {
                break;
            }
            let n = match up.reads.len() {
                0 => 32768,
                l => up.reads[i % l],
            };
            let mut buf = vec![0xa5; n];
            match rdr.read(&mut buf) {
                Ok(0) if n == 0 => (),
                Ok(0) => {
                    eof = true;
                    break;
                }
                Ok(k) if k > n => {
                    self.world.borrow_mut().flaw("a read returned more than asked for");
                    break;
                }
                Ok(k) => seen.extend_from_slice(&buf[..k]),
                Err(e) if e.kind() == io::ErrorKind::Interrupted => (),
                Err(e) => {
                    err = Some(e);
                    break;
                }
            }
        }
        if eof {
            for &n in &up.again {
                match rdr.read(&mut vec![0; n]) {
                    Ok(0) => (),
                    r => self.world.borrow_mut().flaw(format!("after its end an upload goes on: {:?}", r)),
                }
            }
        }
        let failed = err.is_some();
        self.world.borrow_mut().uploads.insert(req, (seen, eof, failed));
        if let Some(e) = err {
            if !up.careless {
                return Err(e.into());
            }
        }
        made(up.start.clone())?;
        self.world.borrow_mut().alive += 1;
        Ok(Box::new(Upstate {
            req,
            world: self.world.clone(),
        }))
    }

    fn finish_upload(&mut self, state: Box<dyn Any>) -> Result<(), Error> {
        let kind = self.call(Call::Finish);
        let cur = self.world.borrow().cur;
        match state.downcast_ref::<Upstate>() {
            Some(st) if st.req == cur => (),
            Some(_) => self.world.borrow_mut().flaw("finish_upload got the state of another upload"),
            None => self.world.borrow_mut().flaw("finish_upload got something else than the state"),
        }
        match kind {
            Kind::Put { up, .. } => made(up.finish.clone()),
            _ => Err(self.unexpected()),
        }
    }

    fn verify(&mut self, oid: &Oid, args: &BTreeMap<Bytes, Bytes>) -> Result<Status, Error> {
        let kind = self.call(Call::Verify(oid.as_str().to_string(), arg_list(args)));
        match kind {
            Kind::Verify { ret, .. } => made(ret.clone()).map(|v| match v {
                Verified::Success => Status::success(),
                Verified::Messages(m) => Status::new_success(to_bytes(&m)),
                Verified::Args(c, a) => Status::new_success_with_code(c, to_bytes(&a)),
                Verified::Both(c, a, m) => {
                    Status::new_success_with_data(c, to_bytes(&a), to_bytes(&m))
                }
                Verified::Failure(c, m) => Status::new_failure(c, &m),
                Verified::FailureArgs(c, a, m) => {
                    Status::new_failure_with_args(c, to_bytes(&a), &m)
                }
                Verified::Reader(a, c) => Status::new_reader(to_bytes(&a), reader(&c)),
                Verified::Collected(m) => to_bytes(&m).into_iter().collect(),
            }),
            _ => Err(self.unexpected()),
        }
    }

    fn download(
        &mut self,
        oid: &Oid,
        args: &BTreeMap<Bytes, Bytes>,
    ) -> Result<(Box<dyn Read>, Option<u64>), Error> {
        match self.call(Call::Download(oid.as_str().to_string(), arg_list(args))) {
            Kind::Get { ret, .. } => made(ret.clone()).map(|(c, size)| (reader(&c), size)),
            _ => Err(self.unexpected()),
        }
    }

    fn lock_backend<'b>(&'b self) -> Box<dyn LockBackend + 'b> {
        Box::new(MockLocks { mock: self })
    }
}

struct MockLocks<'b, 'a> {
    mock: &'b Mock<'a>,
}

struct RealLock {
    l: MLock,
    path: Bytes,
    world: Shared,
}

impl<'b, 'a> MockLocks<'b, 'a> {
    fn lock(&self, l: &MLock) -> Box<dyn Lock> {
        Box::new(RealLock {
            l: l.clone(),
            path: Bytes::from(l.path.clone()),
            world: self.mock.world.clone(),
        })
    }
    fn kind(&self) -> &'a Kind {
        let cur = self.mock.world.borrow().cur;
        &self.mock.reqs[cur].kind
    }
    fn opt(&self, r: &Res<Option<MLock>>) -> Result<Option<Box<dyn Lock>>, Error> {
        made(r.clone()).map(|o| o.map(|l| self.lock(&l)))
    }
    fn asked(&self, what: &'static str, got: &[u8], want: Option<&[u8]>) -> usize {
        let mut w = self.mock.world.borrow_mut();
        if Some(got) != want {
            w.flaw(format!("{} was called with {:?} instead of {:?}", what, got, want));
        }
        w.count(what)
    }
}

impl<'b, 'a> LockBackend for MockLocks<'b, 'a> {
    fn create(&self, path: &Bytes) -> Result<Box<dyn Lock>, Error> {
        let kind = self.mock.call(Call::Create(path.to_vec()));
        let n = self.mock.world.borrow_mut().count("create");
        match kind {
            Kind::Lock { create, .. } => match create.get(n) {
                Some(r) => made(r.clone()).map(|l| self.lock(&l)),
                None => Err(E::conflict().make()),
            },
            _ => Err(self.mock.unexpected()),
        }
    }
    fn from_path(&self, path: &Bytes) -> Result<Option<Box<dyn Lock>>, Error> {
        match self.kind() {
            Kind::Lock { from_path, path: p, .. } => {
                let n = self.asked("from_path", path, Some(p));
                // Another one has been released in the meantime.
                from_path.get(n).map_or(Ok(None), |r| self.opt(r))
            }
            Kind::List { from_path, path: p, .. } => {
                self.asked("from_path", path, p.as_deref());
                self.opt(from_path)
            }
            _ => Err(self.mock.unexpected()),
        }
    }
    fn from_id(&self, id: &str) -> Result<Option<Box<dyn Lock>>, Error> {
        match self.kind() {
            Kind::Unlock { from_id, id: i } => {
                self.asked("from_id", id.as_bytes(), Some(i));
                self.opt(from_id)
            }
            _ => Err(self.mock.unexpected()),
        }
    }
    fn iter<'c>(&'c self) -> Box<dyn Iterator<Item = Result<Box<dyn Lock>, Error>> + 'c> {
        match self.kind() {
            Kind::List { items, .. } => {
                Box::new(items.iter().map(move |i| made(i.clone()).map(|l| self.lock(&l))))
            }
            _ => Box::new(Some(Err(self.mock.unexpected())).into_iter()),
        }
    }
}

impl Lock for RealLock {
    fn unlock(&self) -> Result<(), Error> {
        let mut w = self.world.borrow_mut();
        let cur = w.cur;
        w.calls.push((cur, Call::Unlock(self.l.id.clone())));
        made(self.l.unlock.clone())
    }
    fn id(&self) -> String {
        self.l.id.clone()
    }
    fn path(&self) -> &Bytes {
        &self.path
    }
    fn formatted_timestamp(&self) -> String {
        self.l.time.clone()
    }
    fn ownername(&self) -> &str {
        &self.l.owner
    }
    fn as_lock_spec(&self, owner_id: bool) -> Result<Vec<Bytes>, Error> {
        made(self.l.spec.clone()).map(|()| to_bytes(&self.l.lines(owner_id)))
    }
}

impl MLock {
    fn lines(&self, owner_id: bool) -> Vec<Vec<u8>> {
        let mut v = vec![
            format!("lock {}\n", self.id).into_bytes(),
            [format!("path {} ", self.id).as_bytes(), &self.path, b"\n"].concat(),
            format!("ownername {} {}\n", self.id, self.owner).into_bytes(),
        ];
        if owner_id {
            v.push(format!("owner {} ours\n", self.id).into_bytes());
        }
        v
    }
    fn details(&self) -> Vec<Vec<u8>> {
        vec![
            format!("id={}\n", self.id).into_bytes(),
            [b"path=" as &[u8], &self.path, b"\n"].concat(),
            format!("locked-at={}\n", self.time).into_bytes(),
            format!("ownername={}\n", self.owner).into_bytes(),
        ]
    }
}

struct Input<'a> {
    world: Shared,
    wire: Vec<Vec<u8>>,
    pos: usize,
    sizes: &'a [usize],
    i: usize,
    fail: Option<io::ErrorKind>,
}

fn step(sizes: &[usize], i: &mut usize) -> Option<usize> {
    if sizes.is_empty() {
        return Some(usize::MAX);
    }
    let n = sizes[*i % sizes.len()];
    *i += 1;
    if n == 0 {
        None
    } else {
        Some(n)
    }
}

impl<'a> Read for Input<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let limit = match step(self.sizes, &mut self.i) {
            Some(n) => n,
            None => return Err(io::ErrorKind::Interrupted.into()),
        };
        let mut w = self.world.borrow_mut();
        if self.pos == self.wire[w.cur].len() {
            if w.flushed < w.output.len() {
                w.flaw("a further request is awaited with output not flushed");
            }
            let answered = responses(&w.output).map_or(0, |(r, _)| r.len());
            if answered <= w.cur {
                let text = format!("request {} is not answered before the next is awaited", w.cur);
                w.flaw(text);
            }
            if w.alive > 0 {
                w.flaw("the state of an unsuccessful upload is kept");
            }
            if w.cur + 1 == self.wire.len() {
                return match self.fail {
                    Some(k) => Err(k.into()),
                    None => Ok(0),
                };
            }
            w.cur += 1;
            self.pos = 0;
        }
        let rest = &self.wire[w.cur][self.pos..];
        let n = limit.min(buf.len()).min(rest.len());
        buf[..n].copy_from_slice(&rest[..n]);
        self.pos += n;
        Ok(n)
    }
}

struct Output<'a> {
    world: Shared,
    sizes: &'a [usize],
    i: usize,
    /// Fail after so many bytes, possibly only once.
    fail: Option<(usize, io::ErrorKind, bool)>,
    failed: bool,
}

impl<'a> Write for Output<'a> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut n = match step(self.sizes, &mut self.i) {
            Some(n) => n.min(buf.len()),
            None => return Err(io::ErrorKind::Interrupted.into()),
        };
        if let (Some((at, k, once)), false) = (self.fail, self.failed) {
            n = n.min(at - self.world.borrow().output.len());
            if n == 0 && !buf.is_empty() {
                self.failed = once;
                return Err(k.into());
            }
        }
        self.world.borrow_mut().output.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut w = self.world.borrow_mut();
        w.flushed = w.output.len();
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// Responses.

#[derive(Clone, PartialEq)]
struct Response {
    code: u32,
    args: Vec<Vec<u8>>,
    data: Vec<u8>,
}

/// The complete responses, and the packets after them; none are flush packets.
fn responses(mut out: &[u8]) -> Result<(Vec<Response>, Vec<Option<Vec<u8>>>), String> {
    let mut all = vec![];
    let mut cur: Vec<Option<Vec<u8>>> = vec![];
    while !out.is_empty() {
        let hdr = out.get(..4).ok_or("an incomplete header")?;
        let len = std::str::from_utf8(hdr)
            .ok()
            .filter(|h| h.bytes().all(|b| matches!(b, b'0'..=b'9' | b'a'..=b'f')))
            .and_then(|h| usize::from_str_radix(h, 16).ok())
            .ok_or_else(|| format!("a bad header {:?}", hdr))?;
        match len {
            0 => {
                all.push(response(&cur)?);
                cur.clear();
            }
            1 => cur.push(None),
            4..=65520 => {
                let data = out.get(4..len).ok_or("an incomplete packet")?;
                cur.push(Some(data.to_vec()));
            }
            _ => return Err(format!("a bad length {}", len)),
        }
        out = &out[len.max(4)..];
    }
    Ok((all, cur))
}

fn response(pkts: &[Option<Vec<u8>>]) -> Result<Response, String> {
    let code = match pkts.first() {
        Some(Some(p)) if p.len() == 11 && p.starts_with(b"status ") && p[10] == b'\n' => {
            std::str::from_utf8(&p[7..10]).ok().and_then(|s| s.parse().ok())
        }
        _ => None,
    };
    let code = code.ok_or("a response not beginning with a status")?;
    let mut parts = pkts[1..].split(|p| p.is_none());
    let flat = |p: &[Option<Vec<u8>>]| -> Vec<Vec<u8>> { p.iter().flatten().cloned().collect() };
    let args = parts.next().map(flat).unwrap_or_default();
    let data = parts.next().map(flat).unwrap_or_default().concat();
    if parts.next().is_some() {
        return Err("a response of more than two parts".into());
    }
    Ok(Response { code, args, data })
}

impl std::fmt::Debug for Response {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let args: Vec<B> = self.args.iter().map(|a| a.clone().into()).collect();
        write!(f, "status {} {:?} {:?}", self.code, args, B(self.data.clone()))
    }
}

#[derive(Debug)]
enum Expect {
    Exact(Response),
    Fail(u32),
    Either(Vec<Expect>),
}

fn exact(code: u32, args: Vec<Vec<u8>>, data: Vec<u8>) -> Expect {
    Expect::Exact(Response { code, args, data })
}

fn failed(e: &E) -> Expect {
    Expect::Fail(e.code())
}

impl Expect {
    fn fits(&self, r: &Response) -> bool {
        match self {
            Expect::Exact(e) => e == r,
            Expect::Fail(c) => r.code == *c && !r.data.is_empty(),
            Expect::Either(v) => v.iter().any(|e| e.fits(r)),
        }
    }
}

/// What is expected of a request.
struct Plan {
    expect: Expect,
    calls: Vec<Call>,
    /// With these arguments and this part of the data, the session ends without completing the
    /// response.
    broken: Option<(Vec<Vec<u8>>, Vec<u8>)>,
}

fn plan(upload: bool, req: &Req, world: &World, i: usize) -> Plan {
    let mut calls = vec![];
    let mut broken = None;
    let mut stream = |code: u32, args: Vec<Vec<u8>>, c: &Content| match c.fail {
        None => exact(code, args, c.data.to_vec()),
        Some((at, _)) => {
            broken = Some((args, c.data[..at].to_vec()));
            Expect::Fail(0)
        }
    };
    let mut args = req.arguments();
    args.sort();
    let expect = match &req.kind {
        Kind::Version | Kind::Quit => exact(200, vec![], vec![]),
        Kind::Unknown(_) => Expect::Fail(400),
        Kind::Batch { algo: Some(false), .. } => Expect::Fail(400),
        Kind::Batch { oids, ret, .. } => {
            if oids.iter().all(|o| valid_oid(&o.0)) {
                calls.push(Call::Batch(upload, oids.clone()));
                match ret {
                    Err(e) => failed(e),
                    Ok(items) => {
                        let text: String = items
                            .iter()
                            .map(|(oid, size, present)| {
                                let action = match (upload, present) {
                                    (true, false) => "upload",
                                    (false, true) => "download",
                                    _ => "noop",
                                };
                                format!("{} {} {}\n", oid, size, action)
                            })
                            .collect();
                        exact(200, vec![], text.into_bytes())
                    }
                }
            } else {
                Expect::Fail(400)
            }
        }
        Kind::Put { .. } if !upload => Expect::Fail(403),
        Kind::Put { oid, .. } if !valid_oid(oid) => Expect::Fail(400),
        Kind::Put { oid, size, data, up, .. } => {
            calls.push(Call::Start(oid.clone(), args));
            let all = whole(data);
            let good = all.len() as u64 == *size && sha256::hex(&all) == *oid;
            let (seen, eof) = world
                .uploads
                .get(&i)
                .map_or((0, false), |(s, eof, _)| (s.len(), *eof));
            match &up.start {
                Err(e) => failed(e),
                Ok(()) if good && seen == all.len() => {
                    let result = match &up.finish {
                        Ok(()) => exact(200, vec![], vec![]),
                        Err(e) => failed(e),
                    };
                    let finished = world.calls.contains(&(i, Call::Finish));
                    if eof || finished {
                        calls.push(Call::Finish);
                        result
                    } else {
                        // It has not read up to the end, so it may be refused.
                        Expect::Fail(400)
                    }
                }
                Ok(()) => Expect::Fail(400),
            }
        }
        Kind::Verify { .. } if !upload => Expect::Fail(403),
        Kind::Verify { oid, .. } if !valid_oid(oid) => Expect::Fail(400),
        Kind::Verify { oid, ret } => {
            calls.push(Call::Verify(oid.clone(), args));
            match ret {
                Err(e) => failed(e),
                Ok(Verified::Success) => exact(200, vec![], vec![]),
                Ok(Verified::Messages(m)) | Ok(Verified::Collected(m)) => {
                    exact(200, vec![], m.concat())
                }
                Ok(Verified::Args(c, a)) => exact(*c, a.clone(), vec![]),
                Ok(Verified::Both(c, a, m)) => exact(*c, a.clone(), m.concat()),
                Ok(Verified::Failure(c, m)) => exact(*c, vec![], m.clone()),
                Ok(Verified::FailureArgs(c, a, m)) => exact(*c, a.clone(), m.clone()),
                Ok(Verified::Reader(a, c)) => stream(200, a.clone(), c),
            }
        }
        Kind::Get { .. } if upload => Expect::Fail(403),
        Kind::Get { oid, .. } if !valid_oid(oid) => Expect::Fail(400),
        Kind::Get { oid, ret } => {
            calls.push(Call::Download(oid.clone(), args));
            match ret {
                Err(e) if e.is(io::ErrorKind::NotFound) => Expect::Fail(404),
                Err(e) => failed(e),
                Ok((c, size)) => {
                    let args = size.iter().map(|s| format!("size={}\n", s).into_bytes()).collect();
                    stream(200, args, c)
                }
            }
        }
        Kind::Lock { .. } if !upload => Expect::Fail(400),
        Kind::Lock { refname: false, .. } => Expect::Fail(400),
        // It could not be listed.
        Kind::Lock { path, .. } if path.len() > MAX_LOCK_PATH => Expect::Fail(400),
        Kind::Lock { path, create, from_path, .. } => {
            let mut result = failed(&E::conflict());
            for (c, f) in create.iter().zip(from_path) {
                calls.push(Call::Create(path.clone()));
                let e = match (c, f) {
                    (Ok(l), _) => exact(201, l.details(), vec![]),
                    (Err(e), Ok(Some(l))) if e.is_conflict() => {
                        exact(409, l.details(), b"conflict\n".to_vec())
                    }
                    (Err(e), Ok(None)) if e.is_conflict() => continue,
                    (Err(e), Err(f)) if e.is_conflict() => failed(f),
                    (Err(e), _) => failed(e),
                };
                result = e;
                break;
            }
            result
        }
        Kind::List { limit: Some(0), .. } => Expect::Fail(400),
        Kind::List { cursor, path: Some(_), from_path, .. } => match from_path {
            Err(e) => failed(e),
            Ok(None) => Expect::Fail(404),
            Ok(Some(l)) if cursor.as_ref().map_or(false, |c| l.id < *c) => Expect::Fail(404),
            Ok(Some(l)) => match &l.spec {
                Err(e) => failed(e),
                Ok(()) => exact(200, vec![], l.lines(upload).concat()),
            },
        },
        Kind::List { limit, cursor, items, .. } => {
            let limit = limit.unwrap_or(100).min(100);
            let mut errors: Vec<Expect> = vec![];
            let mut must = false;
            let mut page = vec![];
            for item in items {
                let full = page.len() > limit;
                match item {
                    Err(e) => {
                        errors.push(failed(e));
                        must |= !full;
                    }
                    Ok(l) if cursor.as_ref().map_or(false, |c| l.id < *c) => (),
                    Ok(l) => {
                        if let Err(e) = &l.spec {
                            errors.push(failed(e));
                            must |= page.len() < limit;
                        }
                        page.push(l);
                    }
                }
            }
            if !must {
                let next = page.get(limit);
                let args = next.iter().map(|l| format!("next-cursor={}\n", l.id).into_bytes());
                let data: Vec<u8> = page.iter().take(limit).flat_map(|l| l.lines(upload)).flatten().collect();
                errors.push(exact(200, args.collect(), data));
            }
            Expect::Either(errors)
        }
        Kind::Unlock { .. } if !upload => Expect::Fail(400),
        Kind::Unlock { id, .. } if std::str::from_utf8(id).is_err() => Expect::Fail(400),
        Kind::Unlock { from_id, .. } => match from_id {
            Err(e) => failed(e),
            Ok(None) => Expect::Fail(404),
            Ok(Some(l)) => {
                calls.push(Call::Unlock(l.id.clone()));
                match &l.unlock {
                    Ok(()) => exact(200, l.details(), vec![]),
                    Err(e) if e.is(io::ErrorKind::NotFound) => Expect::Fail(404),
                    Err(e) if e.is(io::ErrorKind::PermissionDenied) => Expect::Fail(403),
                    Err(e) => failed(e),
                }
            }
        },
    };
    Plan {
        expect,
        calls,
        broken,
    }
}

fn run(c: &Case, fail: Option<(usize, io::ErrorKind, bool)>) -> Check<(Shared, Result<(), Error>)> {
    let mut wire: Vec<Vec<u8>> = c.reqs.iter().map(|r| r.wire()).collect();
    let last = wire.len() - 1;
    if let Some(n) = c.cut {
        let keep = wire[last].len() - n;
        wire[last].truncate(keep);
    }
    let world: Shared = Rc::new(RefCell::new(World::default()));
    let input = Input {
        world: world.clone(),
        wire,
        pos: 0,
        sizes: &c.transport,
        i: 0,
        fail: c.input,
    };
    let output = Output {
        world: world.clone(),
        sizes: &c.transport,
        i: 0,
        fail,
        failed: false,
    };
    let mode = if c.upload { Mode::Upload } else { Mode::Download };
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mock = Mock {
            world: world.clone(),
            reqs: &c.reqs,
        };
        Processor::new(PktLineHandler::new(input, output), Box::new(mock)).process_commands(mode)
    }));
    match r {
        Ok(r) => Ok((world, r)),
        Err(e) => {
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            violation!("panicked: {}", msg)
        }
    }
}

/// The same session, with output failing after `at` of its bytes.
fn check_failing_output(c: &Case, all: &[u8], at: usize, kind: io::ErrorKind, once: bool) -> Check {
    let (world, result) = run(c, Some((at, kind, once)))?;
    let w = world.borrow();
    ensure!(result.is_err(), "the session ends well");
    ensure!(all.starts_with(&w.output), "other output than without the failure");
    ensure!(w.output.len() == at, "output goes on after the failure");
    // As many responses are complete as there are flush packets in them.
    let mut done = 0;
    let mut rest = &w.output[..];
    while rest.len() >= 4 {
        let len = std::str::from_utf8(&rest[..4]).ok().and_then(|h| usize::from_str_radix(h, 16).ok());
        let len = len.unwrap_or(0);
        done += usize::from(len == 0);
        rest = rest.get(len.max(4)..).unwrap_or_default();
    }
    ensure!(
        w.cur <= done && w.calls.iter().all(|x| x.0 <= done),
        "the session goes on with request {} although {} responses were delivered",
        w.cur,
        done
    );
    Ok(())
}

struct P30;

impl Prop for P30 {
    type Case = Case;
    type Ctx = ();
    fn id(&self) -> &'static str {
        "P30"
    }
    fn rule(&self) -> &'static str {
        "A case is a session of up to ten requests with, for each, what the backend does when it \
         is called: results of any shape, errors of any kind, uploads read in pieces of any size, \
         not to their end or in spite of errors, and downloads delivered in pieces, with \
         interruptions or failing midway. The last request may be cut off. Non-trivial: a backend \
         fails, stops reading early, or returns something by pieces."
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            6_000_000
        } else {
            300_000
        }
    }
    fn ctx(&self, _: usize) {}
    fn gen(&self, s: &mut Src) -> Case {
        let upload = !s.chance(1, 3);
        let n = s.usize(1, 8);
        let mut reqs: Vec<Req> = vec![];
        for _ in 0..n {
            reqs.push(gen_req(s, upload));
            if reqs[reqs.len() - 1].rubbish() {
                break;
            }
        }
        let mut cut = None;
        if !reqs[reqs.len() - 1].rubbish() {
            match s.weighted(&[6, 2, 2]) {
                0 => (),
                1 => reqs.push(Req {
                    kind: Kind::Quit,
                    args: vec![],
                }),
                _ => {
                    let len = reqs[reqs.len() - 1].wire().len();
                    let n = match s.below(3) {
                        0 => 4,
                        1 => 1 + s.size(len - 2),
                        _ => s.usize(1, len - 1),
                    };
                    cut = Some(n.min(len - 1));
                }
            }
        }
        const FAILURES: &[io::ErrorKind] = &[
            io::ErrorKind::BrokenPipe,
            io::ErrorKind::ConnectionReset,
            io::ErrorKind::Other,
            io::ErrorKind::WouldBlock,
            io::ErrorKind::NotFound,
        ];
        let input = if s.chance(1, 8) { Some(*s.pick(FAILURES)) } else { None };
        let output = if s.chance(1, 8) {
            // Like a reader which has reached its end.
            let k = if s.chance(1, 4) { io::ErrorKind::UnexpectedEof } else { *s.pick(FAILURES) };
            Some((s.usize(0, 65535), k, s.chance(1, 2)))
        } else {
            None
        };
        Case {
            upload,
            reqs,
            cut,
            input,
            output,
            transport: gen_sizes(s, true),
        }
    }

    fn check(&self, c: &Case, _: &mut (), out: &mut Outcome) -> Check {
        let (world, result) = run(c, None)?;
        let last = c.reqs.len() - 1;
        if let Some((part, kind, once)) = c.output {
            let all = world.borrow().output.clone();
            if !all.is_empty() {
                check_failing_output(c, &all, part * all.len() >> 16, kind, once)
                    .map_err(|e| match e {
                        Stop::Violation(v) => Stop::Violation(format!("failing output: {}", v)),
                        e => e,
                    })?;
                out.executions = 2;
                out.class("failing output");
            }
        }
        let world = &*world.borrow();
        // Nothing of what an incomplete request sent may be taken for the next one.
        let (all, rest) = match responses(&world.output) {
            Ok(x) => x,
            Err(e) => violation!("the output contains {}", e),
        };
        let mut answered = 0;
        for (i, req) in c.reqs.iter().enumerate() {
            let p = plan(c.upload, req, world, i);
            let doubtful = i == last && (c.cut.is_some() || req.rubbish());
            classify(req, &p, world, i, doubtful, out);
            let calls: Vec<Call> = world
                .calls
                .iter()
                .filter(|x| x.0 == i)
                .map(|x| x.1.clone())
                .collect();
            if let (Some((seen, eof, err)), Kind::Put { data, .. }) = (world.uploads.get(&i), &req.kind) {
                let sent = whole(data);
                ensure!(sent.starts_with(seen), "request {}: the backend got other data", i);
                ensure!(
                    !eof || doubtful || seen.len() == sent.len(),
                    "request {}: the backend got {} of {} bytes",
                    i,
                    seen.len(),
                    sent.len()
                );
                ensure!(!err || doubtful, "request {}: the backend could not read on", i);
            }
            if doubtful {
                // Only an upload may have begun.
                ensure!(
                    calls.is_empty()
                        || (calls == p.calls[..1] && matches!(calls[0], Call::Start(..))),
                    "request {} is incomplete or malformed, but the backend was called: {:?}",
                    i,
                    calls
                );
                match all.get(answered) {
                    Some(r) => {
                        ensure!(r.code >= 400, "request {} is incomplete, but got {:?}", i, r);
                        answered += 1;
                    }
                    None => (),
                }
                ensure!(
                    result.is_err() || !req.rubbish(),
                    "the session ends well in spite of a malformed packet"
                );
                continue;
            }
            ensure!(
                calls == p.calls,
                "request {}: calls of the backend: {:?}\nexpected: {:?}",
                i,
                calls,
                p.calls
            );
            if let Some((args, data)) = &p.broken {
                ensure!(
                    all.len() == answered,
                    "request {}: the response is completed although reading failed",
                    i
                );
                ensure!(result.is_err(), "the session ends well although reading failed");
                let mut parts = rest.split(|p| p.is_none());
                let head: Vec<Vec<u8>> =
                    parts.next().unwrap_or_default().iter().flatten().cloned().collect();
                let body: Vec<u8> =
                    parts.next().unwrap_or_default().iter().flatten().flatten().cloned().collect();
                let mut want = vec![b"status 200\n".to_vec()];
                want.extend(args.iter().cloned());
                ensure!(
                    want.starts_with(&head) && data.starts_with(&body),
                    "request {}: wrong data before the failure",
                    i
                );
                ensure!(
                    world.calls.iter().all(|x| x.0 <= i) && world.flaw.is_none(),
                    "the session goes on after the failure"
                );
                return Ok(());
            }
            let r = match all.get(answered) {
                Some(r) => r,
                None => violation!("request {} gets no response", i),
            };
            ensure!(
                p.expect.fits(r),
                "request {}: got {:?}\nexpected {:?}",
                i,
                r,
                p.expect
            );
            answered += 1;
        }
        ensure!(all.len() == answered, "more responses than requests: {:?}", all[answered]);
        ensure!(rest.is_empty(), "output after the last response");
        if c.input.is_some() && !matches!(c.reqs[last].kind, Kind::Quit) {
            ensure!(result.is_err(), "the session ends well although reading failed");
        } else if !c.reqs[last].rubbish() {
            ensure!(result.is_ok(), "the session fails: {:?}", result);
        }
        if c.cut.is_none() && !c.reqs[last].rubbish() {
            if let Some(f) = &world.flaw {
                violation!("{}", f);
            }
        }
        Ok(())
    }
}

fn classify(req: &Req, p: &Plan, world: &World, i: usize, doubtful: bool, out: &mut Outcome) {
    let name = match &req.kind {
        Kind::Version => "version",
        Kind::Unknown(_) => "unknown",
        Kind::Batch { .. } => "batch",
        Kind::Put { .. } => "put-object",
        Kind::Verify { .. } => "verify-object",
        Kind::Get { .. } => "get-object",
        Kind::Lock { .. } => "lock",
        Kind::List { .. } => "list-lock",
        Kind::Unlock { .. } => "unlock",
        Kind::Quit => "quit",
    };
    if doubtful {
        out.class(format!("{}: incomplete or malformed", name));
        out.nontrivial = true;
        return;
    }
    if p.broken.is_some() {
        out.class(format!("{}: failing midway", name));
        out.nontrivial = true;
        return;
    }
    match &p.expect {
        Expect::Exact(r) => out.class(format!("{}: {}", name, r.code / 100 * 100)),
        Expect::Fail(c) => out.class(format!("{}: {}", name, c)),
        Expect::Either(_) => out.class(name),
    }
    if let Some((_, eof, _)) = world.uploads.get(&i) {
        if !eof {
            out.class("upload not read to its end");
            out.nontrivial = true;
        }
    }
    match &req.kind {
        Kind::Put { up, .. } if !up.reads.is_empty() => out.nontrivial = true,
        Kind::Get { ret: Ok((c, _)), .. } if !c.reads.is_empty() => out.nontrivial = true,
        _ => (),
    }
    if !p.calls.is_empty() && matches!(p.expect, Expect::Fail(_)) {
        out.nontrivial = true;
    }
}

fn main() {
    let mut cfg = Cfg::from_env();
    let mut id = String::new();
    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        match a.as_str() {
            "--replay" => cfg.replay = args.next().map(|p| p.into()),
            _ => id = a,
        }
    }
    let code = match id.as_str() {
        "P30" => vcore::run(P30, &cfg),
        "P32" => vcore::run(helpers::P32, &cfg),
        _ => 2,
    };
    std::process::exit(code);
}
