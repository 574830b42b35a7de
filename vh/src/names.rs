//! P14: names which might lead out of the LFS directory.

use crate::gen;
use crate::model::{self, Model, Op, Req, Who};
use crate::proto::{self, Part};
use crate::store::{diff, tree, Ctx, Run, Session, Store, Tree, World};
use crate::sys;
use crate::trace::{normalize, Ev, Tracee};
use crate::xfer::NOON;
use std::collections::BTreeSet;
use std::fs;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use vcore::{ensure, violation, Check, Outcome, Prop, Src, B};

/// Somebody who owns nothing else.
const USER: u32 = 54322;
const TOKEN: &str = "canary-7d1f";

pub struct Names;

/// A name which might lead somewhere.
#[derive(Debug, Clone)]
pub struct Evil {
    prefix: usize,
    leaf: usize,
    twist: usize,
    n: u64,
}

#[derive(Debug, Clone)]
pub enum Ask {
    Good(Req),
    Unlock(Evil),
    Get(Evil),
    Verify(Evil),
    Put(Evil, B),
    Batch(Evil, bool),
    Lock(Evil),
    Lookup(Evil),
    Cursor(Evil, Option<u64>),
    LookupCursor(Evil, Evil),
}

#[derive(Debug)]
pub struct NamesCase {
    op: Op,
    locks: usize,
    asks: Vec<Ask>,
}

const PREFIXES: [&str; 16] = [
    "",
    "./",
    "../",
    "../../",
    "../../../",
    "../locks/",
    "../../lfs/locks/",
    "@/",
    "@repo/",
    "@repo/lfs/locks/",
    "@repo/lfs/",
    "/",
    "../../../../../../../../",
    "..//..//",
    "../tmp/../../",
    "../objects/../",
];

/// What is at the end; "@l" stands for a held lock and "@c" for a lock recorded elsewhere.
const LEAVES: [&str; 22] = [
    "@l", "@c", "secret", "config", "HEAD", "@l", "@c", "", ".", "..", "objects", "locks",
    "incomplete", "hooks/x", "etc/shadow", "etc/hostname", "root", "link", "link/secret", "dangling",
    "@o", "missing",
];

const TWISTS: usize = 22;

fn evil(s: &mut Src) -> Evil {
    Evil {
        prefix: s.below(PREFIXES.len() as u64) as usize,
        leaf: s.below(LEAVES.len() as u64) as usize,
        twist: if s.chance(1, 2) { 0 } else { s.below(TWISTS as u64) as usize },
        n: s.below(1 << 16),
    }
}

struct Place<'a> {
    w: &'a World,
    held: Vec<String>,
    /// The ID of the lock recorded outside.
    outside: String,
}

impl Place<'_> {
    fn name(&self, e: &Evil) -> Vec<u8> {
        let top = self.w.top.as_os_str().as_bytes();
        let rep = |t: &str| -> Vec<u8> {
            let held = &self.held[e.n as usize % self.held.len()];
            match t.strip_prefix('@') {
                Some("l") => held.as_bytes().to_vec(),
                Some("c") => self.outside.as_bytes().to_vec(),
                Some("o") => format!("{}/{}/{}", &held[..2], &held[2..4], held).into_bytes(),
                Some(r) => [top, b"/", r.trim_start_matches('/').as_bytes()].concat(),
                None => t.as_bytes().to_vec(),
            }
        };
        let mut v = rep(PREFIXES[e.prefix]);
        v.extend(rep(LEAVES[e.leaf]));
        match e.twist {
            1 => v.push(b'/'),
            2 => v.extend(b"/."),
            3 => v.push(0),
            4 => v.make_ascii_uppercase(),
            5 => {
                v.pop();
            }
            6 => v.push(b'0'),
            7 => v.extend(b".lock"),
            8 => v.push(b'\n'),
            9 => v.insert(0, b'/'),
            10 => v.extend(b"/../secret"),
            11 => v.extend(b"\0/../../secret"),
            12 => v.push(0xff),
            13 => v.insert(0, b'\t'),
            14 => v.extend(b"/.."),
            // As long as a valid ID.
            15..=18 => {
                while v.len() < 64 {
                    if v.starts_with(b"/") || (e.n & 1 == 0 && v.len() == 63) {
                        v.insert(0, b'/');
                    } else if e.n & 2 == 0 {
                        v.splice(0..0, *b"./");
                    } else {
                        // In the middle.
                        match v.iter().position(|&c| c == b'/') {
                            Some(i) => v.insert(i, b'/'),
                            None => v.insert(0, b'/'),
                        }
                    }
                }
                v.truncate(64);
            }
            19 => v.extend(b"/../".repeat(1 + e.n as usize % 6)),
            20 => v = format!("%2e%2e%2f{}", String::from_utf8_lossy(&v)).into_bytes(),
            21 => v.extend(vec![b'/'; 1 + e.n as usize % 5000]),
            _ => (),
        }
        // It has to be one word.
        v.retain(|&c| c != b' ');
        v
    }

    /// A name which is neither a valid object ID nor a held lock.
    fn bad(&self, e: &Evil) -> Vec<u8> {
        let mut v = self.name(e);
        if proto::is_oid(&v) {
            v.insert(0, b'/');
        }
        v
    }

    /// A name which is not the ID of a held lock.
    fn not_held(&self, e: &Evil) -> Vec<u8> {
        let mut v = self.name(e);
        if self.held.iter().any(|h| h.as_bytes() == v) {
            v.push(b'/');
        }
        v
    }

    fn parts(&self, a: &Ask) -> Vec<Part> {
        let cmd = |c: &str, id: Vec<u8>| -> Part {
            let mut v = c.as_bytes().to_vec();
            v.push(b' ');
            v.extend(id);
            v.push(b'\n');
            Part::Data(B(v))
        };
        match a {
            Ask::Good(r) => r.parts(),
            Ask::Unlock(e) => proto::unlock(&self.not_held(e)),
            Ask::Get(e) => vec![cmd("get-object", self.bad(e)), Part::Flush],
            Ask::Verify(e) => vec![
                cmd("verify-object", self.bad(e)),
                proto::arg("size", b"30"),
                Part::Flush,
            ],
            Ask::Put(e, d) => {
                let mut v = vec![
                    cmd("put-object", self.bad(e)),
                    proto::arg("size", d.len().to_string().as_bytes()),
                    Part::Delim,
                ];
                if !d.is_empty() {
                    v.push(Part::Data(d.clone()));
                }
                v.push(Part::Flush);
                v
            }
            Ask::Batch(e, both) => {
                let mut v = vec![proto::line("batch"), Part::Delim];
                if *both {
                    v.push(proto::line(&format!("{} 30", self.held[0])));
                }
                let mut l = self.bad(e);
                l.extend(b" 30\n");
                v.push(Part::Data(B(l)));
                v.push(Part::Flush);
                v
            }
            Ask::Lock(e) => proto::lock(&self.name(e)),
            Ask::Lookup(e) => proto::list(&[("path", &self.name(e))]),
            Ask::Cursor(e, l) => {
                let n = self.name(e);
                let l = l.map(|l| l.to_string());
                let mut a: Vec<(&str, &[u8])> = vec![("cursor", &n)];
                if let Some(l) = &l {
                    a.push(("limit", l.as_bytes()));
                }
                proto::list(&a)
            }
            Ask::LookupCursor(e, f) => {
                proto::list(&[("path", &self.name(e)), ("cursor", &self.name(f))])
            }
        }
    }
}

pub struct NamesCtx {
    ctx: Ctx,
    /// Everything outside of the LFS directory an ordinary session looks at.
    usual: Option<BTreeSet<PathBuf>>,
}

fn build(ctx: &mut Ctx, locks: usize, canaries: bool) -> Check<(World, Vec<String>, String)> {
    let w = World::new(ctx, "w", USER, None)?;
    w.init_lfs(0o755)?;
    let mut held = vec![];
    for i in 0..locks.max(1) {
        held.push(w.add_lock(format!("held {}", i).as_bytes(), NOON, USER)?);
    }
    w.add_object(b"an object", 0o755)?;
    let path = format!("{} path", TOKEN);
    let id = proto::lock_id(path.as_bytes());
    if canaries {
        let record = format!("v1:1600000000:{}", path);
        for d in [&w.top, &w.repo] {
            sys::chown(d, USER, sys::GID)?;
            for n in [&id[..], "secret"] {
                fs::write(d.join(n), &record)?;
                sys::chown(&d.join(n), USER, sys::GID)?;
            }
            // As if it were an object directory.
            let o = d.join(&id[..2]).join(&id[2..4]);
            fs::create_dir_all(&o)?;
            fs::write(o.join(&id), &record)?;
            sys::chown_r(&d.join(&id[..2]), USER, sys::GID)?;
            std::os::unix::fs::symlink("secret", d.join("link"))?;
            std::os::unix::fs::symlink("nowhere", d.join("dangling"))?;
        }
        fs::create_dir(w.repo.join("hooks"))?;
        fs::write(w.repo.join("hooks/x"), TOKEN)?;
        sys::chown_r(&w.repo.join("hooks"), USER, sys::GID)?;
    }
    Ok((w, held, id))
}

fn outside(w: &World) -> Check<Tree> {
    let mut t = tree(&w.top)?;
    t.retain(|p, _| !p.starts_with("repo/lfs"));
    Ok(t)
}

fn run_for(op: Op) -> Run {
    let mut r = Run::new(op.name(), USER);
    r.clock = Some((NOON, 0));
    r
}

/// Run a session, and note all paths it uses.
fn traced(w: &World, op: Op, input: &[u8]) -> Check<(Session, BTreeSet<PathBuf>)> {
    let stdin = sys::memfd(input)?;
    let stdout = sys::memfd(b"")?;
    let stderr = sys::memfd(b"")?;
    let mut s = w.spawn(&run_for(op));
    s.fds = [stdin.0, stdout.0, stderr.0];
    let mut t = Tracee::start(s)?;
    let mut seen = BTreeSet::new();
    let exit = loop {
        match t.next()? {
            Ev::Enter(s) => seen.extend(s.paths),
            Ev::Leave(..) => (),
            Ev::Exit(e) => break e,
        }
    };
    Ok((
        Session {
            exit,
            stdout: sys::read_memfd(&stdout)?,
            stderr: sys::read_memfd(&stderr)?,
        },
        seen,
    ))
}

/// Names of temporary files are random.
fn scrub(b: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i..].starts_with(b".tmp") {
            v.extend(b".tmp");
            i += 4;
            while i < b.len() && b[i].is_ascii_alphanumeric() {
                i += 1;
            }
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    v
}

fn contains(hay: &[u8], needle: &[u8]) -> bool {
    hay.windows(needle.len()).any(|w| w == needle)
}

fn usual(ctx: &mut Ctx) -> Check<BTreeSet<PathBuf>> {
    let mut all = BTreeSet::new();
    let path = B(b"some path".to_vec());
    let put = Req::put(b"contents", &[]);
    let oid = vcore::sha256::hex(b"contents");
    for op in [Op::Upload, Op::Download] {
        let (w, held, _) = build(ctx, 2, true)?;
        let reqs = vec![
            put.clone(),
            put.clone(),
            Req::Get(oid.clone()),
            Req::Verify(oid.clone(), 8),
            Req::Batch(vec![(oid.clone(), 8), (held[0].clone(), 3)], vec![]),
            Req::Lock(path.clone()),
            Req::Lock(path.clone()),
            Req::List(None),
            Req::Lookup(path.clone()),
            Req::Unlock(proto::lock_id(&path)),
            Req::Unlock(proto::lock_id(&path)),
            Req::Get(held[0].clone()),
            Req::Bad("unknown", vec![proto::line("unknown"), Part::Flush]),
        ];
        let (s, seen) = traced(&w, op, &model::encode_all(&reqs))?;
        s.output()?;
        all.extend(seen);
    }
    Ok(all)
}

impl Prop for Names {
    type Case = NamesCase;
    type Ctx = NamesCtx;

    fn id(&self) -> &'static str {
        "P14"
    }
    fn rule(&self) -> &'static str {
        "a name in it leads to an existing file outside of the LFS directory, or to a held lock by another name"
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            300_000
        } else {
            20_000
        }
    }
    fn ctx(&self, worker: usize) -> NamesCtx {
        NamesCtx {
            ctx: Ctx::new(worker),
            usual: None,
        }
    }
    fn gen(&self, s: &mut Src) -> NamesCase {
        let op = if s.chance(1, 3) { Op::Download } else { Op::Upload };
        let n = s.usize(1, 8);
        let asks = (0..n)
            .map(|_| {
                if s.chance(1, 10) {
                    let p = gen::Pools {
                        contents: vec![B(b"an object".to_vec())],
                        paths: 8,
                    };
                    return Ask::Good(match s.below(3) {
                        0 => gen::lock_req(s, &p),
                        1 => gen::get(s, &p),
                        _ => Req::List(None),
                    });
                }
                let k = match op {
                    Op::Upload => s.weighted(&[6, 1, 3, 4, 2, 2, 2, 2, 1]),
                    Op::Download => s.weighted(&[1, 8, 1, 1, 3, 1, 2, 2, 1]),
                };
                match k {
                    0 => {
                        let mut e = evil(s);
                        if s.chance(1, 2) {
                            e.leaf = 0;
                        }
                        Ask::Unlock(e)
                    }
                    1 => Ask::Get(evil(s)),
                    2 => Ask::Verify(evil(s)),
                    3 => {
                        let n = s.below(20) as usize;
                        Ask::Put(evil(s), B(s.bytes(n)))
                    }
                    4 => Ask::Batch(evil(s), s.chance(1, 2)),
                    5 => Ask::Lock(evil(s)),
                    6 => Ask::Lookup(evil(s)),
                    7 => Ask::Cursor(evil(s), if s.chance(1, 2) { Some(s.range(1, 3)) } else { None }),
                    _ => Ask::LookupCursor(evil(s), evil(s)),
                }
            })
            .collect();
        NamesCase {
            op,
            locks: s.usize(1, 4),
            asks,
        }
    }
    fn check(&self, case: &NamesCase, nctx: &mut NamesCtx, out: &mut Outcome) -> Check {
        let ctx = &mut nctx.ctx;
        if nctx.usual.is_none() {
            nctx.usual = Some(usual(ctx)?);
        }
        let usual = nctx.usual.as_ref().unwrap();
        let (w, held, id) = build(ctx, case.locks, true)?;
        let place = Place {
            w: &w,
            held: held.clone(),
            outside: id,
        };
        let mut input = vec![];
        for a in &case.asks {
            input.extend(proto::encode(&place.parts(a)));
        }
        let before = outside(&w)?;
        let (s, seen) = traced(&w, case.op, &input)?;
        // No path may lead outside, except for what is always used.
        for p in &seen {
            let n = normalize(p);
            // Things like these are only of interest if a client asked for them.
            let target = n.starts_with(sys::scratch())
                || [
                    "/etc/shadow",
                    "/etc/hostname",
                    "/root",
                    "/secret",
                    "/config",
                    "/HEAD",
                ]
                .iter()
                .any(|t| n == Path::new(t));
            if target && !n.starts_with(&w.lfs) && !usual.contains(p) {
                violation!("the server used {:?}", p);
            }
        }
        if let Some(d) = diff(&before, &outside(&w)?) {
            violation!("outside of the LFS directory, {}", d);
        }
        let store = Store::read(&w.lfs)?;
        ensure!(
            !contains(&s.stdout, TOKEN.as_bytes()) && !contains(&s.stderr, TOKEN.as_bytes()),
            "the answers contain what is outside of the LFS directory: {:?}",
            B(s.stdout.clone())
        );
        let resps = s.complete(case.asks.len())?;
        let mut m = Model::default();
        m.objects
            .insert(vcore::sha256::hex(b"an object"), B(b"an object".to_vec()));
        for (i, id) in held.iter().enumerate() {
            m.locks.insert(
                id.clone(),
                model::Held {
                    path: format!("held {}", i).into(),
                    uid: USER,
                    time: proto::rfc3339(NOON),
                },
            );
        }
        let who = Who {
            op: case.op,
            uid: USER,
            clock: (NOON, NOON),
        };
        for (a, r) in case.asks.iter().zip(&resps) {
            match a {
                Ask::Good(q) => m.step(&who, q, r)?,
                Ask::Lock(e) => m.step(&who, &Req::Lock(B(place.name(e))), r)?,
                Ask::Lookup(e) => m.step(&who, &Req::Lookup(B(place.name(e))), r)?,
                Ask::Cursor(..) | Ask::LookupCursor(..) => {
                    if r.ok() {
                        for l in model::specs(r)? {
                            match m.locks.get(&l.id) {
                                Some(h) => h.check_spec(&l, &who)?,
                                None => violation!("a lock which is not held is listed: {:?}", l),
                            }
                        }
                    }
                }
                Ask::Unlock(e) => model::refused(
                    r,
                    &format!("unlock of {:?}", B(place.not_held(e))),
                )?,
                a => model::refused(r, &format!("{:?}", place.parts(a)))?,
            }
        }
        m.check_store(&store, true)?;
        // Existence.
        let (w2, _, _) = build(ctx, case.locks, false)?;
        let s2 = w2.run(&run_for(case.op), &input)?;
        ensure!(
            scrub(&s.stdout) == scrub(&s2.stdout) && s.exit == s2.exit,
            "the answers depend on what is outside of the LFS directory: {:?} ({:?}) with it, {:?} ({:?}) without",
            B(s.stdout.clone()),
            s.exit,
            B(s2.stdout.clone()),
            s2.exit
        );
        for a in &case.asks {
            let (kind, e) = match a {
                Ask::Good(_) => continue,
                Ask::Unlock(e) => ("unlock", e),
                Ask::Get(e) => ("get", e),
                Ask::Verify(e) => ("verify", e),
                Ask::Put(e, _) => ("put", e),
                Ask::Batch(e, _) => ("batch", e),
                Ask::Lock(e) => ("lock", e),
                Ask::Lookup(e) => ("lookup", e),
                Ask::Cursor(e, _) => ("cursor", e),
                Ask::LookupCursor(_, e) => ("lookup with cursor", e),
            };
            out.class(kind);
            let n = place.name(e);
            if n.contains(&0) {
                continue;
            }
            let n = PathBuf::from(std::ffi::OsStr::from_bytes(&n));
            for dir in ["locks", "objects", "incomplete"] {
                let p = normalize(&w.lfs.join(dir).join(&n));
                let in_top = p.strip_prefix(&w.top).ok();
                if in_top.map_or(false, |p| before.contains_key(p)) {
                    out.nontrivial = true;
                    out.class("leads outside");
                }
                if p.parent() == Some(&w.lfs.join("locks"))
                    && p.file_name().map_or(false, |f| held.iter().any(|h| h.as_bytes() == f.as_bytes()))
                    && kind == "unlock"
                {
                    out.nontrivial = true;
                    out.class("alias of a held lock");
                }
            }
        }
        out.executions = 2;
        Ok(())
    }
}
