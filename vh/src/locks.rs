//! The lock service: P11, P12, P14 (in part), P15, and P18.

use crate::gen;
use crate::model::{self, encode_all, Held, Model, Op, Req, Who};
use crate::proto;
use crate::store::{Ctx, Live, Run, Store, World, NOBODY, USERS};
use crate::xfer::NOON;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use vcore::{ensure, violation, Check, Outcome, Prop, Src, B};

// ---------------------------------------------------------------------------------------------
// P11

pub struct Table;

#[derive(Debug)]
pub struct LockSession {
    uid: u32,
    op: Op,
    clock: (i64, i64),
    umask: u32,
    /// Whether the environment is full of wrong hints at who and where the user is.
    misled: bool,
    reqs: Vec<Req>,
}

/// None of these may have a part in who holds a lock, and since when.
const MISLEADING: [(&str, &str); 12] = [
    ("USER", "mallory"),
    ("LOGNAME", "mallory"),
    ("USERNAME", "mallory"),
    ("SUDO_USER", "mallory"),
    ("SUDO_UID", "12345"),
    ("UID", "12345"),
    ("GIT_AUTHOR_NAME", "mallory"),
    ("GIT_COMMITTER_NAME", "mallory"),
    ("GIT_COMMITTER_DATE", "2001-02-03T04:05:06+0000"),
    ("SOURCE_DATE_EPOCH", "981173106"),
    ("TZ", "Pacific/Kiritimati"),
    ("LANG", "tr_TR.UTF-8"),
];

/// Any path, including some which are too long to be locked.
fn any_path(s: &mut Src, i: usize) -> B {
    match s.weighted(&[6, 3, 1]) {
        0 => gen::path(s, 64),
        1 => {
            let n = s.usize(1, 40);
            let mut b = s.bytes(n);
            b.push(b'a' + i as u8);
            B(b)
        }
        _ => {
            let n = match s.below(6) {
                0 => 65445,
                1 => 65444,
                // Too long to be listed, though not to be asked for.
                2 => 65446,
                3 => 65446 + s.below(65) as usize,
                _ => s.size(65445).max(1),
            };
            B(s.blob(n))
        }
    }
}

fn seconds(s: &mut Src) -> i64 {
    match s.weighted(&[5, 3, 2, 1]) {
        0 => NOON + s.below(1_000_000) as i64,
        1 => *s.pick(&[
            0i64,
            1,
            -1,
            -2,
            59,
            86399,
            86400,
            951_782_399,
            951_868_799,
            2_147_483_647,
            2_147_483_648,
            4_294_967_295,
            4_294_967_296,
            32_503_679_999,
            253_402_300_000,
            -62_135_500_000,
            -86_400,
            -86_401,
        ]),
        2 => s.below(10_000_000_000) as i64,
        _ => -(s.below(60_000_000_000) as i64),
    }
}

impl Prop for Table {
    type Case = Vec<LockSession>;
    type Ctx = Ctx;

    fn id(&self) -> &'static str {
        "P11"
    }
    fn rule(&self) -> &'static str {
        "a lock taken in one session is found or refused in another one, and a lock is released"
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            450_000
        } else {
            27_000
        }
    }
    fn ctx(&self, worker: usize) -> Ctx {
        Ctx::new(worker)
    }
    fn gen(&self, s: &mut Src) -> Vec<LockSession> {
        let n = s.usize(1, 6);
        let mut paths: Vec<B> = (0..n).map(|i| any_path(s, i)).collect();
        if s.chance(1, 3) {
            // Paths which are nearly the same.
            let mut p = paths[0].clone();
            match s.below(3) {
                0 => p.0.push(b'/'),
                1 => p.0.insert(0, b'/'),
                _ => p.0.make_ascii_uppercase(),
            }
            if p.len() <= 65510 {
                paths.push(p);
            }
        }
        let n = s.usize(1, 5);
        (0..n)
            .map(|_| {
                let k = s.usize(1, 8);
                let op = if s.chance(1, 5) {
                    Op::Download
                } else {
                    Op::Upload
                };
                let reqs = (0..k)
                    .map(|_| {
                        let p = s.pick(&paths).clone();
                        match s.weighted(&[6, 4, 2, 3, 1]) {
                            0 => Req::Lock(p),
                            1 => Req::Unlock(proto::lock_id(&p)),
                            2 => Req::List(if s.chance(1, 3) {
                                Some(s.range(1, 8))
                            } else {
                                None
                            }),
                            3 => Req::Lookup(p),
                            _ => gen::bad(s),
                        }
                    })
                    .collect();
                let step = *s.pick(&[0i64, 0, 1, 1, 7, 3600, -1, 86400]);
                LockSession {
                    uid: *s.pick(&[USERS[0], USERS[1], USERS[2], USERS[3], 5432, 543210]),
                    op,
                    // Stay between the years 1 and 9999, which are the ones which have a notation.
                    clock: (
                        seconds(s).clamp(
                            -62_135_596_800 + 20 * 10 * 86_400,
                            253_402_300_799 - 20 * 10 * 86_400 * (step > 1) as i64,
                        ),
                        step,
                    ),
                    umask: *s.pick(&[0o022, 0o002, 0o077, 0]),
                    misled: s.chance(1, 3),
                    reqs,
                }
            })
            .collect()
    }
    fn check(&self, case: &Vec<LockSession>, ctx: &mut Ctx, out: &mut Outcome) -> Check {
        let mut w = World::new(ctx, "w", NOBODY, Some("group"))?;
        let mut m = Model::default();
        let mut earlier: BTreeSet<String> = BTreeSet::new();
        let (mut found, mut released) = (false, false);
        for (i, x) in case.iter().enumerate() {
            let mut r = Run::new(x.op.name(), x.uid);
            r.clock = Some(x.clock);
            r.umask = x.umask;
            // The clock may be read any number of times, within reason.
            let far = x.clock.0 + x.clock.1 * 20 * (x.reqs.len() as i64 + 1);
            let who = Who {
                op: x.op,
                uid: x.uid,
                clock: (x.clock.0.min(far), x.clock.0.max(far)),
            };
            w.env = match x.misled {
                true => MISLEADING.iter().map(|(k, v)| (*k, v.into())).collect(),
                false => vec![],
            };
            let s = w.run(&r, &encode_all(&x.reqs))?;
            let resps = match s.complete(x.reqs.len()) {
                Err(vcore::Stop::Violation(v)) => violation!("session {}: {}", i, v),
                r => r?,
            };
            for (q, a) in x.reqs.iter().zip(&resps) {
                match q {
                    Req::Lock(p) if a.status == 409 => {
                        let id = proto::lock_id(p);
                        found |= earlier.contains(&id);
                        out.class(match m.locks.get(&id) {
                            Some(h) if h.uid != x.uid => "conflict with another user",
                            _ => "conflict with oneself",
                        });
                    }
                    Req::Lock(_) => out.class("lock"),
                    Req::Unlock(id) if a.ok() => {
                        released = true;
                        out.class(match m.locks.get(id) {
                            Some(h) if h.uid != x.uid => "release of another user's lock",
                            _ => "release of one's own lock",
                        });
                    }
                    Req::Unlock(_) => out.class("release of what is not locked"),
                    Req::List(_) => {
                        found |= !earlier.is_empty();
                        let ours = m.locks.values().any(|h| h.uid == x.uid);
                        let theirs = m.locks.values().any(|h| h.uid != x.uid);
                        out.class(match (ours, theirs) {
                            (true, true) => "list with locks of several users",
                            (false, false) => "list without locks",
                            _ => "list with locks of one user",
                        });
                    }
                    Req::Lookup(p) => {
                        let hit = m.locks.contains_key(&proto::lock_id(p));
                        found |= hit;
                        out.class(if hit {
                            "lookup of a lock"
                        } else {
                            "lookup of no lock"
                        });
                    }
                    _ => (),
                }
                if let Err(vcore::Stop::Violation(v)) = m.step(&who, q, a) {
                    violation!("session {}: {}", i, v);
                }
            }
            if x.clock.0 < 0 {
                out.class("before 1970");
            }
            earlier = m.locks.keys().cloned().collect();
        }
        out.executions = case.len() as u64;
        out.nontrivial = found && released;
        m.check_store(&Store::read(&w.lfs)?, true)
    }
}

// ---------------------------------------------------------------------------------------------
// P12

pub struct Paging;

#[derive(Debug)]
pub enum Change {
    Create(usize),
    Release(usize),
    /// Release the lock which the cursor is about to refer to, the n-th from it on.
    ReleaseNear(usize),
}

#[derive(Debug)]
pub struct PagingCase {
    locks: usize,
    salt: u64,
    limit: Option<u64>,
    /// One session for all pages, or one for each.
    live: bool,
    op: Op,
    /// What happens after each page.
    changes: Vec<Vec<Change>>,
    bad_limits: Vec<&'static str>,
}

impl Prop for Paging {
    type Case = PagingCase;
    type Ctx = Ctx;

    fn id(&self) -> &'static str {
        "P12"
    }
    fn rule(&self) -> &'static str {
        "the listing has at least two pages"
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            180_000
        } else {
            12_500
        }
    }
    fn ctx(&self, worker: usize) -> Ctx {
        Ctx::new(worker)
    }
    fn gen(&self, s: &mut Src) -> PagingCase {
        let limit = match s.weighted(&[3, 4, 2, 2]) {
            0 => None,
            1 => Some(s.range(1, 12)),
            2 => Some(s.range(90, 110)),
            _ => Some(*s.pick(&[100u64, 99, 101, 200, 1000, 1 << 32, 1 << 40])),
        };
        let page = limit.unwrap_or(100).min(100);
        // Numbers of locks around multiples of the page size.
        let locks = match s.weighted(&[2, 3]) {
            0 => s.below(6 * page.min(40) + 2),
            _ => {
                let k = s.range(0, if page > 50 { 3 } else { 6 });
                (page * k + s.below(3)).saturating_sub(1)
            }
        } as usize;
        let n = if s.chance(1, 2) { s.usize(1, 8) } else { 0 };
        let changes = (0..n)
            .map(|_| {
                (0..s.usize(0, 3))
                    .map(|_| match s.below(3) {
                        0 => Change::Create(1000 + s.below(1000) as usize),
                        1 => Change::Release(s.below(1 << 20) as usize),
                        _ => Change::ReleaseNear(s.below(4) as usize),
                    })
                    .collect()
            })
            .collect();
        let bad = [
            "0", "-1", "x", "", " 5", "5 ", "1.5", "0x10", "1,0", "00", "five", "\u{0661}", "5\n",
            "1e2", "-0",
        ];
        PagingCase {
            locks,
            salt: s.below(1 << 30),
            limit,
            live: s.chance(1, 2),
            op: if s.chance(1, 2) {
                Op::Upload
            } else {
                Op::Download
            },
            changes,
            bad_limits: (0..s.usize(0, 2)).map(|_| *s.pick(&bad)).collect(),
        }
    }
    fn check(&self, case: &PagingCase, ctx: &mut Ctx, out: &mut Outcome) -> Check {
        let w = World::new(ctx, "w", NOBODY, None)?;
        w.init_lfs(0o755)?;
        let name = |i: usize| format!("path {} {}", case.salt, i).into_bytes();
        let mut held: BTreeMap<String, B> = BTreeMap::new();
        for i in 0..case.locks {
            let id = w.add_lock(&name(i), NOON, NOBODY)?;
            held.insert(id, B(name(i)));
        }
        // Locks which have been there all the time have to be seen exactly once, and all others
        // at most once.
        let mut stable: BTreeSet<String> = held.keys().cloned().collect();
        let mut ever: BTreeMap<String, B> = held.clone();
        let mut seen: BTreeMap<String, usize> = BTreeMap::new();
        let mut order: Vec<String> = vec![];
        let page_size = case.limit.unwrap_or(100).min(100) as usize;
        let run = Run::new(case.op.name(), NOBODY);
        let mut live = if case.live {
            Some(Live::start(&w, &run)?)
        } else {
            None
        };
        let mut ask = |args: &[(&str, &[u8])]| -> Check<proto::Resp> {
            let q = proto::list(args);
            match &mut live {
                Some(l) => l.request(&q),
                None => Ok(w.session(&run, &[q])?.remove(0)),
            }
        };
        for l in &case.bad_limits {
            let r = ask(&[("limit", l.as_bytes())])?;
            model::refused(&r, &format!("a limit of {:?}", l))?;
        }
        let limit = case.limit.map(|l| l.to_string());
        let mut cursor: Option<B> = None;
        let mut pages = 0;
        loop {
            let mut args: Vec<(&str, &[u8])> = vec![];
            if let Some(l) = &limit {
                args.push(("limit", l.as_bytes()));
            }
            if let Some(c) = &cursor {
                args.push(("cursor", c));
            }
            let before: BTreeSet<String> = held.keys().cloned().collect();
            let r = ask(&args)?;
            model::success(&r, 200, "listing the locks")?;
            let specs = model::specs(&r)?;
            ensure!(
                specs.len() <= page_size,
                "a page holds {} locks, but the limit is {}",
                specs.len(),
                page_size
            );
            for s in &specs {
                ensure!(
                    before.contains(&s.id) && ever.get(&s.id) == Some(&s.path),
                    "a lock which is not held is listed: {:?}",
                    s
                );
                let n = seen.entry(s.id.clone()).or_insert(0);
                *n += 1;
                ensure!(
                    *n == 1,
                    "page {} lists lock {} again, with a limit of {:?} and {} locks",
                    pages + 1,
                    s.id,
                    case.limit,
                    held.len()
                );
                order.push(s.id.clone());
            }
            pages += 1;
            let next = model::args(&r)?.get("next-cursor").cloned();
            match next {
                None => break,
                Some(c) => {
                    ensure!(
                        !specs.is_empty(),
                        "an empty page has a successor, {:?}, with a limit of {:?}",
                        c,
                        case.limit
                    );
                    cursor = Some(c);
                }
            }
            ensure!(
                pages <= ever.len() + 2,
                "the listing does not end after {} pages",
                pages
            );
            if let Some(ch) = case.changes.get(pages - 1) {
                for c in ch {
                    match c {
                        Change::Create(i) => {
                            if !ever.contains_key(&proto::lock_id(&name(*i))) {
                                let id = w.add_lock(&name(*i), NOON, NOBODY)?;
                                ever.insert(id.clone(), B(name(*i)));
                                held.insert(id, B(name(*i)));
                                out.class("created between pages");
                            }
                        }
                        Change::Release(_) | Change::ReleaseNear(_) => {
                            let ids: Vec<&String> = held.keys().collect();
                            let id = match (c, &cursor) {
                                (Change::ReleaseNear(k), Some(c)) => {
                                    // From the last one shown on.
                                    let at =
                                        ids.iter().position(|i| i.as_bytes() >= &c[..]).unwrap_or(0);
                                    ids.get((at + k).saturating_sub(1))
                                }
                                (Change::Release(k), _) if !ids.is_empty() => {
                                    ids.get(k % ids.len())
                                }
                                _ => None,
                            };
                            if let Some(id) = id {
                                let id = id.to_string();
                                fs::remove_file(w.lfs.join("locks").join(&id))?;
                                stable.remove(&id);
                                held.remove(&id);
                                out.class(if cursor.as_ref().map(|c| &c.0[..])
                                    == Some(id.as_bytes())
                                {
                                    "the lock named by the cursor released"
                                } else {
                                    "released between pages"
                                });
                            }
                        }
                    }
                }
            }
        }
        if let Some(l) = live {
            l.finish()?;
        }
        for id in &stable {
            ensure!(
                seen.contains_key(id),
                "lock {} was held all the time, but is on none of the {} pages (limit {:?}, {} locks at the beginning)",
                id,
                pages,
                case.limit,
                case.locks
            );
        }
        // The order is the same another time.
        if case.changes.is_empty() && pages > 1 {
            let mut again: Vec<String> = vec![];
            let mut cursor: Option<B> = None;
            for _ in 0..pages + 2 {
                let mut args: Vec<(&str, &[u8])> = vec![("limit", b"7")];
                if let Some(c) = &cursor {
                    args.push(("cursor", c));
                }
                let r = w.session(&run, &[proto::list(&args)])?.remove(0);
                model::success(&r, 200, "listing the locks")?;
                again.extend(model::specs(&r)?.into_iter().map(|s| s.id));
                match model::args(&r)?.get("next-cursor") {
                    Some(c) => cursor = Some(c.clone()),
                    None => break,
                }
            }
            // A listing for a path starts at the cursor as well.
            let mut args: Vec<(&str, &[u8])> = vec![("limit", b"7")];
            let r = w.session(&run, &[proto::list(&args)])?.remove(0);
            let first = model::specs(&r)?;
            if let Some(c) = model::args(&r)?.get("next-cursor") {
                args[0].1 = b"100";
                args.push(("cursor", c));
                let r = w.session(&run, &[proto::list(&args)])?.remove(0);
                model::success(&r, 200, "listing the locks")?;
                let rest = model::specs(&r)?;
                let some = |v: &[proto::LockSpec], shown: bool| -> Vec<(String, Vec<u8>, bool)> {
                    let f = v.first().into_iter().chain(v.last());
                    f.map(|l| (l.id.clone(), l.path.0.clone(), shown)).collect()
                };
                for (id, path, shown) in some(&first, false).into_iter().chain(some(&rest, true)) {
                    let args: [(&str, &[u8]); 2] = [("path", &path), ("cursor", c)];
                    let r = w.session(&run, &[proto::list(&args)])?.remove(0);
                    let there = r.ok() && model::specs(&r)?.iter().any(|s| s.id == id);
                    ensure!(
                        there == shown,
                        "listing from {:?} {} lock {}, but listing its path from there does{}: {}",
                        c,
                        if shown { "shows" } else { "doesn't show" },
                        id,
                        if there { "" } else { "n't" },
                        r.brief()
                    );
                }
                out.class("a path listed from a cursor");
            }
            let n = again.len().min(order.len());
            ensure!(
                again[..n] == order[..n],
                "the order of locks depends on the limit"
            );
        }
        out.class(match pages {
            1 => "one page",
            2 => "two pages",
            3..=5 => "three to five pages",
            _ => "more than five pages",
        });
        out.class(match case.limit {
            None => "no limit given",
            Some(l) if l > 100 => "limit above 100",
            Some(_) => "limit up to 100",
        });
        if case.locks > 0 && case.locks % page_size == 0 {
            out.class("last page full");
        }
        out.executions = pages as u64;
        out.nontrivial = pages > 1;
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// P18

pub struct Foreign;

#[derive(Debug, Clone)]
pub enum Junk {
    File(B, B, u32),
    Dir(B),
    Link(B, B),
}

#[derive(Debug)]
pub struct ForeignCase {
    valid: Vec<(B, i64)>,
    /// Paths whose record is damaged, and how.
    damaged: Vec<(B, Junk)>,
    junk: Vec<Junk>,
    op: Op,
    reqs: Vec<Req>,
}

/// The contents of a file which is not a lock record for the path.
fn not_a_record(s: &mut Src, path: &[u8]) -> B {
    let time = |t: &str| -> B {
        let mut v = format!("v1:{}:", t).into_bytes();
        v.extend_from_slice(path);
        B(v)
    };
    let good = time("1600000000");
    match s.below(12) {
        0 => B(vec![]),
        1 => {
            // Truncated, but not to another valid record: those have to have two colons.
            let n = s.usize(0, 13);
            B(good[..n.min(13)].to_vec())
        }
        2 => time(*s.pick(&[
            "9223372036854775807",
            "-9223372036854775808",
            "99999999999999999",
            "8210298412800000",
            "9999999999999999",
            "-99999999999999999",
        ])),
        3 => time(*s.pick(&[
            "",
            "x",
            "1.5",
            " 5",
            "5 ",
            "0x5",
            "99999999999999999999999999",
            "1600000000\n",
            "\u{661}",
            "--5",
            "1e9",
        ])),
        4 => {
            let mut v = good.0.clone();
            let k = *s.pick(&[&b"v0"[..], b"v2", b"V1", b"v11", b"", b"1", b"v", b"\xff1"]);
            v.splice(0..2, k.iter().copied());
            B(v)
        }
        5 => {
            let n = s.size(300);
            B(s.blob(n))
        }
        6 => {
            // A valid record for another path.
            let mut v = good.0.clone();
            v.push(b'x');
            B(v)
        }
        7 => {
            let mut v = good.0.clone();
            v.push(b'\n');
            B(v)
        }
        8 => {
            // A byte of the path is wrong.
            let mut v = good.0.clone();
            let i = 14 + s.below(path.len().max(1) as u64) as usize;
            if i < v.len() {
                v[i] ^= 1;
            } else {
                v.push(b'y');
            }
            B(v)
        }
        9 => B(vec![0; s.usize(1, 5000)]),
        10 => {
            let mut v = b"\xef\xbb\xbf".to_vec();
            v.extend_from_slice(&good);
            B(v)
        }
        _ => {
            let n = s.size(300_000);
            B(vec![b'v'; n])
        }
    }
}

fn record(path: &[u8], t: i64) -> B {
    let mut v = format!("v1:{}:", t).into_bytes();
    v.extend_from_slice(path);
    B(v)
}

fn junk(s: &mut Src, paths: &[B]) -> Junk {
    let p = s.pick(paths).clone();
    let id = proto::lock_id(&p);
    let other = gen::hex64(s);
    // None of these names is that of a lock on one of the paths.
    let name: B = match s.below(14) {
        0 => format!("{}.lock", id).into(),
        1 => format!(".tmp{}.lock", &id[..6]).into(),
        2 => id.to_uppercase().into(),
        3 => format!("{}x", id).into(),
        4 => format!("{}", &id[1..]).into(),
        5 => format!(".{}", id).into(),
        6 => other.into(),
        7 => {
            let n = s.usize(1, 20);
            let mut b: Vec<u8> = s
                .bytes(n)
                .into_iter()
                .map(|c| if c == 0 || c == b'/' { b'_' } else { c })
                .collect();
            b.push(0xff);
            B(b)
        }
        8 => format!("{}~", id).into(),
        9 => format!(" {}", id).into(),
        10 => format!("{}\n", id).into(),
        11 => "README".into(),
        12 => "0".into(),
        _ => format!("zz{}", &id[2..]).into(),
    };
    match s.weighted(&[8, 2, 2]) {
        0 => {
            let c = match s.below(3) {
                0 => record(&p, NOON - 5),
                1 => not_a_record(s, &p),
                _ => record(b"something else", NOON - 5),
            };
            Junk::File(name, c, *s.pick(&[0o644, 0o664, 0o600, 0o000, 0o444]))
        }
        1 => Junk::Dir(name),
        _ => {
            let t: B = match s.below(3) {
                0 => "nowhere".into(),
                1 => "/nonexistent/dir/file".into(),
                _ => "..".into(),
            };
            Junk::Link(name, t)
        }
    }
}

impl Prop for Foreign {
    type Case = ForeignCase;
    type Ctx = Ctx;

    fn id(&self) -> &'static str {
        "P18"
    }
    fn rule(&self) -> &'static str {
        "there are both locks and other files, and a lock is listed, taken or released"
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            600_000
        } else {
            64_000
        }
    }
    fn ctx(&self, worker: usize) -> Ctx {
        Ctx::new(worker)
    }
    fn gen(&self, s: &mut Src) -> ForeignCase {
        let n = s.usize(2, 6);
        let mut paths: Vec<B> = vec![];
        for _ in 0..n {
            let p = gen::path(s, 32);
            if !paths.contains(&p) {
                paths.push(p);
            }
        }
        let mut valid = vec![];
        let mut damaged = vec![];
        for p in &paths {
            match s.weighted(&[2, 2, 2]) {
                0 => {
                    let t = match s.below(4) {
                        0 => -5,
                        1 => 0,
                        2 => 253_402_300_799,
                        _ => NOON - 77,
                    };
                    valid.push((p.clone(), t));
                }
                1 => {
                    let id: B = proto::lock_id(p).into();
                    let j = match s.weighted(&[8, 1, 1, 1]) {
                        0 => Junk::File(id, not_a_record(s, p), 0o664),
                        1 => Junk::Dir(id),
                        2 => Junk::Link(id, "nowhere".into()),
                        _ => Junk::File(id, record(p, NOON - 5), 0o000),
                    };
                    damaged.push((p.clone(), j));
                }
                _ => (),
            }
        }
        let n = s.usize(0, 6);
        let junk = (0..n).map(|_| junk(s, &paths)).collect();
        let k = s.usize(1, 8);
        let reqs = (0..k)
            .map(|_| {
                let p = s.pick(&paths).clone();
                match s.weighted(&[4, 4, 3, 3]) {
                    0 => Req::Lock(p),
                    1 => Req::Unlock(proto::lock_id(&p)),
                    2 => Req::list(),
                    _ => Req::Lookup(p),
                }
            })
            .collect();
        ForeignCase {
            valid,
            damaged,
            junk,
            op: if s.chance(1, 6) {
                Op::Download
            } else {
                Op::Upload
            },
            reqs,
        }
    }
    fn check(&self, case: &ForeignCase, ctx: &mut Ctx, out: &mut Outcome) -> Check {
        use std::ffi::OsStr;
        use std::os::unix::ffi::OsStrExt;
        let w = World::new(ctx, "w", NOBODY, None)?;
        w.init_lfs(0o755)?;
        let mut m = Model::default();
        for (p, t) in &case.valid {
            let id = w.add_lock(p, *t, NOBODY)?;
            m.locks.insert(
                id,
                Held {
                    path: p.clone(),
                    uid: NOBODY,
                    time: proto::rfc3339(*t),
                },
            );
        }
        let dir = w.lfs.join("locks");
        let put = |j: &Junk| -> Check<bool> {
            let name = match j {
                Junk::File(n, ..) | Junk::Dir(n) | Junk::Link(n, _) => n,
            };
            let p = dir.join(OsStr::from_bytes(name));
            if fs::symlink_metadata(&p).is_ok() {
                return Ok(false);
            }
            match j {
                Junk::File(_, d, mode) => {
                    fs::write(&p, &d.0)?;
                    crate::sys::chmod(&p, *mode);
                }
                Junk::Dir(_) => {
                    fs::create_dir(&p)?;
                    fs::write(p.join("file"), b"v1:5:x")?;
                }
                Junk::Link(_, t) => std::os::unix::fs::symlink(OsStr::from_bytes(t), &p)?,
            }
            crate::sys::chown(&p, NOBODY, crate::sys::GID)?;
            Ok(true)
        };
        for (p, j) in &case.damaged {
            put(j)?;
            m.damaged.push(proto::lock_id(p));
            out.class(match j {
                Junk::File(_, _, 0) => "a lock's record is unreadable",
                Junk::File(..) => "a lock's record is damaged",
                Junk::Dir(_) => "a directory instead of a lock's record",
                Junk::Link(..) => "a dangling link instead of a lock's record",
            });
        }
        for j in &case.junk {
            if put(j)? {
                out.class(match j {
                    Junk::File(_, _, 0) => "unreadable file",
                    Junk::File(..) => "other file",
                    Junk::Dir(_) => "other directory",
                    Junk::Link(..) => "other link",
                });
            }
        }
        let s = w.run(&crate::xfer::run_for(case.op), &encode_all(&case.reqs))?;
        let resps = s.complete(case.reqs.len())?;
        for (q, r) in case.reqs.iter().zip(&resps) {
            let d = match q {
                Req::Lock(p) | Req::Lookup(p) => m.damaged.contains(&proto::lock_id(p)),
                Req::Unlock(id) => m.damaged.contains(id),
                _ => false,
            };
            out.class(format!(
                "{}{} {}",
                q.kind(),
                if d { " on a damaged record" } else { "" },
                if r.ok() { "succeeds" } else { "is refused" }
            ));
            let some = !case.damaged.is_empty() || !case.junk.is_empty();
            out.nontrivial |= r.ok() && some && !case.valid.is_empty();
        }
        m.session(&crate::xfer::who(case.op), &case.reqs, &resps)?;
        // The locks on disk are the ones which are held.
        let st = Store::read(&w.lfs)?;
        let wrong: Vec<&String> = st
            .locks
            .keys()
            .filter(|id| !m.locks.contains_key(*id) && !m.damaged.contains(id))
            .collect();
        ensure!(
            wrong.is_empty(),
            "locks on disk which are not held: {:?}",
            wrong
        );
        for id in m.locks.keys() {
            ensure!(
                st.locks.contains_key(id),
                "lock {} is held, but has no record",
                id
            );
        }
        Ok(())
    }
}
