//! Servers which are killed (P09), and system calls which fail (P10).

use crate::gen;
use crate::model::{self, encode_all, valid_put, Held, Model, Op, Req, Who};
use crate::proto;
use crate::store::{tree, Ctx, Kind, Run, Session, Store, World, NOBODY};
use crate::sys::{self, Exit};
use crate::trace::{Ev, Sys, Tracee};
use crate::xfer::NOON;
use std::collections::BTreeSet;
use std::path::Path;
use vcore::{ensure, hash_bytes, mix, violation, Check, Outcome, Prop, Src, Stop, B};

/// A session, and what was there before.
#[derive(Debug)]
pub struct Scene {
    shared: Option<&'static str>,
    umask: u32,
    init: bool,
    objects: Vec<B>,
    locks: Vec<B>,
    op: Op,
    reqs: Vec<Req>,
    /// Whether something which is not a packet follows, so that there is something to be said.
    tail: bool,
    salt: u64,
}

fn scene(s: &mut Src, crash: bool) -> Scene {
    let nc = s.usize(1, 3);
    let contents: Vec<B> = (0..nc)
        .map(|_| {
            let n = match s.weighted(&[5, 2, 1]) {
                0 => s.usize(0, 30),
                1 => s.size(20_000),
                _ => s.size(70_000),
            };
            B(s.blob(n))
        })
        .collect();
    let np = s.usize(1, 4);
    let op = if crash || s.chance(3, 4) {
        Op::Upload
    } else {
        Op::Download
    };
    let p = gen::Pools {
        contents: contents.clone(),
        paths: np,
    };
    let n = s.usize(1, 4);
    let mut reqs: Vec<Req> = (0..n)
        .map(|_| {
            let path = gen::path(s, np);
            match op {
                Op::Upload => match s.weighted(&[5, 5, 4, 2, 1, 1, 1, 1]) {
                    0 => gen::good_put(s, &p),
                    1 => Req::Lock(path),
                    2 => Req::Unlock(proto::lock_id(&path)),
                    3 => Req::List(None),
                    4 => Req::Lookup(path),
                    5 => gen::verify(s, &p),
                    6 => gen::batch(s, &p),
                    _ => gen::any_put(s, &p.contents),
                },
                Op::Download => match s.weighted(&[4, 2, 2, 1]) {
                    0 => gen::get(s, &p),
                    1 => Req::List(None),
                    2 => gen::batch(s, &p),
                    _ => Req::Lookup(path),
                },
            }
        })
        .collect();
    // If a large upload fails in the middle, what has been read of it is not part of the next one.
    if op == Op::Upload && !crash && s.chance(1, 6) {
        let n = s.usize(9_000, 70_000);
        let size = *s.pick(&[65516usize, 65516, 20_000, 9_000]);
        let c = s.blob(n);
        reqs.insert(0, Req::put(&c, &[size]));
        let next = if s.chance(1, 2) {
            let n = s.usize(1, 300);
            Req::put(&s.blob(n), &[65516])
        } else {
            gen::batch(s, &p)
        };
        reqs.insert(1, next);
        reqs.truncate(4);
    }
    // Large invalid uploads take long and add little.
    for r in reqs.iter_mut() {
        if let Req::Put { data, .. } = r {
            data.0.truncate(200_000);
        }
        if let Req::Put { chunks, .. } = r {
            chunks.retain(|c| *c >= 16);
        }
    }
    let mut objects = vec![];
    for c in &contents {
        if s.chance(1, 2) {
            objects.push(c.clone());
        }
    }
    let mut locks = vec![];
    for i in 0..np {
        if s.chance(1, 2) {
            let mut one = Src::replay(vec![i as u64], false);
            locks.push(gen::path(&mut one, np));
        }
    }
    Scene {
        shared: if s.chance(1, 3) { Some("group") } else { None },
        umask: *s.pick(&[0o022u32, 0o022, 0o077, 0o002]),
        init: s.chance(4, 5),
        objects,
        locks,
        op,
        reqs,
        tail: !crash && s.chance(1, 3),
        salt: s.below(1 << 30),
    }
}

const CLOCK: (i64, i64) = (NOON, 0);

impl Scene {
    fn who(&self) -> Who {
        Who {
            op: self.op,
            uid: NOBODY,
            clock: (NOON, NOON),
        }
    }
    fn input(&self) -> Vec<u8> {
        let mut v = encode_all(&self.reqs);
        if self.tail {
            v.extend_from_slice(b"quit");
        }
        v
    }
    fn run(&self) -> Run {
        let mut r = Run::new(self.op.name(), NOBODY);
        r.clock = Some(CLOCK);
        r.umask = self.umask;
        r
    }
    fn files(&self) -> u32 {
        match self.shared {
            Some(_) => 0o660,
            None => 0o666 & !self.umask,
        }
    }
    fn build(&self, ctx: &mut Ctx) -> Check<(World, Model)> {
        let w = World::new(ctx, "w", NOBODY, self.shared)?;
        let mut m = Model::default();
        if self.init || !self.objects.is_empty() || !self.locks.is_empty() {
            let mode = if self.shared.is_some() { 0o770 } else { 0o755 };
            w.init_lfs(mode)?;
            for o in &self.objects {
                let oid = w.add_object(o, mode)?;
                sys::chmod(&w.object_path(&oid), self.files());
                m.objects.insert(oid, o.clone());
            }
            for l in &self.locks {
                let id = w.add_lock(l, NOON - 1000, NOBODY)?;
                m.locks.insert(
                    id,
                    Held {
                        path: l.clone(),
                        uid: NOBODY,
                        time: proto::rfc3339(NOON - 1000),
                    },
                );
            }
        }
        Ok((w, m))
    }

    /// Every object has its final permissions.
    fn check_modes(&self, w: &World) -> Check {
        for (p, n) in tree(&w.lfs.join("objects"))? {
            let name = p.file_name().map(|f| f.to_string_lossy().into_owned());
            if let (Kind::File(_), Some(f)) = (&n.kind, &name) {
                if proto::is_oid(f.as_bytes()) {
                    ensure!(
                        n.mode & 0o666 == self.files(),
                        "object {} has mode {:o}",
                        f,
                        n.mode
                    );
                }
            }
        }
        Ok(())
    }

    /// Carry on with further sessions, which have to work as usual.
    fn carry_on(&self, w: &World, m: &mut Model) -> Check {
        let mut reqs = vec![Req::List(None)];
        let mut paths: Vec<B> = self.locks.clone();
        for q in &self.reqs {
            match q {
                Req::Put {
                    oid, size, data, ..
                } if valid_put(oid, size, data) => {
                    reqs.push(q.clone());
                    reqs.push(Req::Verify(
                        String::from_utf8_lossy(oid).into_owned(),
                        data.len() as u64,
                    ));
                }
                Req::Lock(p) | Req::Lookup(p) => paths.push(p.clone()),
                _ => (),
            }
        }
        paths.sort();
        paths.dedup();
        for p in &paths {
            reqs.push(Req::Lookup(p.clone()));
            reqs.push(Req::Lock(p.clone()));
        }
        reqs.push(Req::Lock(B(b"another path".to_vec())));
        reqs.push(Req::List(None));
        for p in &paths {
            reqs.push(Req::Unlock(proto::lock_id(p)));
        }
        reqs.push(Req::Unlock(proto::lock_id(b"another path")));
        reqs.push(Req::List(None));
        let mut r = Run::upload();
        r.umask = self.umask;
        r.clock = Some(CLOCK);
        let who = Who {
            op: Op::Upload,
            uid: NOBODY,
            clock: (NOON, NOON),
        };
        let s = w.run(&r, &encode_all(&reqs))?;
        m.session(&who, &reqs, &s.complete(reqs.len())?)?;
        let mut reqs: Vec<Req> = m.objects.keys().map(|k| Req::Get(k.clone())).collect();
        reqs.push(Req::List(None));
        r.op = "download".into();
        let s = w.run(&r, &encode_all(&reqs))?;
        let who = Who {
            op: Op::Download,
            ..who
        };
        m.session(&who, &reqs, &s.complete(reqs.len())?)?;
        let st = Store::read(&w.lfs)?;
        m.check_store(&st, false)
    }

    /// The state after each request, if nothing goes wrong.
    fn states(&self, ctx: &mut Ctx) -> Check<(Vec<Model>, usize)> {
        let (w, mut m) = self.build(ctx)?;
        let mut states = vec![m.clone()];
        let s = w.run(&self.run(), &encode_all(&self.reqs))?;
        let resps = s.complete(self.reqs.len())?;
        for (q, r) in self.reqs.iter().zip(&resps) {
            m.step(&self.who(), q, r)?;
            states.push(m.clone());
        }
        m.check_store(&Store::read(&w.lfs)?, true)?;
        Ok((states, s.stdout.len()))
    }
}

pub struct Running {
    pub t: Tracee,
    pub stdout: sys::Fd,
    pub stderr: sys::Fd,
    _stdin: sys::Fd,
}

pub fn start(w: &World, r: &Run, input: &[u8]) -> Check<Running> {
    let stdin = sys::memfd(input)?;
    let stdout = sys::memfd(b"")?;
    let stderr = sys::memfd(b"")?;
    let mut s = w.spawn(r);
    s.fds = [stdin.0, stdout.0, stderr.0];
    Ok(Running {
        t: Tracee::start(s)?,
        stdout,
        stderr,
        _stdin: stdin,
    })
}

/// What is on disk, but for the names of temporary files.
fn fingerprint(w: &World, acked: usize) -> Check<u64> {
    let mut h = hash_bytes(&[acked as u8]);
    for (p, n) in tree(&w.lfs)? {
        let name = p.file_name().map(|f| f.to_string_lossy().into_owned());
        let known = match name {
            Some(f) => proto::is_oid(f.as_bytes()) || matches!(n.kind, Kind::Dir),
            None => true,
        };
        let path = if known {
            p.clone()
        } else {
            p.parent().unwrap_or(Path::new("")).join("temporary")
        };
        h = mix(h ^ hash_bytes(format!("{:?} {:?}", path, n).as_bytes()));
    }
    Ok(h)
}

// ---------------------------------------------------------------------------------------------
// P09

pub struct Crash;

impl Prop for Crash {
    type Case = Scene;
    type Ctx = Ctx;

    fn id(&self) -> &'static str {
        "P09"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn rule(&self) -> &'static str {
        "a session which changes the store, killed at each system call which changes a file or writes output, and halfway through each write"
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            60_000
        } else {
            600
        }
    }
    fn ctx(&self, worker: usize) -> Ctx {
        Ctx::new(worker)
    }
    fn shrink_budget(&self) -> usize {
        150
    }
    fn gen(&self, s: &mut Src) -> Scene {
        scene(s, true)
    }
    fn check(&self, case: &Scene, ctx: &mut Ctx, out: &mut Outcome) -> Check {
        let (states, _) = case.states(ctx)?;
        let input = encode_all(&case.reqs);
        let mut seen = BTreeSet::new();
        let mut kills = 0;
        for point in 0.. {
            let (w, _) = case.build(ctx)?;
            let mut r = start(&w, &case.run(), &input)?;
            let mut n = 0;
            let mut at: Option<(Sys, bool)> = None;
            loop {
                match r.t.next()? {
                    Ev::Exit(_) => break,
                    Ev::Leave(..) => (),
                    Ev::Enter(s) => {
                        if !(s.mutates() && s.under(&w.repo) || s.writes_stdout()) {
                            continue;
                        }
                        let half = matches!(s.nr, libc::SYS_write) && s.args[2] > 1;
                        if n == point {
                            at = Some((s, false));
                            break;
                        }
                        n += 1;
                        if half {
                            if n == point {
                                let len = s.args[2];
                                // Not always in the middle.
                                let l = match mix(case.salt ^ point as u64) % 4 {
                                    0 => 1,
                                    1 => len - 1,
                                    _ => len / 2,
                                };
                                r.t.set_len(l)?;
                                r.t.leave()?;
                                at = Some((s, true));
                                break;
                            }
                            n += 1;
                        }
                    }
                }
            }
            let (s, half) = match at {
                Some(x) => x,
                None => break,
            };
            r.t.kill();
            kills += 1;
            let what = format!(
                "killed {} {}",
                if half { "halfway through" } else { "before" },
                s.brief(&w.lfs)
            );
            out.class(format!(
                "killed {} {}",
                if half { "within" } else { "before" },
                if s.writes_stdout() {
                    "output".into()
                } else {
                    s.name()
                }
            ));
            let o = sys::read_memfd(&r.stdout)?;
            let acked = match proto::parse_output(&o) {
                Ok(o) => o.resps.len(),
                Err(e) => violation!("{}: malformed output: {}", what, e),
            };
            if !seen.insert(fingerprint(&w, acked)?) {
                continue;
            }
            let st = Store::read(&w.lfs)?;
            if let Some(e) = st.corrupt_object() {
                violation!("{}: {}", what, e);
            }
            let tag = |r: Check, how: &str| -> Check {
                match r {
                    Err(Stop::Violation(v)) => violation!("{}{}: {}", what, how, v),
                    r => r,
                }
            };
            tag(case.check_modes(&w), "")?;
            // It is in the state after some number of requests.
            let mut err = None;
            let mut found = None;
            for (j, m) in states.iter().enumerate().skip(acked) {
                match m.check_store(&st, false) {
                    Ok(()) => {
                        found = Some(j);
                        break;
                    }
                    Err(Stop::Violation(v)) => {
                        err.get_or_insert(v);
                    }
                    r => r?,
                }
            }
            let j = match found {
                Some(j) => j,
                None => violation!(
                    "{}, with {} requests answered, the store is in no state it should be in: {}",
                    what,
                    acked,
                    err.unwrap_or_default()
                ),
            };
            tag(
                case.carry_on(&w, &mut states[j].clone()),
                ", in a later session",
            )?;
        }
        out.executions = kills;
        out.nontrivial =
            case.reqs.iter().any(|r| r.mutator()) && states[0] != states[states.len() - 1];
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// P10

pub struct Failures;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Failure {
    Errno(i32),
    /// Only a part is read or written.
    Short,
}

fn failures(s: &Sys) -> Vec<Failure> {
    use libc::*;
    let file = s.fd.map_or(false, |f| f > 2);
    let e: &[i32] = match s.nr {
        SYS_open | SYS_openat | SYS_creat | SYS_openat2 => {
            if s.open_flags() & O_CREAT != 0 {
                &[ENOSPC, EACCES, EMFILE, EIO, EROFS, EDQUOT, ENOMEM]
            } else {
                &[EACCES, EMFILE, ENFILE, EIO, ENOMEM]
            }
        }
        SYS_read | SYS_pread64 | SYS_readv if s.fd != Some(2) => &[EIO, EIO, ENOMEM],
        SYS_write | SYS_writev | SYS_pwrite64 if file => &[ENOSPC, EIO, EDQUOT, EFBIG],
        SYS_write | SYS_writev if matches!(s.fd, Some(1) | Some(2)) => &[EIO, ENOSPC],
        SYS_copy_file_range | SYS_sendfile => &[EIO, ENOSPC],
        SYS_rename | SYS_renameat | SYS_renameat2 => &[ENOSPC, EACCES, EIO, EROFS, EDQUOT],
        SYS_link | SYS_linkat => &[ENOSPC, EACCES, EIO, EPERM, EMLINK, EDQUOT],
        SYS_mkdir | SYS_mkdirat => &[ENOSPC, EACCES, EIO, EROFS, EMLINK, EDQUOT],
        SYS_unlink | SYS_unlinkat | SYS_rmdir => &[EACCES, EIO, EROFS, EPERM, EBUSY],
        SYS_chmod | SYS_fchmod | SYS_fchmodat | 452 => &[EPERM, EIO, EROFS],
        SYS_stat | SYS_lstat | SYS_newfstatat | SYS_statx => &[EIO, EACCES, ENOMEM],
        SYS_fstat => &[EIO, ENOMEM],
        SYS_getdents64 | SYS_getdents => &[EIO, ENOMEM],
        SYS_lseek | SYS_ftruncate | SYS_fsync | SYS_fdatasync if file => &[EIO],
        _ => &[],
    };
    let mut v: Vec<Failure> = e.iter().map(|e| Failure::Errno(*e)).collect();
    if file && matches!(s.nr, SYS_read | SYS_write) && s.args[2] > 1 {
        v.push(Failure::Short);
    }
    v
}

fn errno_name(f: Failure) -> String {
    use libc::*;
    match f {
        Failure::Short => "a short count".into(),
        Failure::Errno(e) => match e {
            ENOSPC => "ENOSPC",
            EACCES => "EACCES",
            EMFILE => "EMFILE",
            ENFILE => "ENFILE",
            EIO => "EIO",
            EROFS => "EROFS",
            EDQUOT => "EDQUOT",
            ENOMEM => "ENOMEM",
            EPERM => "EPERM",
            EMLINK => "EMLINK",
            EBUSY => "EBUSY",
            EFBIG => "EFBIG",
            _ => "another error",
        }
        .into(),
    }
}

/// A state the store may be in.
#[derive(Clone, PartialEq, Eq)]
struct State {
    m: Model,
    /// Whether a request has been refused because of the failure.
    spent: bool,
}

impl Failures {
    /// The system calls of a session which can fail, from the first one in the LFS directory on.
    fn points(w: &World, r: &mut Running) -> Check<Vec<Sys>> {
        let mut v = vec![];
        let mut begun = false;
        loop {
            match r.t.next()? {
                Ev::Exit(_) => return Ok(v),
                Ev::Leave(..) => (),
                Ev::Enter(s) => {
                    begun |= s.under(&w.repo);
                    if begun && !failures(&s).is_empty() {
                        v.push(s);
                    }
                }
            }
        }
    }
}

impl Prop for Failures {
    type Case = Scene;
    type Ctx = Ctx;

    fn id(&self) -> &'static str {
        "P10"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn rule(&self) -> &'static str {
        "a session with a request which needs the store, in which each system call on a file or stream failed once"
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            30_000
        } else {
            450
        }
    }
    fn ctx(&self, worker: usize) -> Ctx {
        Ctx::new(worker)
    }
    fn shrink_budget(&self) -> usize {
        150
    }
    fn gen(&self, s: &mut Src) -> Scene {
        scene(s, false)
    }
    fn check(&self, case: &Scene, ctx: &mut Ctx, out: &mut Outcome) -> Check {
        let input = case.input();
        let (w, _) = case.build(ctx)?;
        let mut r = start(&w, &case.run(), &input)?;
        let points = Failures::points(&w, &mut r)?;
        let mut runs = 0;
        let mut seen = BTreeSet::new();
        for (i, p) in points.iter().enumerate() {
            let mut fs = failures(p);
            // Reading and writing much is the same thing over and over.
            if i > 60 && i + 40 < points.len() && p.file == points[i - 1].file {
                if mix(case.salt ^ i as u64) % 8 != 0 {
                    continue;
                }
            }
            if !vh_thorough() {
                // One or two of them.
                let short = fs.last() == Some(&Failure::Short);
                let k = mix(case.salt ^ (i as u64) << 8) as usize;
                let one = fs[k % (fs.len() - short as usize)];
                fs = if short && k & 64 != 0 {
                    vec![one, Failure::Short]
                } else {
                    vec![one]
                };
            }
            for f in fs {
                runs += 1;
                self.one(case, ctx, out, &input, i, f, &mut seen)?;
            }
        }
        out.executions = runs;
        out.nontrivial = case
            .reqs
            .iter()
            .any(|r| !matches!(r, Req::Version | Req::Bad(..) | Req::Quit));
        Ok(())
    }
}

pub fn vh_thorough() -> bool {
    static T: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *T.get_or_init(|| std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough"))
}

impl Failures {
    #[allow(clippy::too_many_arguments)]
    fn one(
        &self,
        case: &Scene,
        ctx: &mut Ctx,
        out: &mut Outcome,
        input: &[u8],
        point: usize,
        f: Failure,
        seen: &mut BTreeSet<u64>,
    ) -> Check {
        let (w, m) = case.build(ctx)?;
        let mut r = start(&w, &case.run(), input)?;
        let mut n = 0;
        let mut begun = false;
        let hit = loop {
            match r.t.next()? {
                Ev::Exit(_) => break None,
                Ev::Leave(..) => (),
                Ev::Enter(s) => {
                    begun |= s.under(&w.repo);
                    if !begun || failures(&s).is_empty() {
                        continue;
                    }
                    if n == point {
                        break Some(s);
                    }
                    n += 1;
                }
            }
        };
        let s = match hit {
            // It did something else this time.
            None => return Ok(()),
            Some(s) if !failures(&s).contains(&f) => return Ok(()),
            Some(s) => s,
        };
        match f {
            Failure::Errno(e) => r.t.pretend(-(e as i64))?,
            Failure::Short => r.t.set_len((s.args[2] / 2).max(1))?,
        }
        r.t.leave()?;
        let exit = r.t.detach()?;
        let what = format!("{} of {}", errno_name(f), s.brief(&w.lfs));
        out.class(format!(
            "{} of {}{}",
            errno_name(f),
            s.name(),
            match s.fd {
                Some(0) => " from the client",
                Some(1) => " to the client",
                Some(2) => " of a message",
                _ if !s.under(&w.lfs) => " elsewhere",
                _ => "",
            }
        ));
        let ses = Session {
            exit,
            stdout: sys::read_memfd(&r.stdout)?,
            stderr: sys::read_memfd(&r.stderr)?,
        };
        // Looking up the name of the owner may be what failed.
        model::set_anonymous(
            !s.under(&w.lfs)
                || matches!(
                    s.nr,
                    libc::SYS_fstat | libc::SYS_statx | libc::SYS_newfstatat
                ),
        );
        let v = self.judge(case, &w, m, &s, f, &ses);
        model::set_anonymous(false);
        let v = match v {
            Ok(states) => {
                if seen.insert(fingerprint(&w, states.len())?) {
                    // Later sessions are not affected.
                    let mut last = Ok(());
                    for st in states {
                        last = case.carry_on(&w, &mut st.m.clone());
                        if last.is_ok() {
                            break;
                        }
                    }
                    match last {
                        Err(Stop::Violation(v)) => {
                            Err(Stop::Violation(format!("in a later session, {}", v)))
                        }
                        r => r,
                    }
                } else {
                    Ok(())
                }
            }
            Err(e) => Err(e),
        };
        match v {
            Err(Stop::Violation(v)) => violation!("{}: {}", what, v),
            r => r,
        }
    }

    /// Look at the responses, and return the states the store may be in.
    fn judge(
        &self,
        case: &Scene,
        w: &World,
        m: Model,
        s: &Sys,
        f: Failure,
        ses: &Session,
    ) -> Check<Vec<State>> {
        match ses.exit {
            Exit::Code(101) => violation!("the server panicked ({})", ses.describe()),
            Exit::Code(_) => (),
            _ => violation!("the server ended with {}", ses.describe()),
        }
        let o = ses.output()?;
        let n = case.reqs.len();
        ensure!(
            o.resps.len() <= n,
            "{} responses to {} requests",
            o.resps.len(),
            n
        );
        if ses.exit == Exit::Code(0) {
            // If the output could not be written, it cannot have ended as if nothing had happened.
            // If the input could not be read, neither.
            ensure!(
                !case.tail,
                "the server ended with success after a malformed packet"
            );
            ensure!(
                o.greeting && o.rest == 0 && o.resps.len() == n,
                "the server ended with success after {} complete responses to {} requests",
                o.resps.len(),
                n
            );
        }
        let mut states = vec![State {
            m,
            spent: f == Failure::Short,
        }];
        let who = case.who();
        // A lock whose record cannot be opened for lack of permission is left out of listings.
        let unreadable = f == Failure::Errno(libc::EACCES)
            && s.is_open()
            && s.paths.iter().any(|p| p.starts_with(w.lfs.join("locks")));
        for (i, (q, r)) in case.reqs.iter().zip(&o.resps).enumerate() {
            let mut next: Vec<State> = vec![];
            let mut err = None;
            for st in &states {
                let mut m = st.m.clone();
                match m.step(&who, q, r) {
                    Ok(()) => next.push(State { m, spent: st.spent }),
                    Err(Stop::Violation(v)) => {
                        err.get_or_insert(v);
                    }
                    Err(e) => return Err(e),
                }
                if !st.spent && r.refused() {
                    // Not being able to tell is not the same as being told.
                    let told = match q {
                        Req::Get(oid) | Req::Verify(oid, _) => {
                            (r.status == 404 && st.m.objects.contains_key(oid)).then_some("absent")
                        }
                        Req::Lookup(path) => (r.status == 404
                            && st.m.locks.contains_key(&proto::lock_id(path)))
                        .then_some("not locked"),
                        Req::Unlock(id) => {
                            (r.status == 404 && st.m.locks.contains_key(id)).then_some("not locked")
                        }
                        Req::Lock(path) => (r.status == 409
                            && !st.m.locks.contains_key(&proto::lock_id(path)))
                        .then_some("locked"),
                        _ => None,
                    }
                    .map(|t| format!("something is {} which is not: {}, {:?}", t, r.brief(), q));
                    if let (Some(t), Failure::Errno(_)) = (told, f) {
                        err = Some(t);
                        continue;
                    }
                    let mut m = st.m.clone();
                    next.push(State {
                        m: m.clone(),
                        spent: true,
                    });
                    m.apply(&who, q);
                    next.push(State { m, spent: true });
                }
                if !st.spent && unreadable && r.ok() && matches!(q, Req::List(_)) {
                    next.push(State {
                        m: st.m.clone(),
                        spent: true,
                    });
                }
            }
            if next.is_empty() {
                violation!("request {}: {}", i, err.unwrap_or_default());
            }
            let mut uniq: Vec<State> = vec![];
            for s in next {
                if !uniq.contains(&s) {
                    uniq.push(s);
                }
            }
            states = uniq;
        }
        // If it has ended early, the request it ended with may or may not have been carried out.
        if o.resps.len() < n {
            let mut more = vec![];
            for st in &states {
                let mut m = st.m.clone();
                for q in &case.reqs[o.resps.len()..(o.resps.len() + 1).min(n)] {
                    m.apply(&who, q);
                    more.push(State {
                        m: m.clone(),
                        spent: true,
                    });
                }
            }
            states.extend(more);
        }
        let st = Store::read(&w.lfs)?;
        let mut err = None;
        let mut fit = vec![];
        for x in states {
            match x.m.check_store(&st, false) {
                Ok(()) => fit.push(x),
                Err(Stop::Violation(v)) => {
                    err.get_or_insert(v);
                }
                Err(e) => return Err(e),
            }
        }
        if fit.is_empty() {
            violation!(
                "afterwards ({} of {} requests answered), {}",
                o.resps.len(),
                n,
                err.unwrap_or_default()
            );
        }
        case.check_modes(w)?;
        Ok(fit)
    }
}
