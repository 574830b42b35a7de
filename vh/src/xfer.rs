//! Transfers, framing, and hostile input: P03 to P08.

use crate::gen;
use crate::model::{self, encode_all, refused, Model, Op, Req, Who};
use crate::proto::{self, Part};
use crate::store::{self, Ctx, Run, Store, World, NOBODY};
use crate::sys::{self, Exit};
use vcore::{ensure, sha256, violation, Check, Outcome, Prop, Src, B};

/// The time at which sessions take place unless a check is about time.
pub const NOON: i64 = 1_600_000_000;

pub fn who(op: Op) -> Who {
    Who {
        op,
        uid: NOBODY,
        clock: (NOON, NOON),
    }
}

pub fn run_for(op: Op) -> Run {
    let mut r = Run::new(op.name(), NOBODY);
    r.clock = Some((NOON, 0));
    r
}

/// Run one session of well-framed requests, and check it against the model.
pub fn session(w: &World, m: &mut Model, op: Op, reqs: &[Req]) -> Check {
    let s = w.run(&run_for(op), &encode_all(reqs))?;
    let resps = s.complete(reqs.len())?;
    m.session(&who(op), reqs, &resps)
}

fn size_class(n: usize) -> &'static str {
    match n {
        0 => "empty object",
        1..=8191 => "object below 8 KiB",
        8192..=65515 => "object below a packet",
        _ => "object of several packets",
    }
}

fn classes(out: &mut Outcome, reqs: &[Req]) {
    for r in reqs {
        out.class(match r {
            Req::Bad(w, _) => format!("refused: {}", w),
            r => r.kind().to_string(),
        });
        if let Req::Put { data, chunks, .. } = r {
            out.class(size_class(data.len()));
            if chunks.contains(&0) {
                out.class("empty packets");
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// P03

pub struct Uploads;

#[derive(Debug)]
pub struct UploadCase {
    existing: Vec<B>,
    sessions: Vec<Vec<Req>>,
}

impl Prop for Uploads {
    type Case = UploadCase;
    type Ctx = Ctx;

    fn id(&self) -> &'static str {
        "P03"
    }
    fn rule(&self) -> &'static str {
        "at least one valid and one invalid upload of a non-empty object"
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            360_000
        } else {
            27_000
        }
    }
    fn ctx(&self, worker: usize) -> Ctx {
        Ctx::new(worker)
    }
    fn gen(&self, s: &mut Src) -> UploadCase {
        let n = s.usize(0, 2);
        let existing: Vec<B> = (0..n).map(|_| gen::content(s)).collect();
        let mut pool = existing.clone();
        let n = s.usize(1, 3);
        let sessions = (0..n)
            .map(|_| {
                let n = s.usize(1, 5);
                (0..n)
                    .map(|_| {
                        let r = gen::any_put(s, &pool);
                        if let Req::Put { data, .. } = &r {
                            pool.push(data.clone());
                        }
                        r
                    })
                    .collect()
            })
            .collect();
        UploadCase { existing, sessions }
    }
    fn check(&self, case: &UploadCase, ctx: &mut Ctx, out: &mut Outcome) -> Check {
        let w = World::new(ctx, "w", NOBODY, None)?;
        w.init_lfs(0o755)?;
        let mut m = Model::default();
        for d in &case.existing {
            let oid = w.add_object(d, 0o755)?;
            m.objects.insert(oid, d.clone());
        }
        let (mut good, mut bad) = (false, false);
        for reqs in &case.sessions {
            classes(out, reqs);
            for r in reqs {
                if let Req::Put {
                    oid, size, data, ..
                } = r
                {
                    let valid = model::valid_put(oid, size, data);
                    if !data.is_empty() {
                        good |= valid;
                        bad |= !valid;
                    }
                    let right = sha256::hex(data).as_bytes() == &oid[..];
                    let sized = data.len().to_string().as_bytes() == &size[..];
                    out.class(match (valid, right, sized) {
                        (true, _, _) => "valid",
                        (_, true, false) => "wrong size only",
                        (_, false, true) => {
                            if proto::is_oid(oid) {
                                "wrong content only"
                            } else {
                                "malformed ID only"
                            }
                        }
                        _ => "wrong in two ways",
                    });
                    if let Some(d) = m.objects.get(&String::from_utf8_lossy(oid).into_owned()) {
                        out.class(if valid {
                            "valid upload over a stored object"
                        } else if d != data {
                            "other content over a stored object"
                        } else {
                            "same content over a stored object, wrong size"
                        });
                    }
                }
            }
            session(&w, &mut m, Op::Upload, reqs)?;
            m.check_store(&Store::read(&w.lfs)?, true)?;
        }
        out.executions = case.sessions.len() as u64;
        out.nontrivial = good && bad;
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// P04

pub struct Transfers;

#[derive(Debug)]
pub struct History {
    pub sessions: Vec<(Op, Vec<Req>)>,
}

impl Prop for Transfers {
    type Case = History;
    type Ctx = Ctx;

    fn id(&self) -> &'static str {
        "P04"
    }
    fn rule(&self) -> &'static str {
        "an object is uploaded, and later downloaded, verified or found by a batch request"
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            300_000
        } else {
            24_000
        }
    }
    fn ctx(&self, worker: usize) -> Ctx {
        Ctx::new(worker)
    }
    fn gen(&self, s: &mut Src) -> History {
        let p = gen::pools(s);
        let n = s.usize(1, 4);
        let mut sessions = vec![];
        for i in 0..n {
            let op = if i == 0 || s.chance(1, 3) {
                Op::Upload
            } else {
                Op::Download
            };
            let k = s.usize(1, 6);
            let reqs = (0..k)
                .map(|_| {
                    if op == Op::Upload {
                        match s.weighted(&[5, 1, 3, 3]) {
                            0 => gen::good_put(s, &p),
                            1 => gen::any_put(s, &p.contents),
                            2 => gen::verify(s, &p),
                            _ => gen::batch(s, &p),
                        }
                    } else {
                        match s.weighted(&[3, 2]) {
                            0 => gen::get(s, &p),
                            _ => gen::batch(s, &p),
                        }
                    }
                })
                .collect();
            let mut reqs: Vec<Req> = reqs;
            if s.chance(1, 60) {
                match gen::long(s, &p) {
                    Req::Bad(..) => (),
                    Req::Put { .. } if op == Op::Download => (),
                    r => reqs.push(r),
                }
            }
            sessions.push((op, reqs));
        }
        History { sessions }
    }
    fn check(&self, case: &History, ctx: &mut Ctx, out: &mut Outcome) -> Check {
        let w = World::new(ctx, "w", NOBODY, None)?;
        let mut m = Model::default();
        let mut found = false;
        for (op, reqs) in &case.sessions {
            classes(out, reqs);
            for (i, r) in reqs.iter().enumerate() {
                // What is known before the session, or uploaded before in it.
                let known = |oid: &String| {
                    m.objects.contains_key(oid)
                        || reqs[..i].iter().any(|q| match q {
                            Req::Put { oid: o, .. } => o.0 == oid.as_bytes(),
                            _ => false,
                        })
                };
                let hit = match r {
                    Req::Get(o) | Req::Verify(o, _) => known(o),
                    Req::Batch(v, _) => {
                        if v.len() > 20 {
                            out.class("large batch");
                        }
                        if v.len() > 1000 {
                            out.class("batch of more than 1000 objects");
                        }
                        v.iter().any(|x| known(&x.0))
                    }
                    _ => continue,
                };
                found |= hit;
                out.class(format!(
                    "{} of {} object",
                    r.kind(),
                    if hit { "a stored" } else { "no" }
                ));
            }
            session(&w, &mut m, *op, reqs)?;
        }
        out.executions = case.sessions.len() as u64;
        out.nontrivial = found;
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// P05

pub struct InStep;

#[derive(Debug)]
pub struct StepCase {
    op: Op,
    objects: Vec<B>,
    locks: Vec<B>,
    reqs: Vec<Req>,
}

fn fill(w: &World, m: &mut Model, objects: &[B], locks: &[B]) -> Check {
    w.init_lfs(0o755)?;
    for d in objects {
        let oid = w.add_object(d, 0o755)?;
        m.objects.insert(oid, d.clone());
    }
    for p in locks {
        let id = w.add_lock(p, NOON - 1000, NOBODY)?;
        m.locks.insert(
            id,
            model::Held {
                path: p.clone(),
                uid: NOBODY,
                time: proto::rfc3339(NOON - 1000),
            },
        );
    }
    Ok(())
}

fn subset<T: Clone>(s: &mut Src, v: &[T]) -> Vec<T> {
    v.iter().filter(|_| s.chance(1, 2)).cloned().collect()
}

fn some_locks(s: &mut Src, p: &gen::Pools) -> Vec<B> {
    let n = s.usize(0, 4);
    let mut v: Vec<B> = (0..n).map(|_| gen::path(s, p.paths)).collect();
    v.sort();
    v.dedup();
    v
}

fn gen_step(s: &mut Src, max: usize) -> StepCase {
    let p = gen::pools(s);
    let op = if s.chance(1, 3) {
        Op::Download
    } else {
        Op::Upload
    };
    let objects = subset(s, &p.contents);
    let locks = some_locks(s, &p);
    let n = s.usize(1, max);
    let reqs = (0..n).map(|_| gen::any(s, &p)).collect();
    StepCase {
        op,
        objects,
        locks,
        reqs,
    }
}

impl Prop for InStep {
    type Case = StepCase;
    type Ctx = Ctx;

    fn id(&self) -> &'static str {
        "P05"
    }
    fn rule(&self) -> &'static str {
        "a request which is refused is followed by one which is not"
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            600_000
        } else {
            56_000
        }
    }
    fn ctx(&self, worker: usize) -> Ctx {
        Ctx::new(worker)
    }
    fn gen(&self, s: &mut Src) -> StepCase {
        let mut c = gen_step(s, 12);
        if s.chance(1, 100) {
            let p = gen::pools(s);
            let i = s.usize(0, c.reqs.len());
            match gen::long(s, &p) {
                Req::Put { .. } if c.op == Op::Download => (),
                r => c.reqs.insert(i, r),
            }
        }
        if s.chance(1, 5) {
            c.reqs.push(Req::Quit);
        }
        c
    }
    fn check(&self, case: &StepCase, ctx: &mut Ctx, out: &mut Outcome) -> Check {
        let w = World::new(ctx, "w", NOBODY, None)?;
        let mut m = Model::default();
        fill(&w, &mut m, &case.objects, &case.locks)?;
        classes(out, &case.reqs);
        let s = w.run(&run_for(case.op), &encode_all(&case.reqs))?;
        let resps = s.complete(case.reqs.len())?;
        let mut refused = false;
        for r in &resps {
            if refused && r.ok() {
                out.nontrivial = true;
            }
            refused |= r.refused();
        }
        m.session(&who(case.op), &case.reqs, &resps)?;
        m.check_store(&Store::read(&w.lfs)?, true)
    }
}

// ---------------------------------------------------------------------------------------------
// P06

pub struct Operations;

#[derive(Debug)]
pub struct OpCase {
    op: String,
    bare: bool,
    objects: Vec<B>,
    locks: Vec<B>,
    reqs: Vec<Req>,
}

impl Prop for Operations {
    type Case = OpCase;
    type Ctx = Ctx;

    fn id(&self) -> &'static str {
        "P06"
    }
    fn rule(&self) -> &'static str {
        "a request not allowed in the operation concerns an object or lock which exists, or the operation is unknown"
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            450_000
        } else {
            60_000
        }
    }
    fn ctx(&self, worker: usize) -> Ctx {
        Ctx::new(worker)
    }
    fn gen(&self, s: &mut Src) -> OpCase {
        let mut p = gen::pools(s);
        // What is in the store has to be recognizable.
        for c in &mut p.contents {
            let n = s.usize(24, 3000);
            *c = B(s.blob(n));
        }
        let op = match s.weighted(&[5, 5, 3]) {
            0 => "download".to_string(),
            1 => "upload".to_string(),
            _ => match s.below(3) {
                0 => (*s.pick(&[
                    "",
                    "Upload",
                    "DOWNLOAD",
                    "uploads",
                    "downloa",
                    "upload ",
                    " download",
                    "upload\n",
                    "upload,download",
                    "download/upload",
                    "lock",
                    "list",
                    "verify",
                    "get",
                    "put",
                    "admin",
                    "\u{444}",
                    "update",
                    "push",
                    "clone",
                    "fetch",
                    "u",
                    "d",
                    "up",
                    "down",
                    "*",
                    "0",
                    "1",
                ]))
                .to_string(),
                1 => {
                    let mut o = (*s.pick(&["upload", "download"])).to_string();
                    let i = s.below(o.len() as u64) as usize;
                    let c = (b'a' + s.below(26) as u8) as char;
                    if s.chance(1, 2) {
                        o.insert(i, c);
                    } else {
                        o.remove(i);
                    }
                    o
                }
                _ => {
                    let n = s.usize(1, 12);
                    (0..n).map(|_| (b'a' + s.below(26) as u8) as char).collect()
                }
            },
        };
        let objects = subset(s, &p.contents);
        let locks = some_locks(s, &p);
        let n = s.usize(1, 8);
        let reqs = (0..n)
            .map(|_| {
                if s.chance(1, 4) {
                    gen::any(s, &p)
                } else {
                    match s.weighted(&[2, 2, 2, 3]) {
                        0 => gen::good_put(s, &p),
                        1 => gen::get(s, &p),
                        2 => Req::Unlock(proto::lock_id(&gen::path(s, p.paths))),
                        _ => gen::lock_req(s, &p),
                    }
                }
            })
            .collect();
        OpCase {
            op,
            bare: s.chance(1, 8),
            objects,
            locks,
            reqs,
        }
    }
    fn check(&self, case: &OpCase, ctx: &mut Ctx, out: &mut Outcome) -> Check {
        let w = World::new(ctx, "w", NOBODY, None)?;
        let mut m = Model::default();
        let empty = case.bare && case.objects.is_empty() && case.locks.is_empty();
        if !empty {
            fill(&w, &mut m, &case.objects, &case.locks)?;
        }
        let mut r = run_for(Op::Upload);
        r.op = case.op.clone();
        // A program which takes the operation for an option is allowed to say so.
        let before = store::tree(&w.lfs)?;
        let s = w.run(&r, &encode_all(&case.reqs))?;
        let after = store::tree(&w.lfs)?;
        let unchanged = || -> Check {
            if empty {
                // Directories may be created, but nothing in them.
                for (p, n) in &after {
                    ensure!(
                        n.kind == store::Kind::Dir,
                        "{} has been created: {:?}",
                        p.display(),
                        n
                    );
                }
                return Ok(());
            }
            match store::diff(&before, &after) {
                Some(d) => violation!("the store has changed in '{}': {}", case.op, d),
                None => Ok(()),
            }
        };
        match case.op.as_str() {
            "download" => {
                out.class("download");
                unchanged()?;
                let resps = s.complete(case.reqs.len())?;
                m.session(&who(Op::Download), &case.reqs, &resps)?;
                out.nontrivial = case.reqs.iter().any(|r| match r {
                    Req::Unlock(id) => m.locks.contains_key(id),
                    Req::Put {
                        oid, size, data, ..
                    } => {
                        model::valid_put(oid, size, data)
                            && !m
                                .objects
                                .contains_key(&String::from_utf8_lossy(oid).into_owned())
                    }
                    _ => false,
                });
            }
            "upload" => {
                out.class("upload");
                let resps = s.complete(case.reqs.len())?;
                m.session(&who(Op::Upload), &case.reqs, &resps)?;
                let contents: Vec<&B> = m.objects.values().collect();
                for d in contents {
                    if d.len() >= 24 {
                        let needle = &d[..24];
                        let end = &d[d.len() - 24..];
                        if s.stdout.windows(24).any(|x| x == needle || x == end) {
                            violation!("the contents of an object are in the output of an upload");
                        }
                    }
                }
                out.nontrivial = case.reqs.iter().any(|r| match r {
                    Req::Get(id) => m.objects.contains_key(id),
                    _ => false,
                });
            }
            _ => {
                out.class("unknown operation");
                unchanged()?;
                let o = s.output()?;
                ensure!(
                    o.resps.is_empty() && o.rest == 0,
                    "{} responses ({} bytes more) in operation {:?}",
                    o.resps.len(),
                    o.rest,
                    case.op
                );
                match s.exit {
                    Exit::Code(c) if c != 0 && c != 101 => (),
                    _ => violation!("operation {:?} ended with {}", case.op, s.describe()),
                }
                out.nontrivial = true;
            }
        }
        classes(out, &case.reqs);
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// P07

pub struct CutOff;

const NO_HEADERS: [&[u8]; 14] = [
    b"zzzz",
    b"0002",
    b"0003",
    b"fff1",
    b"ffff",
    b"FFF0",
    b"000G",
    b"00 4",
    b"+00a",
    b"0x04",
    b"\0\0\0\0",
    b"-001",
    b":000",
    b"fffg",
];

#[derive(Debug)]
pub struct CutCase {
    base: StepCase,
    /// Where the stream ends: a choice among all packet boundaries and what is near them, or any
    /// offset.  Or what comes instead of a packet, with more after it.
    cuts: Vec<(u8, u64, u64)>,
}

impl Prop for CutOff {
    type Case = CutCase;
    type Ctx = Ctx;

    fn id(&self) -> &'static str {
        "P07"
    }
    fn rule(&self) -> &'static str {
        "the stream ends within a valid upload, lock or release of an upload session"
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            180_000
        } else {
            20_000
        }
    }
    fn ctx(&self, worker: usize) -> Ctx {
        Ctx::new(worker)
    }
    fn gen(&self, s: &mut Src) -> CutCase {
        let mut base = gen_step(s, 5);
        if s.chance(1, 2) {
            // More of what has an effect.
            let p = gen::pools(s);
            base.op = Op::Upload;
            base.reqs = (0..s.usize(1, 4))
                .map(|_| {
                    if s.chance(1, 2) {
                        gen::good_put(s, &p)
                    } else {
                        gen::lock_req(s, &p)
                    }
                })
                .collect();
            base.locks = some_locks(s, &p);
        }
        let n = s.usize(1, 6);
        let cuts = (0..n)
            .map(|_| {
                (
                    s.weighted(&[3, 3, 2, 3]) as u8,
                    s.below(1 << 32),
                    s.below(1 << 32),
                )
            })
            .collect();
        CutCase { base, cuts }
    }
    fn check(&self, case: &CutCase, ctx: &mut Ctx, out: &mut Outcome) -> Check {
        let c = &case.base;
        // Where each request and each packet ends.
        let mut ends = vec![0];
        let mut bounds = vec![0];
        let mut input: Vec<u8> = vec![];
        for r in &c.reqs {
            for p in r.parts() {
                proto::encode_part(&p, &mut input);
                bounds.push(input.len());
            }
            ends.push(input.len());
        }
        out.executions = 0;
        for (kind, a, b) in &case.cuts {
            let cut = match kind {
                0 => {
                    // At or near a packet boundary.
                    let x = bounds[(*a % bounds.len() as u64) as usize];
                    (x + (*b % 9) as usize).saturating_sub(4).min(input.len())
                }
                1 => {
                    // Just before the end of a request.
                    let x = ends[(*a % ends.len() as u64) as usize];
                    x.saturating_sub(1 + (*b % 8) as usize)
                }
                2 => (*a % (input.len() as u64 + 1)) as usize,
                _ => bounds[(*a % bounds.len() as u64) as usize],
            };
            let mut sent = input[..cut].to_vec();
            if *kind == 3 {
                sent.extend_from_slice(NO_HEADERS[(*b % NO_HEADERS.len() as u64) as usize]);
                match *b / 64 % 4 {
                    0 => sent.extend_from_slice(&input[cut..]),
                    1 => sent.extend_from_slice(b"0000"),
                    2 => sent
                        .extend_from_slice(&input[ends[(*b / 256 % ends.len() as u64) as usize]..]),
                    _ => sent.extend_from_slice(
                        &input[(*b / 256 % (input.len() as u64 + 1)) as usize..],
                    ),
                }
                // All of these would have an effect.
                sent.extend(encode_all(&[
                    Req::Lock(B(b"after the end".to_vec())),
                    Req::put(b"after the end", &[]),
                ]));
                for path in &c.locks {
                    sent.extend(encode_all(&[Req::Unlock(proto::lock_id(path))]));
                }
            }
            let whole = ends.iter().filter(|&&e| e <= cut).count() - 1;
            let partial = cut > ends[whole] || *kind == 3;
            let w = World::new(ctx, "w", NOBODY, None)?;
            let mut m = Model::default();
            fill(&w, &mut m, &c.objects, &c.locks)?;
            let s = w.run(&run_for(c.op), &sent)?;
            out.executions += 1;
            let at = format!(
                "{} at offset {} of {}, after {} requests{}",
                if *kind == 3 {
                    "malformed packet"
                } else {
                    "cut"
                },
                cut,
                input.len(),
                whole,
                if partial {
                    " and part of another one"
                } else {
                    ""
                }
            );
            match s.exit {
                Exit::Code(0) | Exit::Code(2) => (),
                _ => violation!("{}: {}", at, s.describe()),
            }
            let o = s.output()?;
            ensure!(
                o.greeting && o.rest == 0,
                "{}: the output is incomplete; {}",
                at,
                s.describe()
            );
            let n = o.resps.len();
            ensure!(
                n == whole || partial && n == whole + 1,
                "{}: {} responses; {}",
                at,
                n,
                s.describe()
            );
            let check = |m: &mut Model| -> Check {
                m.session(&who(c.op), &c.reqs[..whole], &o.resps[..whole])?;
                if let Some(r) = o.resps.get(whole) {
                    refused(r, "a request which is incomplete")?;
                }
                m.check_store(&Store::read(&w.lfs)?, true)
            };
            if let Err(vcore::Stop::Violation(v)) = check(&mut m) {
                violation!("{}: {}", at, v);
            }
            if partial && whole == c.reqs.len() {
                out.class("malformed packet after all requests");
            } else if partial {
                let r = &c.reqs[whole];
                if *kind == 3 {
                    out.class(format!("malformed packet in: {}", r.kind()));
                } else {
                    out.class(format!("cut within: {}", r.kind()));
                }
                if cut == ends[whole + 1] - 4 {
                    out.class("cut right before the final flush");
                }
                if c.op == Op::Upload && r.mutator() {
                    out.nontrivial = true;
                }
            } else {
                out.class("cut between requests");
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// P08

pub struct AnyInput;

#[derive(Debug)]
pub struct AnyCase {
    op: Op,
    objects: Vec<B>,
    locks: Vec<B>,
    mutations: Vec<&'static str>,
    input: B,
}

/// Change a stream of requests in some way.
fn mutate(s: &mut Src, v: &mut Vec<u8>) -> &'static str {
    let n = v.len() as u64;
    let at = |s: &mut Src| s.below(n.max(1)) as usize;
    // Offsets of the packet headers as they are now.
    let heads = |v: &[u8]| -> Vec<usize> {
        let mut h = vec![0];
        h.extend(proto::decode(v).0.iter().map(|p| p.1));
        h.retain(|&x| x + 4 <= v.len());
        h
    };
    match s.below(13) {
        0 => {
            if n > 0 {
                let i = at(s);
                v[i] ^= 1 << s.below(8);
            }
            "bit flipped"
        }
        1 => {
            if n > 0 {
                let i = at(s);
                v[i] = s.below(256) as u8;
            }
            "byte replaced"
        }
        2 => {
            let i = at(s);
            let k = s.size(20);
            let e = (i + k).min(v.len());
            v.drain(i.min(e)..e);
            "bytes deleted"
        }
        3 => {
            let i = at(s).min(v.len());
            let k = s.size(20);
            let b = s.bytes(k);
            v.splice(i..i, b);
            "bytes inserted"
        }
        4 => {
            let h = heads(v);
            if !h.is_empty() {
                let i = *s.pick(&h);
                let x = match s.below(4) {
                    0 => (*s.pick(&[
                        "0000", "0001", "0002", "0003", "0004", "0005", "ffff", "fff0", "fff1",
                        "ffef", "FFFF", "000G", "00:0", "-001", "+004", " 004", "0x04", "\0\0\0\0",
                        "000g", "00 4",
                    ]))
                    .as_bytes()
                    .to_vec(),
                    1 => format!("{:04x}", s.below(65536)).into_bytes(),
                    2 => format!("{:04X}", s.below(65536)).into_bytes(),
                    _ => s.bytes(4),
                };
                v[i..i + 4].copy_from_slice(&x);
            }
            "header replaced"
        }
        5 => {
            let h = heads(v);
            if !h.is_empty() {
                let i = *s.pick(&h);
                let p = *s.pick(&[
                    "0000", "0001", "0004", "0005\n", "0006=\n", "0005=", "0005 ",
                ]);
                v.splice(i..i, p.bytes());
            }
            "packet inserted"
        }
        6 => {
            let p = proto::decode(v).0;
            if !p.is_empty() {
                let i = s.below(p.len() as u64) as usize;
                let start = if i == 0 { 0 } else { p[i - 1].1 };
                v.drain(start..p[i].1);
            }
            "packet deleted"
        }
        7 => {
            let p = proto::decode(v).0;
            if !p.is_empty() {
                let i = s.below(p.len() as u64) as usize;
                let start = if i == 0 { 0 } else { p[i - 1].1 };
                let d = v[start..p[i].1].to_vec();
                v.splice(start..start, d);
            }
            "packet duplicated"
        }
        8 => {
            let i = at(s);
            v.truncate(i);
            "truncated"
        }
        9 => {
            // Keep the framing, but replace the payload of a packet.
            let p = proto::decode(v).0;
            if !p.is_empty() {
                let i = s.below(p.len() as u64) as usize;
                let start = if i == 0 { 0 } else { p[i - 1].1 };
                let k = s.size(80);
                let mut d = if s.chance(1, 2) {
                    s.bytes(k)
                } else {
                    v[start..p[i].1].iter().skip(4).take(k).copied().collect()
                };
                if s.chance(1, 2) {
                    d.push(b'\n');
                }
                let mut e = vec![];
                proto::encode_part(&Part::Data(B(d)), &mut e);
                v.splice(start..p[i].1, e);
            }
            "payload replaced"
        }
        10 => {
            let p = proto::decode(v).0;
            if p.len() > 1 {
                let i = s.below(p.len() as u64 - 1) as usize;
                let start = if i == 0 { 0 } else { p[i - 1].1 };
                let (a, b) = (p[i].1, p[i + 1].1);
                let x = v[start..a].to_vec();
                let mut y = v[a..b].to_vec();
                y.extend(x);
                v.splice(start..b, y);
            }
            "packets exchanged"
        }
        11 => {
            let k = s.size(200);
            let b = s.bytes(k);
            v.extend(b);
            "garbage appended"
        }
        _ => {
            // Edit the text of a packet, keeping its length right.
            let p = proto::decode(v).0;
            let texts: Vec<usize> = (0..p.len())
                .filter(|&i| matches!(&p[i].0, Part::Data(d) if d.len() > 1 && d.len() < 200))
                .collect();
            if !texts.is_empty() {
                let i = *s.pick(&texts);
                let start = if i == 0 { 0 } else { p[i - 1].1 };
                if let Part::Data(d) = &p[i].0 {
                    let mut d = d.0.clone();
                    let j = s.below(d.len() as u64) as usize;
                    match s.below(4) {
                        0 => {
                            d.remove(j);
                        }
                        1 => d.insert(j, *s.pick(&[b' ', b'=', b'\n', b'/', b'0', b'-', 0, 0xc3])),
                        2 => d[j] = *s.pick(&[b' ', b'=', b'\n', b'/', b'0', b'-', 0, 0xc3]),
                        _ => d.truncate(j),
                    }
                    let mut e = vec![];
                    proto::encode_part(&Part::Data(B(d)), &mut e);
                    v.splice(start..p[i].1, e);
                }
            }
            "text edited"
        }
    }
}

impl Prop for AnyInput {
    type Case = AnyCase;
    type Ctx = Ctx;

    fn id(&self) -> &'static str {
        "P08"
    }
    fn rule(&self) -> &'static str {
        "the input is not just a sequence of well-framed requests, and the server answers at least one request"
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            1_800_000
        } else {
            75_000
        }
    }
    fn ctx(&self, worker: usize) -> Ctx {
        Ctx::new(worker)
    }
    fn gen(&self, s: &mut Src) -> AnyCase {
        let mut c = gen_step(s, 6);
        if s.chance(1, 10) {
            c.reqs.push(Req::Quit);
        }
        let mut input = encode_all(&c.reqs);
        let mut mutations = vec![];
        match s.weighted(&[12, 1, 1]) {
            0 => {
                let n = s.usize(1, 6);
                for _ in 0..n {
                    mutations.push(mutate(s, &mut input));
                }
            }
            1 => {
                let n = s.size(400);
                input = s.bytes(n);
                mutations.push("random bytes");
            }
            _ => {
                // Random packets.
                let n = s.usize(1, 12);
                let parts: Vec<Part> = (0..n)
                    .map(|_| match s.weighted(&[2, 1, 4]) {
                        0 => Part::Flush,
                        1 => Part::Delim,
                        _ => {
                            let w = *s.pick(&[
                                "version 1\n",
                                "batch\n",
                                "lock\n",
                                "list-lock\n",
                                "quit\n",
                                "limit=1\n",
                                "path=x\n",
                                "refname=y\n",
                                "size=0\n",
                                "cursor=0\n",
                                "unlock 0\n",
                                "put-object e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855\n",
                                "get-object e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855\n",
                                "verify-object e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855\n",
                                "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855 0\n",
                                "",
                                "\n",
                                " ",
                                "=",
                            ]);
                            proto::data(w)
                        }
                    })
                    .collect();
                input = proto::encode(&parts);
                mutations.push("random packets");
            }
        }
        AnyCase {
            op: c.op,
            objects: c.objects,
            locks: c.locks,
            mutations,
            input: B(input),
        }
    }
    fn check(&self, case: &AnyCase, ctx: &mut Ctx, out: &mut Outcome) -> Check {
        let w = World::new(ctx, "w", NOBODY, None)?;
        let mut m = Model::default();
        fill(&w, &mut m, &case.objects, &case.locks)?;
        let before = Store::read(&w.lfs)?;
        let s = w.run(&run_for(case.op), &case.input)?;
        for c in &case.mutations {
            out.class(*c);
        }
        match s.exit {
            Exit::Code(0) => out.class("exit 0"),
            Exit::Code(2) => out.class("exit 2"),
            Exit::Signal(libc::SIGXCPU) => {
                violation!("the server did not end, having used 20 s of processor time")
            }
            _ => violation!("the server ended with {}", s.describe()),
        }
        let o = s.output()?;
        ensure!(
            o.greeting && o.rest == 0,
            "the output is incomplete: {} bytes follow the last response; {}",
            o.rest,
            s.describe()
        );
        for r in &o.resps {
            ensure!(
                r.ok() || r.refused(),
                "strange status in response: {}",
                r.brief()
            );
        }
        let after = Store::read(&w.lfs)?;
        if let Some(e) = after.corrupt_object() {
            violation!("{}", e);
        }
        if !after.others.is_empty() {
            violation!("damaged or left behind: {}", after.others_list());
        }
        // Nothing removes an object, and contents are determined by the ID.
        for oid in before.objects.keys() {
            ensure!(
                after.objects.contains_key(oid),
                "object {} has been removed",
                oid
            );
        }
        for (id, l) in &before.locks {
            if let Some(x) = after.locks.get(id) {
                // It may have been released and taken again.
                ensure!(
                    x.1 == l.1 && (x.0 == l.0 || x.0 == NOON),
                    "the lock on {:?} has changed: {:?}",
                    l.1,
                    x
                );
            }
        }
        out.class(match o.resps.len() {
            0 => "no response",
            1..=3 => "1 to 3 responses",
            _ => "more than 3 responses",
        });
        out.nontrivial = !o.resps.is_empty();
        let _ = sys::GID;
        Ok(())
    }
}
