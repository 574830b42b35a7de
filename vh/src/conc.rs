//! Several servers at once under a deterministic scheduler: P13 and P16.

use crate::gen;
use crate::model::{self, valid_put, Model, Op, Req, Who};
use crate::proto::{self, Resp};
use crate::store::{user_name, Ctx, Kind, Run, Store, World, NOBODY, USERS};
use crate::sys::{self, Exit};
use crate::trace::{Ev, Sys, Tracee};
use crate::xfer::NOON;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use vcore::{ensure, violation, Check, Outcome, Prop, Src, B};

/// What one client does, by way of a server of its own.
#[derive(Debug)]
pub struct Client {
    op: Op,
    uid: u32,
    reqs: Vec<Req>,
}

/// Let a server take a number of steps.
#[derive(Debug, Clone, Copy)]
pub struct Turn {
    who: usize,
    steps: u64,
}

/// A request and its response.
#[derive(Debug, Clone)]
struct Done {
    client: usize,
    req: usize,
    begin: u64,
    end: u64,
    resp: Resp,
}

struct Server {
    t: Tracee,
    input: Option<sys::Fd>,
    stdin: sys::Fd,
    stdout: sys::Fd,
    stderr: sys::Fd,
    /// The system call it is about to carry out.
    at: Option<Sys>,
    sent: usize,
    begin: u64,
    answered: usize,
    exit: Option<Exit>,
}

impl Server {
    fn start(w: &World, c: &Client, clock: i64) -> Check<Server> {
        let (r0, w0) = sys::pipe()?;
        let stdout = sys::memfd(b"")?;
        let stderr = sys::memfd(b"")?;
        let mut r = Run::new(c.op.name(), c.uid);
        r.clock = Some((clock, 1));
        let mut s = w.spawn(&r);
        s.fds = [r0.0, stdout.0, stderr.0];
        Ok(Server {
            t: Tracee::start(s)?,
            input: Some(w0),
            stdin: r0,
            stdout,
            stderr,
            at: None,
            sent: 0,
            begin: 0,
            answered: 0,
            exit: None,
        })
    }

    /// Whether it waits for the client.
    fn idle(&self) -> Check<bool> {
        Ok(match &self.at {
            Some(s) => s.reads_stdin() && sys::available(&self.stdin)? == 0,
            None => false,
        })
    }

    /// Up to the next system call which others can notice.
    fn step(&mut self, w: &World, i: usize, c: &Client, now: u64, done: &mut Vec<Done>) -> Check {
        if self.idle()? {
            match c.reqs.get(self.sent) {
                Some(q) => {
                    let d = proto::encode(&q.parts());
                    sys::write_all(self.input.as_ref().unwrap(), &d)?;
                    self.sent += 1;
                    self.begin = now;
                }
                None => self.input = None,
            }
        }
        loop {
            match self.t.next()? {
                Ev::Enter(s) => {
                    if s.under(&w.lfs) || s.reads_stdin() || s.writes_stdout() {
                        self.at = Some(s);
                        return Ok(());
                    }
                }
                Ev::Leave(s, _) => {
                    if s.writes_stdout() {
                        let o = sys::read_memfd(&self.stdout)?;
                        let o = match proto::parse_output(&o) {
                            Ok(o) => o,
                            Err(e) => violation!("client {}: malformed output: {}", i, e),
                        };
                        while o.resps.len() > self.answered {
                            ensure!(
                                self.answered < self.sent,
                                "client {}: more responses than requests",
                                i
                            );
                            done.push(Done {
                                client: i,
                                req: self.answered,
                                begin: self.begin,
                                end: now,
                                resp: o.resps[self.answered].clone(),
                            });
                            self.answered += 1;
                        }
                    }
                }
                Ev::Exit(e) => {
                    self.exit = Some(e);
                    self.at = None;
                    return Ok(());
                }
            }
        }
    }
}

fn turns(s: &mut Src, n: usize) -> Vec<Turn> {
    let style = s.below(3);
    (0..s.usize(0, 60))
        .map(|_| Turn {
            who: s.below(n as u64) as usize,
            steps: match style {
                0 => 1,
                1 => s.range(1, 4),
                _ => s.range(1, 24),
            },
        })
        .collect()
}

/// Run all clients to the end.
fn race(w: &World, clients: &[Client], turns: &[Turn], together: bool) -> Check<Vec<Done>> {
    let mut servers = vec![];
    for (i, c) in clients.iter().enumerate() {
        servers.push(Server::start(w, c, NOON + 100_000 * (i as i64 + 1))?);
    }
    let mut done = vec![];
    let mut now = 0;
    // Unless they start together, each one gets to where it waits for the first request.
    for (i, s) in servers.iter_mut().enumerate() {
        now += 1;
        s.step(w, i, &clients[i], now, &mut done)?;
        while !together && s.exit.is_none() && !s.idle()? {
            now += 1;
            s.step(w, i, &clients[i], now, &mut done)?;
        }
    }
    let mut turn = turns.iter();
    let mut rest = 0;
    while servers.iter().any(|s| s.exit.is_none()) {
        // When the schedule ends, they take turns which are long.
        let t = match turn.next() {
            Some(t) => *t,
            None => {
                rest += 1;
                Turn {
                    who: rest % clients.len(),
                    steps: 40,
                }
            }
        };
        let i = t.who % clients.len();
        for _ in 0..t.steps {
            if servers[i].exit.is_some() {
                break;
            }
            now += 1;
            if now > 100_000 {
                violation!("the servers do not end");
            }
            servers[i].step(w, i, &clients[i], now, &mut done)?;
        }
    }
    for (i, s) in servers.iter().enumerate() {
        let n = clients[i].reqs.len();
        if s.exit != Some(Exit::Code(0)) || s.answered != n {
            violation!(
                "client {}: the server ended with {:?} after {} responses to {} requests; stderr: {:?}",
                i,
                s.exit,
                s.answered,
                n,
                B(sys::read_memfd(&s.stderr)?)
            );
        }
    }
    Ok(done)
}

/// Whether two requests overlap.
fn overlap(a: &Done, b: &Done) -> bool {
    a.begin <= b.end && b.begin <= a.end
}

fn overlapping(done: &[Done]) -> bool {
    done.iter()
        .enumerate()
        .any(|(i, a)| done[..i].iter().any(|b| a.client != b.client && overlap(a, b)))
}

fn history(clients: &[Client], done: &[Done]) -> String {
    let mut v: Vec<&Done> = done.iter().collect();
    v.sort_by_key(|d| d.begin);
    v.iter()
        .map(|d| {
            format!(
                "[{}-{}] client {} {:?}: {}",
                d.begin,
                d.end,
                d.client,
                clients[d.client].reqs[d.req],
                d.resp.brief()
            )
        })
        .collect::<Vec<_>>()
        .join("\n  ")
}

// ---------------------------------------------------------------------------------------------
// P13

pub struct Exclusion;

#[derive(Debug)]
pub struct LockRace {
    held: Vec<bool>,
    clients: Vec<Client>,
    turns: Vec<Turn>,
    together: bool,
}

/// Owner and time of a lock, which identify it.
type Ident = (String, String);

#[derive(Debug, Clone)]
enum Step {
    /// Took the lock.
    Take(Ident),
    /// Found it held.
    See(Ident),
    /// Found it not held.
    Miss,
    /// Released it.
    Free,
}

struct Event {
    begin: u64,
    end: u64,
    step: Step,
}

fn ident_of_args(r: &Resp) -> Check<Ident> {
    let a = model::args(r)?;
    let g = |k: &str| match a.get(k) {
        Some(v) => Ok(String::from_utf8_lossy(v).into_owned()),
        None => violation!("no {} in {}", k, r.brief()),
    };
    Ok((g("ownername")?, g("locked-at")?))
}

/// Whether there is an order which respects time in which all of this makes sense.
fn linearizable(events: &[Event], initial: Option<Ident>) -> bool {
    assert!(events.len() < 64);
    let all: u64 = (1u64 << events.len()) - 1;
    let mut seen: HashSet<(u64, Option<Ident>)> = HashSet::new();
    let mut todo = vec![(0u64, initial)];
    while let Some((set, state)) = todo.pop() {
        if set == all {
            return true;
        }
        if !seen.insert((set, state.clone())) {
            continue;
        }
        let first_end = events
            .iter()
            .enumerate()
            .filter(|(i, _)| set & (1 << i) == 0)
            .map(|(_, e)| e.end)
            .min()
            .unwrap();
        for (i, e) in events.iter().enumerate() {
            if set & (1 << i) != 0 || e.begin > first_end {
                continue;
            }
            let next = match (&e.step, &state) {
                (Step::Take(id), None) => Some(Some(id.clone())),
                (Step::See(id), Some(h)) if id == h => Some(state.clone()),
                (Step::Miss, None) => Some(None),
                (Step::Free, Some(_)) => Some(None),
                _ => None,
            };
            if let Some(n) = next {
                todo.push((set | 1 << i, n));
            }
        }
    }
    false
}

fn race_path(i: usize) -> B {
    format!("contended {}", i).into()
}

impl Prop for Exclusion {
    type Case = LockRace;
    type Ctx = Ctx;

    fn id(&self) -> &'static str {
        "P13"
    }
    fn racy(&self) -> bool {
        true
    }
    fn rule(&self) -> &'static str {
        "requests of two clients concerning the same lock overlap, and one of them changes it"
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            450_000
        } else {
            6_750
        }
    }
    fn ctx(&self, worker: usize) -> Ctx {
        Ctx::new(worker)
    }
    fn shrink_budget(&self) -> usize {
        400
    }
    fn gen(&self, s: &mut Src) -> LockRace {
        let np = match s.weighted(&[5, 2, 1]) {
            0 => 1,
            1 => 2,
            _ => 3,
        };
        let nc = if s.chance(1, 3) { 3 } else { 2 };
        let clients = (0..nc)
            .map(|i| {
                let n = s.usize(1, 5);
                let op = if s.chance(1, 8) { Op::Download } else { Op::Upload };
                Client {
                    op,
                    uid: if s.chance(1, 5) { NOBODY } else { USERS[i] },
                    reqs: (0..n)
                        .map(|_| {
                            let p = race_path(s.below(np as u64) as usize);
                            match (op, s.weighted(&[6, 5, 2, 2])) {
                                (Op::Upload, 0) => Req::Lock(p),
                                (Op::Upload, 1) => Req::Unlock(proto::lock_id(&p)),
                                (_, 2) | (Op::Download, 0) => Req::Lookup(p),
                                _ => Req::List(None),
                            }
                        })
                        .collect(),
                }
            })
            .collect();
        LockRace {
            held: (0..np).map(|_| s.chance(1, 2)).collect(),
            clients,
            turns: turns(s, nc),
            together: s.chance(1, 6),
        }
    }
    fn check(&self, case: &LockRace, ctx: &mut Ctx, out: &mut Outcome) -> Check {
        let w = World::new(ctx, "w", NOBODY, Some("group"))?;
        if !case.together || case.held.iter().any(|h| *h) {
            w.init_lfs(0o2770)?;
        }
        let mut initial: BTreeMap<String, Ident> = BTreeMap::new();
        for (i, h) in case.held.iter().enumerate() {
            if *h {
                let id = w.add_lock(&race_path(i), NOON - 5, 54322)?;
                initial.insert(id, (user_name(54322), proto::rfc3339(NOON - 5)));
            }
        }
        let mut done = race(&w, &case.clients, &case.turns, case.together)?;
        let overlaps = |d: &Done, id: &str, done: &[Done]| {
            done.iter().any(|o| {
                o.client != d.client
                    && overlap(o, d)
                    && match &case.clients[o.client].reqs[o.req] {
                        Req::Lock(p) => proto::lock_id(p) == id,
                        Req::Unlock(i) => i == id,
                        _ => false,
                    }
            })
        };
        let fail = |what: String, done: &[Done]| -> Check {
            violation!("{}\n  {}", what, history(&case.clients, done))
        };
        // What happened to each lock.
        let mut per: BTreeMap<String, Vec<Event>> = BTreeMap::new();
        for i in 0..case.held.len() {
            per.insert(proto::lock_id(&race_path(i)), vec![]);
        }
        let mut takes: Vec<(String, Ident, &Done)> = vec![];
        let mut lists = vec![];
        let mut releases: Vec<(String, &Done)> = vec![];
        done.sort_by_key(|d| (d.begin, d.client));
        for d in &done {
            let q = &case.clients[d.client].reqs[d.req];
            let (id, step) = match q {
                Req::Lock(p) => {
                    let id = proto::lock_id(p);
                    match d.resp.status {
                        201 => {
                            let ident = ident_of_args(&d.resp)?;
                            takes.push((id.clone(), ident.clone(), d));
                            (id, Some(Step::Take(ident)))
                        }
                        409 => (id, Some(Step::See(ident_of_args(&d.resp)?))),
                        500..=599 => (id, None),
                        _ => return fail(format!("{:?} answered with {}", q, d.resp.brief()), &done),
                    }
                }
                Req::Unlock(id) => match d.resp.status {
                    200 => {
                        // Its details may be those of a lock which was there just before.
                        ident_of_args(&d.resp)?;
                        releases.push((id.clone(), d));
                        (id.clone(), Some(Step::Free))
                    }
                    404 => (id.clone(), Some(Step::Miss)),
                    500..=599 => (id.clone(), None),
                    _ => return fail(format!("{:?} answered with {}", q, d.resp.brief()), &done),
                },
                Req::Lookup(p) => {
                    let id = proto::lock_id(p);
                    match d.resp.status {
                        404 => (id, Some(Step::Miss)),
                        200 => {
                            let s = model::specs(&d.resp)?;
                            match s.first() {
                                None => (id, Some(Step::Miss)),
                                Some(l) => {
                                    if s.len() != 1 || l.id != id || &l.path != p {
                                        return fail(format!("lookup found {:?}", s), &done);
                                    }
                                    (
                                        id,
                                        Some(Step::See((l.ownername.clone(), l.locked_at.clone()))),
                                    )
                                }
                            }
                        }
                        500..=599 => (id, None),
                        _ => return fail(format!("{:?} answered with {}", q, d.resp.brief()), &done),
                    }
                }
                Req::List(_) => {
                    if d.resp.status == 200 {
                        lists.push((d, model::specs(&d.resp)?));
                        continue;
                    }
                    if d.resp.status >= 500 && per.keys().any(|id| overlaps(d, id, &done)) {
                        continue;
                    }
                    return fail(format!("listing answered with {}", d.resp.brief()), &done);
                }
                _ => continue,
            };
            if overlaps(d, &id, &done) {
                out.nontrivial = true;
            }
            match step {
                Some(step) => per.entry(id).or_default().push(Event {
                    begin: d.begin,
                    end: d.end,
                    step,
                }),
                None => {
                    out.class("temporary error");
                    if !overlaps(d, &id, &done) {
                        return fail(
                            format!("{:?}, which nobody interfered with, answered with {}", q, d.resp.brief()),
                            &done,
                        );
                    }
                }
            }
        }
        // What is there in the end.
        let mut last = vec![];
        for i in 0..case.held.len() {
            last.push(Req::Lookup(race_path(i)));
        }
        let mut run = Run::new("upload", 54322);
        run.clock = Some((NOON + 900_000, 1));
        let input = model::encode_all(&last);
        let resps = w.run(&run, &input)?.complete(last.len())?;
        let mut m = Model::default();
        for (i, r) in resps.iter().enumerate() {
            let id = proto::lock_id(&race_path(i));
            let s = if r.status == 200 { model::specs(r)? } else { vec![] };
            let step = match s.first() {
                Some(l) => {
                    let uid = USERS
                        .iter()
                        .copied()
                        .find(|u| user_name(*u) == l.ownername)
                        .unwrap_or(0);
                    m.locks.insert(
                        id.clone(),
                        model::Held {
                            path: race_path(i),
                            uid,
                            time: l.locked_at.clone(),
                        },
                    );
                    Step::See((l.ownername.clone(), l.locked_at.clone()))
                }
                None => {
                    if r.status != 404 && r.status != 200 {
                        return fail(format!("afterwards, a lookup is answered with {}", r.brief()), &done);
                    }
                    Step::Miss
                }
            };
            per.entry(id).or_default().push(Event {
                begin: u64::MAX - 1,
                end: u64::MAX,
                step,
            });
        }
        for (i, _) in case.held.iter().enumerate() {
            let id = proto::lock_id(&race_path(i));
            let ev = &per[&id];
            if !linearizable(ev, initial.get(&id).cloned()) {
                return fail(
                    format!(
                        "path {}, {}, finally {:?}: the answers make no sense in any order",
                        i,
                        if initial.contains_key(&id) {
                            "which was locked at the beginning"
                        } else {
                            "which was not locked at the beginning"
                        },
                        ev.last().map(|e| &e.step)
                    ),
                    &done,
                );
            }
        }
        // Listings: everything held all the time, nothing held at no time.
        for (d, specs) in &lists {
            let mut ids = BTreeSet::new();
            for l in specs {
                if !ids.insert(l.id.clone()) {
                    return fail(format!("a listing shows a lock twice: {:?}", l), &done);
                }
                let ident = (l.ownername.clone(), l.locked_at.clone());
                // When it was taken, if it could have been there during the listing.
                let taken = match takes.iter().find(|(id, i, _)| *id == l.id && *i == ident) {
                    Some((_, _, t)) if t.begin <= d.end => Some(t.end),
                    None if initial.get(&l.id) == Some(&ident) => Some(0),
                    _ => None,
                };
                let taken = match taken {
                    Some(t) => t,
                    None => {
                        return fail(format!("a listing shows a lock nobody held: {:?}", l), &done)
                    }
                };
                if releases
                    .iter()
                    .any(|(id, r)| *id == l.id && r.begin > taken && r.end < d.begin)
                {
                    return fail(
                        format!("a listing shows a lock which had been released: {:?}", l),
                        &done,
                    );
                }
            }
            let mut must: Vec<(String, u64, u64)> =
                initial.keys().map(|id| (id.clone(), 0, 0)).collect();
            must.extend(
                takes
                    .iter()
                    .filter(|(_, _, t)| t.end < d.begin)
                    .map(|(id, _, t)| (id.clone(), t.begin, t.end)),
            );
            for (id, begin, _) in must {
                let perhaps_released = releases
                    .iter()
                    .any(|(i, r)| *i == id && r.begin <= d.end && r.end >= begin);
                if !perhaps_released && !ids.contains(&id) {
                    return fail(format!("a listing omits lock {}, which was held", id), &done);
                }
            }
        }
        // From here on, everything is as usual.
        let mut reqs = vec![Req::List(None)];
        for i in 0..case.held.len() {
            let p = race_path(i);
            let id = proto::lock_id(&p);
            reqs.push(Req::Lock(p.clone()));
            reqs.push(Req::Unlock(id.clone()));
            reqs.push(Req::Unlock(id.clone()));
            reqs.push(Req::Lock(p.clone()));
            reqs.push(Req::Unlock(id));
        }
        reqs.push(Req::List(None));
        let who = Who {
            op: Op::Upload,
            uid: 54322,
            clock: (NOON + 900_000, NOON + 901_000),
        };
        let s = w.run(&run, &model::encode_all(&reqs))?;
        let r = s
            .complete(reqs.len())
            .and_then(|r| m.session(&who, &reqs, &r));
        if let Err(vcore::Stop::Violation(v)) = r {
            return fail(format!("in a later session, {}", v), &done);
        }
        r?;
        if overlapping(&done) {
            out.class("overlapping requests");
        }
        if takes.len() > 1 {
            out.class("several locks granted");
        }
        out.class(format!("{} servers", case.clients.len()));
        out.executions = case.clients.len() as u64;
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// P16

pub struct Whole;

#[derive(Debug)]
pub struct TransferRace {
    contents: Vec<B>,
    there: Vec<bool>,
    clients: Vec<Client>,
    turns: Vec<Turn>,
    together: bool,
}

impl Prop for Whole {
    type Case = TransferRace;
    type Ctx = Ctx;

    fn id(&self) -> &'static str {
        "P16"
    }
    fn racy(&self) -> bool {
        true
    }
    fn rule(&self) -> &'static str {
        "an upload overlaps with a request of another client concerning the same object"
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            360_000
        } else {
            10_000
        }
    }
    fn ctx(&self, worker: usize) -> Ctx {
        Ctx::new(worker)
    }
    fn gen(&self, s: &mut Src) -> TransferRace {
        let n = if s.chance(1, 3) { 2 } else { 1 };
        let contents: Vec<B> = (0..n)
            .map(|_| {
                let n = match s.weighted(&[3, 3, 1]) {
                    0 => s.usize(0, 40),
                    1 => s.size(20_000),
                    _ => s.size(60_000),
                };
                B(s.blob(n))
            })
            .collect();
        let nc = if s.chance(1, 3) { 3 } else { 2 };
        let p = gen::Pools {
            contents: contents.clone(),
            paths: 1,
        };
        let clients = (0..nc)
            .map(|i| {
                let op = if i > 0 && s.chance(1, 2) {
                    Op::Download
                } else {
                    Op::Upload
                };
                let n = s.usize(1, 4);
                Client {
                    op,
                    uid: if s.chance(1, 3) { NOBODY } else { USERS[i] },
                    reqs: (0..n)
                        .map(|_| match op {
                            Op::Upload => match s.weighted(&[6, 2, 2, 2]) {
                                0 => gen::good_put(s, &p),
                                1 => {
                                    // The right ID, the right size, but not the right contents.
                                    let c = s.pick(&contents).clone();
                                    let mut d = c.clone();
                                    match s.below(3) {
                                        0 if !d.is_empty() => {
                                            let i = s.below(d.len() as u64) as usize;
                                            d.0[i] ^= 1;
                                        }
                                        1 if !d.is_empty() => {
                                            d.0.pop();
                                        }
                                        _ => d.0.push(0),
                                    }
                                    Req::Put {
                                        oid: vcore::sha256::hex(&c).into(),
                                        size: if s.chance(1, 2) { c.len() } else { d.len() }
                                            .to_string()
                                            .into(),
                                        data: d,
                                        chunks: vec![],
                                        extra: vec![],
                                    }
                                }
                                2 => gen::verify(s, &p),
                                _ => gen::batch(s, &p),
                            },
                            Op::Download => match s.weighted(&[4, 1]) {
                                0 => gen::get(s, &p),
                                _ => gen::batch(s, &p),
                            },
                        })
                        .collect(),
                }
            })
            .collect::<Vec<Client>>();
        // The pipe has to hold a whole request.
        let mut clients = clients;
        for c in clients.iter_mut() {
            for r in c.reqs.iter_mut() {
                if let Req::Put { chunks, .. } = r {
                    chunks.retain(|c| *c >= 500);
                }
                if let Req::Batch(items, _) = r {
                    items.truncate(8);
                }
            }
        }
        TransferRace {
            there: contents.iter().map(|_| s.chance(1, 6)).collect(),
            contents,
            clients,
            turns: turns(s, nc),
            together: s.chance(1, 5),
        }
    }
    fn check(&self, case: &TransferRace, ctx: &mut Ctx, out: &mut Outcome) -> Check {
        let w = World::new(ctx, "w", NOBODY, Some("group"))?;
        if !case.together || case.there.iter().any(|t| *t) {
            w.init_lfs(0o2770)?;
        }
        let mut known: BTreeMap<String, B> = BTreeMap::new();
        let mut initial = BTreeSet::new();
        for (c, t) in case.contents.iter().zip(&case.there) {
            known.insert(vcore::sha256::hex(c), c.clone());
            if *t {
                let oid = w.add_object(c, 0o2770)?;
                sys::chmod(&w.object_path(&oid), 0o660);
                initial.insert(oid);
            }
        }
        let done = race(&w, &case.clients, &case.turns, case.together)?;
        let req = |d: &Done| &case.clients[d.client].reqs[d.req];
        let fail = |what: String| -> Check {
            violation!("{}\n  {}", what, history(&case.clients, &done))
        };
        // When each object may have appeared, and from when on it has to be there.
        let mut from: BTreeMap<String, u64> = BTreeMap::new();
        let mut by: BTreeMap<String, u64> = BTreeMap::new();
        for i in &initial {
            from.insert(i.clone(), 0);
            by.insert(i.clone(), 0);
        }
        for d in &done {
            if let Req::Put {
                oid, size, data, ..
            } = req(d)
            {
                let id = String::from_utf8_lossy(oid).into_owned();
                if valid_put(oid, size, data) {
                    if !d.resp.ok() {
                        return fail(format!("a valid upload is answered with {}", d.resp.brief()));
                    }
                    let f = from.entry(id.clone()).or_insert(d.begin);
                    *f = (*f).min(d.begin);
                    let b = by.entry(id.clone()).or_insert(d.end);
                    *b = (*b).min(d.end);
                    if done.iter().any(|o| {
                        o.client != d.client
                            && overlap(o, d)
                            && match req(o) {
                                Req::Put { oid: o, .. } => o == oid,
                                Req::Get(o) | Req::Verify(o, _) => *o == id,
                                Req::Batch(v, _) => v.iter().any(|(o, _)| *o == id),
                                _ => false,
                            }
                    }) {
                        out.nontrivial = true;
                    }
                } else if !d.resp.refused() {
                    return fail(format!("an invalid upload is answered with {}", d.resp.brief()));
                }
            }
        }
        let full = Model {
            objects: known.clone(),
            ..Model::default()
        };
        let mut order: Vec<&Done> = done.iter().collect();
        order.sort_by_key(|d| d.end);
        for d in order {
            let q = req(d);
            let who = Who {
                op: case.clients[d.client].op,
                uid: case.clients[d.client].uid,
                clock: (0, 0),
            };
            // A batch need not look at all objects at the same time.
            let pieces: Vec<(Req, Resp, &String)> = match q {
                Req::Get(o) | Req::Verify(o, _) => vec![(q.clone(), d.resp.clone(), o)],
                Req::Batch(v, args) => {
                    let lines = d.resp.body.clone().unwrap_or_default();
                    if !d.resp.ok() || lines.len() != v.len() {
                        return fail(format!(
                            "a batch request of {} objects is answered with {}",
                            v.len(),
                            d.resp.brief()
                        ));
                    }
                    v.iter()
                        .zip(lines)
                        .map(|(i, l)| {
                            let r = Resp {
                                body: Some(vec![l]),
                                ..d.resp.clone()
                            };
                            (Req::Batch(vec![i.clone()], args.clone()), r, &i.0)
                        })
                        .collect()
                }
                _ => continue,
            };
            for (q, resp, o) in &pieces {
                let may = from.get(*o).map_or(false, |f| *f <= d.end);
                let must = by.get(*o).map_or(false, |b| *b < d.begin);
                let there = |yes: bool| {
                    let mut m = Model::default();
                    if yes {
                        m.objects.insert(o.to_string(), full.objects[*o].clone());
                    }
                    m.step(&who, q, resp)
                };
                let absent = if must { None } else { Some(there(false)) };
                let present = if may { Some(there(true)) } else { None };
                match (absent, present) {
                    (Some(Ok(())), _) => out.class("absent"),
                    // Nothing goes away again.
                    (_, Some(Ok(()))) => {
                        let b = by.entry(o.to_string()).or_insert(d.end);
                        *b = (*b).min(d.end);
                        out.class("present");
                    }
                    (_, Some(Err(vcore::Stop::Violation(v))))
                    | (Some(Err(vcore::Stop::Violation(v))), None) => {
                        return fail(format!(
                            "the answer to {:?} at {}-{} is wrong: {}",
                            q, d.begin, d.end, v
                        ))
                    }
                    (_, Some(Err(e))) | (Some(Err(e)), None) => return Err(e),
                    (None, None) => unreachable!(),
                }
            }
        }
        let st = Store::read(&w.lfs)?;
        let m = Model {
            objects: known
                .iter()
                .filter(|(o, _)| from.contains_key(*o))
                .map(|(o, d)| (o.clone(), d.clone()))
                .collect(),
            ..Model::default()
        };
        if let Err(vcore::Stop::Violation(v)) = m.check_store(&st, true) {
            return fail(format!("afterwards, {}", v));
        }
        for (p, n) in crate::store::tree(&w.lfs.join("objects"))? {
            if let Kind::File(_) = n.kind {
                if n.mode & 0o666 != 0o660 {
                    return fail(format!("{} has mode {:o}", p.display(), n.mode));
                }
            }
        }
        // Everyone can have it.
        let reqs: Vec<Req> = m.objects.keys().map(|o| Req::Get(o.clone())).collect();
        let s = w.run(&Run::new("download", 54322), &model::encode_all(&reqs))?;
        let who = Who {
            op: Op::Download,
            uid: 54322,
            clock: (0, 0),
        };
        let mut m = m;
        let r = s
            .complete(reqs.len())
            .and_then(|r| m.session(&who, &reqs, &r));
        if let Err(vcore::Stop::Violation(v)) = r {
            return fail(format!("in a later session, {}", v));
        }
        r?;
        if overlapping(&done) {
            out.class("overlapping requests");
        }
        out.class(format!("{} servers", case.clients.len()));
        out.executions = case.clients.len() as u64 + 1;
        Ok(())
    }
}
