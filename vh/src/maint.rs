//! git at and git recent-refs while somebody else works on the repository: P31.

use crate::gitat;
use crate::repo::{Commit, Done, GitRepo};
use crate::store::Ctx;
use crate::sys::{self, Exit};
use crate::trace::{Ev, Sys, Tracee};
use std::collections::BTreeSet;
use std::ffi::OsString;
use std::path::Path;
use vcore::{ensure, Check, Outcome, Prop, Src, Stop, B};

/// What changes how things are stored, but not what is stored.
#[derive(Debug, Clone, Copy, PartialEq)]
enum Act {
    PackRefs,
    /// Write all references again as files of their own.
    Loosen,
    RepackNew,
    RepackAll,
    PrunePacked,
    Gc,
    CommitGraph,
    MultiPack,
    Reflogs,
}

const ACTS: [Act; 9] = [
    Act::PackRefs,
    Act::RepackAll,
    Act::Loosen,
    Act::RepackNew,
    Act::PrunePacked,
    Act::Gc,
    Act::CommitGraph,
    Act::MultiPack,
    Act::Reflogs,
];

/// What changes what is stored.
#[derive(Debug, Clone, Copy)]
enum Update {
    Create(usize, usize),
    Delete(usize),
    Move(usize, usize),
    Commit,
    Rename(usize, usize),
}

#[derive(Debug, Clone, Copy)]
enum Event {
    Act(Act),
    Update(Update),
}

#[derive(Debug, Clone)]
enum Rev {
    Default,
    Name(usize),
    Full(usize),
    Parent(usize),
    Id(usize),
    Short(usize, usize),
    Log(usize),
    Previous,
}

#[derive(Debug, Clone)]
enum Cmd {
    At(Rev, usize, bool),
    ByDate(bool),
    Visits,
}

#[derive(Debug)]
struct Try {
    cmd: Cmd,
    /// When, in 1024ths of the whole, and what.
    events: Vec<(u64, Event)>,
}

#[derive(Debug)]
pub struct Busy {
    commits: Vec<Commit>,
    /// Names, and the commits they are at.
    refs: Vec<Option<usize>>,
    tags: bool,
    head: Result<usize, usize>,
    log: Vec<Result<usize, usize>>,
    /// How many commits there were when the first maintenance took place.
    split: usize,
    first: Vec<Act>,
    second: Vec<Act>,
    tries: Vec<Try>,
}

const NAMES: [&str; 12] = [
    "refs/heads/main",
    "refs/heads/dev",
    "refs/heads/a/b",
    "refs/heads/a/c",
    "refs/heads/b",
    "refs/heads/\u{e9}",
    "refs/tags/v1",
    "refs/tags/v2",
    "refs/remotes/origin/main",
    "refs/remotes/origin/x",
    "refs/notes/commits",
    "refs/stash",
];
const BRANCHES: usize = 6;

fn short(n: usize) -> &'static str {
    let n = NAMES[n];
    n.strip_prefix("refs/heads/").unwrap_or(n)
}

fn event(s: &mut Src, n: usize) -> Event {
    if s.chance(3, 4) {
        return Event::Act(*s.pick(&ACTS));
    }
    let branch = s.usize(0, BRANCHES - 1);
    let any = s.usize(0, NAMES.len() - 1);
    let c = s.usize(0, n - 1);
    // Not checkouts: libgit2 reads as much of HEAD as there was when it looked at its size.
    Event::Update(match s.weighted(&[2, 3, 2, 2, 1]) {
        0 => Update::Create(any, c),
        1 => Update::Delete(any),
        2 => Update::Move(any, c),
        3 => Update::Commit,
        _ => Update::Rename(branch, s.usize(0, BRANCHES - 1)),
    })
}

fn text(i: usize) -> String {
    format!("commit {} ends", i)
}

impl Busy {
    fn build(&self, r: &GitRepo) -> Check<Vec<String>> {
        r.file(
            "config",
            b"[core]\n\trepositoryformatversion = 0\n\tbare = false\n\tlogallrefupdates = true\n[gc]\n\tauto = 0\n\treflogExpire = never\n\treflogExpireUnreachable = never\n[user]\n\tname = A\n\temail = a@example.com\n",
        )?;
        // As in any repository.
        for d in ["pack", "info"] {
            std::fs::create_dir_all(r.git.join("objects").join(d))?;
        }
        let mut ids = r.commits(&self.commits[..self.split])?;
        let target = |ids: &[String], n: usize, c: usize| -> Check<String> {
            if self.tags && NAMES[n].starts_with("refs/tags") {
                r.tag(&ids[c], "commit", &NAMES[n]["refs/tags/".len()..], 1_700_000_000)
            } else {
                Ok(ids[c].clone())
            }
        };
        let mut todo = vec![];
        for (n, c) in self.refs.iter().enumerate() {
            match c {
                Some(c) if *c < self.split => r.set_ref(NAMES[n], &target(&ids, n, *c)?)?,
                Some(c) => todo.push((n, *c)),
                None => (),
            }
        }
        r.own()?;
        for a in &self.first {
            act(r, *a)?;
        }
        ids = r.commits(&self.commits)?;
        for (n, c) in todo {
            r.set_ref(NAMES[n], &target(&ids, n, c)?)?;
        }
        let show = |w: &Result<usize, usize>| match w {
            Ok(b) => short(*b).to_string(),
            Err(c) => ids[*c].clone(),
        };
        let at = |w: &Result<usize, usize>| match w {
            Ok(b) => ids[self.refs[*b].unwrap_or(0)].clone(),
            Err(c) => ids[*c].clone(),
        };
        match self.head {
            Ok(b) => r.symref("HEAD", NAMES[b])?,
            Err(c) => r.file("HEAD", format!("{}\n", ids[c]).as_bytes())?,
        }
        let mut log = String::new();
        for (i, w) in self.log.iter().enumerate() {
            let next = self.log.get(i + 1).unwrap_or(&self.head);
            log.push_str(&format!(
                "{} {} A <a@example.com> {} +0000\tcheckout: moving from {} to {}\n",
                at(w),
                at(next),
                1_700_000_000 + i,
                show(w),
                show(next)
            ));
        }
        r.file("logs/HEAD", log.as_bytes())?;
        r.own()?;
        for a in &self.second {
            act(r, *a)?;
        }
        Ok(ids)
    }

    fn argv(&self, cmd: &Cmd, ids: &[String]) -> Vec<OsString> {
        let (rev, i, summary) = match cmd {
            Cmd::ByDate(author) => {
                let sort = if *author { "--sort=authordate" } else { "--sort=committerdate" };
                return vec![sys::bin("git-recent-refs").into(), sort.into()];
            }
            Cmd::Visits => return vec![sys::bin("git-recent-refs").into()],
            Cmd::At(rev, i, summary) => (rev, *i, summary),
        };
        let mut v: Vec<OsString> = vec![sys::bin("git-at").into()];
        if *summary {
            v.push("--summary".into());
        }
        match rev {
            Rev::Default => (),
            Rev::Name(n) => v.push(short(*n).into()),
            Rev::Full(n) => v.push(NAMES[*n].into()),
            Rev::Parent(n) => v.push(format!("{}~1", NAMES[*n]).into()),
            Rev::Id(c) => v.push(ids[*c].clone().into()),
            Rev::Short(c, n) => v.push(ids[*c][..*n].into()),
            Rev::Log(n) => v.push(format!("HEAD@{{{}}}", n).into()),
            Rev::Previous => v.push("@{-1}".into()),
        }
        v.push(if i < self.commits.len() { text(i).into() } else { "not there".into() });
        v
    }
}

fn act(r: &GitRepo, a: Act) -> Check {
    let args: &[&str] = match a {
        Act::PackRefs => &["pack-refs", "--all"],
        Act::RepackNew => &["repack", "-q", "-d"],
        Act::RepackAll => &["repack", "-q", "-a", "-d", "-k"],
        Act::PrunePacked => &["prune-packed", "-q"],
        Act::Gc => &["gc", "-q", "--prune=never"],
        Act::CommitGraph => &["commit-graph", "write", "--reachable"],
        Act::MultiPack => &["multi-pack-index", "write"],
        Act::Reflogs => &["reflog", "expire", "--expire=never", "--expire-unreachable=never", "--all"],
        Act::Loosen => {
            let refs = r.git_ok(&["for-each-ref", "--format=%(objectname) %(refname)"])?;
            for l in String::from_utf8_lossy(&refs).lines() {
                let (id, name) = l.split_at(40);
                let name = name.trim();
                // As Git does it.
                let lock = format!("{}.lock", name);
                r.set_ref(&lock, id)?;
                sys::chown(&r.git.join(&lock), r.uid, sys::GID)?;
                let mut d = r.git.join(name);
                while d.pop() && d != r.git {
                    sys::chown(&d, r.uid, sys::GID)?;
                }
                std::fs::rename(r.git.join(&lock), r.git.join(name))?;
            }
            return Ok(());
        }
    };
    let d = r.git(args)?;
    // There may be no packs to index.
    if d.exit != Exit::Code(0) && a != Act::MultiPack {
        return Err(Stop::Error(format!("git {:?}: {:?}", args, d)));
    }
    Ok(())
}

fn update(r: &GitRepo, u: Update, ids: &[String]) -> Check {
    let zero = "0".repeat(40);
    // Whether it can be done depends on what there is.
    let _ = match u {
        Update::Create(n, c) => r.git(&["update-ref", NAMES[n], &ids[c], &zero])?,
        Update::Move(n, c) => r.git(&["update-ref", NAMES[n], &ids[c]])?,
        Update::Delete(n) => {
            if n < BRANCHES {
                r.git(&["branch", "-q", "-D", short(n)])?
            } else {
                r.git(&["update-ref", "-d", NAMES[n]])?
            }
        }
        Update::Commit => r.git(&["commit", "-q", "--allow-empty", "-m", "commit 0 ends, anew"])?,
        Update::Rename(a, b) => r.git(&["branch", "-m", short(a), short(b)])?,
    };
    Ok(())
}

/// Whether it has to do with the repository.
fn concerned(s: &Sys, top: &Path) -> bool {
    s.under(top)
}

fn start(r: &GitRepo, argv: &[OsString]) -> Check<(Tracee, [sys::Fd; 2])> {
    let stdin = sys::devnull()?;
    let out = sys::memfd(b"")?;
    let err = sys::memfd(b"")?;
    let mut s = r.spawn(argv, &r.work);
    s.fds = [stdin.0, out.0, err.0];
    Ok((Tracee::start(s)?, [out, err]))
}

fn lines(d: &Done) -> Vec<String> {
    String::from_utf8_lossy(&d.out).lines().map(|l| l.to_string()).collect()
}

/// Whether these are all in the others, in the same order.
fn within(part: &[String], all: &[String]) -> bool {
    let mut all = all.iter();
    part.iter().all(|l| all.any(|x| x == l))
}

/// The longer one, with what is only in the other.
fn merged(a: &[String], b: &[String]) -> Vec<String> {
    let mut v = vec![];
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if i < a.len() && j < b.len() && a[i] == b[j] {
            v.push(a[i].clone());
            i += 1;
            j += 1;
        } else if i < a.len() && (j >= b.len() || !b[j..].contains(&a[i])) {
            v.push(a[i].clone());
            i += 1;
        } else if j < b.len() {
            v.push(b[j].clone());
            j += 1;
        }
    }
    v
}

pub struct Maintenance;

impl Prop for Maintenance {
    type Case = Busy;
    type Ctx = Ctx;

    fn id(&self) -> &'static str {
        "P31"
    }
    fn rule(&self) -> &'static str {
        "while a command was reading the repository, something was changed in it, and the command found something"
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            200_000
        } else {
            1_500
        }
    }
    fn ctx(&self, worker: usize) -> Ctx {
        Ctx::new(worker)
    }
    fn shrink_budget(&self) -> usize {
        150
    }
    fn gen(&self, s: &mut Src) -> Busy {
        let n = s.usize(1, 10);
        let mut commits = gitat::history(s, n, |_, i| format!("{}\n\nMore\n", text(i)).into());
        for (i, c) in commits.iter_mut().enumerate() {
            c.time = 1_600_000_000 + i as i64 * 100;
        }
        let mut refs: Vec<Option<usize>> =
            NAMES.iter().map(|_| if s.chance(2, 3) { Some(s.usize(0, n - 1)) } else { None }).collect();
        let place = |s: &mut Src| {
            if s.chance(3, 4) {
                Ok(s.usize(0, BRANCHES - 1))
            } else {
                Err(s.usize(0, n - 1))
            }
        };
        let head = place(s);
        if let Ok(b) = head {
            refs[b].get_or_insert(n - 1);
        }
        let log = (0..s.usize(0, 5)).map(|_| place(s)).collect();
        let acts = |s: &mut Src| (0..s.usize(0, 3)).map(|_| *s.pick(&ACTS)).collect();
        let tries = (0..s.usize(1, 4))
            .map(|_| {
                let cmd = match s.weighted(&[4, 3, 2]) {
                    0 => {
                        let rev = match s.weighted(&[4, 3, 3, 2, 2, 2, 1, 1]) {
                            0 => Rev::Default,
                            1 => Rev::Name(s.usize(0, NAMES.len() - 1)),
                            2 => Rev::Full(s.usize(0, NAMES.len() - 1)),
                            3 => Rev::Parent(s.usize(0, NAMES.len() - 1)),
                            4 => Rev::Id(s.usize(0, n - 1)),
                            5 => Rev::Short(s.usize(0, n - 1), s.usize(7, 20)),
                            6 => Rev::Log(s.usize(0, 3)),
                            _ => Rev::Previous,
                        };
                        Cmd::At(rev, s.usize(0, n), s.chance(1, 3))
                    }
                    1 => Cmd::ByDate(s.chance(1, 2)),
                    _ => Cmd::Visits,
                };
                let mut seen = 0;
                let mut events: Vec<(u64, Event)> = (0..s.usize(1, 4))
                    .map(|_| (s.below(1024), event(s, n)))
                    .filter(|(_, e)| {
                        // Nobody does everything again and again in the blink of an eye.
                        let kind = match e {
                            Event::Update(_) => 1,
                            Event::Act(Act::RepackAll) => 3,
                            Event::Act(Act::RepackNew) => 2,
                            Event::Act(Act::PackRefs) | Event::Act(Act::Loosen) => 4,
                            Event::Act(Act::Gc) => 7,
                            _ => 0,
                        };
                        let new = seen & kind == 0;
                        let new = new
                            && match (e, head) {
                                (Event::Update(Update::Rename(a, _)), Ok(h)) => *a != h,
                                _ => true,
                            };
                        seen |= if new { kind } else { 0 };
                        new
                    })
                    .collect();
                events.sort_by_key(|e| e.0);
                Try { cmd, events }
            })
            .collect();
        Busy {
            commits,
            refs,
            tags: s.chance(1, 2),
            head,
            log,
            split: s.usize(0, n),
            first: acts(s),
            second: acts(s),
            tries,
        }
    }
    fn check(&self, case: &Busy, ctx: &mut Ctx, out: &mut Outcome) -> Check {
        out.executions = 0;
        for (i, t) in case.tries.iter().enumerate() {
            let r = GitRepo::new(ctx, &format!("g{}", i), false)?;
            let ids = case.build(&r)?;
            sys::chown(&r.top, r.uid, sys::GID)?;
            one(case, t, &r, &ids, out)?;
            sys::remove(&r.top);
        }
        Ok(())
    }
}

fn one(case: &Busy, t: &Try, r: &GitRepo, ids: &[String], out: &mut Outcome) -> Check {
    let argv = case.argv(&t.cmd, ids);
    let before = r.run_in(&argv, &r.work)?;
    // How long it takes.
    let (mut p, _fds) = start(r, &argv)?;
    let mut points = 0;
    loop {
        match p.next()? {
            Ev::Exit(_) => break,
            Ev::Enter(s) if concerned(&s, &r.top) => points += 1,
            _ => (),
        }
    }
    let (mut p, fds) = start(r, &argv)?;
    let mut events = t.events.iter().peekable();
    let mut n = 0;
    let mut happened = vec![];
    loop {
        match p.next()? {
            Ev::Exit(_) => break,
            Ev::Enter(s) if concerned(&s, &r.top) => {
                while let Some((at, e)) = events.peek() {
                    if at * points / 1024 > n {
                        break;
                    }
                    match e {
                        Event::Act(a) => act(r, *a)?,
                        Event::Update(u) => update(r, *u, ids)?,
                    }
                    happened.push(format!("before {}: {:?}", s.brief(&r.top), e));
                    out.class(match e {
                        Event::Act(a) => format!("{:?}", a),
                        Event::Update(u) => format!("{:?}", u).split('(').next().unwrap_or("").to_string(),
                    });
                    events.next();
                }
                n += 1;
                if events.peek().is_none() {
                    p.leave()?;
                    p.detach()?;
                    break;
                }
            }
            _ => (),
        }
    }
    let exit = p.finish()?;
    let got = Done {
        exit,
        out: B(sys::read_memfd(&fds[0])?),
        err: B(sys::read_memfd(&fds[1])?),
    };
    let after = r.run_in(&argv, &r.work)?;
    out.executions += 1;
    let changes = t.events.iter().any(|(_, e)| matches!(e, Event::Update(_)));
    let prog = Path::new(&argv[0]).file_name().unwrap_or_default().to_string_lossy();
    let what = format!(
        "{} {:?}, while this happened: {:?}: {:?}; before: {:?}, after: {:?}",
        prog,
        &argv[1..],
        happened,
        got,
        before,
        after
    );
    if !happened.is_empty() && !got.out.0.is_empty() {
        out.nontrivial = true;
    }
    let event = t.events.iter().find_map(|(_, e)| match e {
        Event::Update(u) => Some(*u),
        _ => None,
    });
    let same = |d: &Done| d.exit == got.exit && d.out == got.out;
    // A file may be gone or replaced between finding and opening or reading it.  That's an error,
    // but no different answer.
    let moves = t.events.iter().any(|(_, e)| {
        matches!(
            e,
            Event::Act(Act::RepackAll | Act::RepackNew | Act::PrunePacked | Act::Gc) | Event::Update(_)
        )
    });
    if prog == "git-at" && moves && got.exit == Exit::Code(2) && got.out.0.is_empty() && !got.err.0.is_empty() {
        out.class("it fails, as a file changed at the wrong moment");
        return Ok(());
    }
    let replaces = t.events.iter().any(|(_, e)| matches!(e, Event::Act(Act::RepackAll | Act::Gc)));
    if prog == "git-recent-refs" && replaces && !same(&before) && !same(&after) {
        // Similarly, references which cannot be read are left out.
        let most = merged(&lines(&before), &lines(&after));
        ensure!(got.exit == Exit::Code(0) && within(&lines(&got), &most), "a different result: {}", what);
        out.class("references left out, as a file changed at the wrong moment");
        return Ok(());
    }
    if !changes {
        ensure!(same(&before), "a different result: {}", what);
        ensure!(same(&after), "a different result: {}", what);
        return Ok(());
    }
    let (g, b, a) = (lines(&got), lines(&before), lines(&after));
    match t.cmd {
        Cmd::At(..) => ensure!(same(&before) || same(&after), "neither result: {}", what),
        _ => ensure!(got.exit == Exit::Code(0), "it fails: {}", what),
    }
    match t.cmd {
        Cmd::At(..) => (),
        Cmd::ByDate(_) => {
            let both: BTreeSet<&String> = b.iter().filter(|x| a.contains(x)).collect();
            let mut seen = BTreeSet::new();
            for x in &g {
                ensure!(seen.insert(x), "{} twice: {}", x, what);
                ensure!(b.contains(x) || a.contains(x), "{} is printed: {}", x, what);
            }
            let kept: Vec<String> = b.iter().filter(|x| both.contains(x)).cloned().collect();
            let order = !matches!(event, Some(Update::Move(..) | Update::Commit));
            ensure!(!order || within(&kept, &g), "not in order: {}", what);
            for x in &both {
                ensure!(seen.contains(x), "{} is missing: {}", x, what);
            }
        }
        Cmd::Visits => {
            // The current branch and the history are not read at the same time.
            let one = |first: &[String], rest: &[String]| -> bool {
                let g = g.split_first();
g.map(|x| x.0) == first.first() && g.map_or(true, |x| x.1 == &rest[rest.len().min(1)..])
            };
            // A branch may be looked up several times.
            let between = match event {
                Some(Update::Create(..) | Update::Move(..) | Update::Delete(..) | Update::Rename(..)) => {
                    within(&g, &merged(&b, &a)) && a.iter().all(|x| !b.contains(x) || g.contains(x))
                }
                _ => false,
            };
            ensure!(
                one(&b, &b) || one(&b, &a) || one(&a, &b) || one(&a, &a) || between,
                "neither the history before nor after: {}",
                what
            );
        }
    }
    Ok(())
}
