//! System calls of git at and git recent-refs which fail: P29.

use crate::repo::{Done, GitRepo};
use crate::revs::{self, Ask, Resolve};
use crate::store::Ctx;
use crate::sys::{self, Exit};
use crate::trace::{Ev, Sys, Tracee};
use std::ffi::OsString;
use std::path::Path;
use vcore::{ensure, mix, violation, Check, Outcome, Prop, Src, B};

#[derive(Debug)]
enum Cmd {
    At(Ask),
    Recent(&'static str),
}

#[derive(Debug)]
pub struct Spoiled {
    repo: Resolve,
    packed: bool,
    cmds: Vec<Cmd>,
    losses: Vec<Loss>,
    salt: u64,
}

/// A commit which history needs and which can't be read.
#[derive(Debug)]
struct Loss {
    start: usize,
    victim: usize,
    how: How,
    /// The commit to look for, if any.
    sought: Option<usize>,
    quiet: bool,
    no_fixup: bool,
}

#[derive(Debug, Clone, Copy)]
enum How {
    Missing,
    Empty,
    Forbidden,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Failure {
    Errno(i32),
    /// Only a part is read or written.
    Short,
}

fn failures(s: &Sys) -> Vec<Failure> {
    use libc::*;
    let file = s.fd.map_or(false, |f| f > 2);
    let e: &[i32] = match s.nr {
        SYS_open | SYS_openat | SYS_creat | SYS_openat2 => &[EACCES, EMFILE, ENFILE, EIO, ENOMEM],
        SYS_read | SYS_pread64 | SYS_readv if file => &[EIO, ENOMEM],
        SYS_write | SYS_writev if matches!(s.fd, Some(1) | Some(2)) => &[EIO, ENOSPC, EDQUOT, EFBIG],
        SYS_stat | SYS_lstat | SYS_newfstatat | SYS_statx => &[EIO, EACCES, ENOMEM],
        SYS_fstat if file => &[EIO, ENOMEM],
        SYS_access | SYS_faccessat | SYS_faccessat2 => &[EIO, EACCES, ENOMEM],
        SYS_readlink | SYS_readlinkat => &[EIO, EACCES, ENOMEM],
        SYS_getdents64 | SYS_getdents => &[EIO, ENOMEM],
        SYS_getcwd => &[EACCES, ENOMEM],
        SYS_lseek if file => &[EIO],
        SYS_mmap if s.file.is_some() => &[ENOMEM, EACCES],
        _ => &[],
    };
    let mut v: Vec<Failure> = e.iter().map(|e| Failure::Errno(*e)).collect();
    if (file && s.nr == SYS_read || matches!(s.fd, Some(1) | Some(2)) && s.nr == SYS_write) && s.args[2] > 1 {
        v.push(Failure::Short);
    }
    v
}

/// Whether it is one of those which may be made to fail: those of the repository, and the output.
fn concerned(s: &Sys, top: &Path) -> bool {
    s.under(top) || matches!(s.fd, Some(1) | Some(2)) || s.nr == libc::SYS_getcwd
}

pub struct Spoil;

fn start(r: &GitRepo, argv: &[OsString]) -> Check<(Tracee, [sys::Fd; 2])> {
    let stdin = sys::devnull()?;
    let out = sys::memfd(b"")?;
    let err = sys::memfd(b"")?;
    let mut s = r.spawn(argv, &r.work);
    s.fds = [stdin.0, out.0, err.0];
    Ok((Tracee::start(s)?, [out, err]))
}

impl Prop for Spoil {
    type Case = Spoiled;
    type Ctx = Ctx;

    fn id(&self) -> &'static str {
        "P29"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn rule(&self) -> &'static str {
        "a command succeeds, and each system call on the repository or its output failed once"
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            40_000
        } else {
            300
        }
    }
    fn ctx(&self, worker: usize) -> Ctx {
        Ctx::new(worker)
    }
    fn shrink_budget(&self) -> usize {
        150
    }
    fn gen(&self, s: &mut Src) -> Spoiled {
        let mut repo = revs::Revisions.gen(s);
        let mut cmds: Vec<Cmd> = (0..s.usize(0, 2))
            .map(|_| Cmd::Recent(s.pick(&["--sort=visitdate", "--sort=committerdate", "--sort=authordate"])))
            .collect();
        for a in repo.take_asks() {
            let i = s.usize(0, cmds.len());
            cmds.insert(i, Cmd::At(a.without_show()));
        }
        cmds.truncate(3);
        let pairs = repo.ancestors();
        let n = match pairs.len() {
            0 => 0,
            _ => s.usize(0, 4),
        };
        let losses = (0..n)
            .map(|_| {
                let (start, victim) = *s.pick(&pairs);
                Loss {
                    start,
                    victim,
                    how: s.pick(&[How::Missing, How::Empty, How::Forbidden]).clone(),
                    sought: match s.below(4) {
                        0 | 1 => None,
                        2 => Some(victim),
                        _ => Some(s.pick(&pairs).1),
                    },
                    quiet: s.chance(1, 2),
                    no_fixup: s.chance(1, 3),
                }
            })
            .collect();
        Spoiled {
            repo,
            losses,
            packed: s.chance(1, 3),
            cmds,
            salt: s.below(1 << 30),
        }
    }
    fn check(&self, case: &Spoiled, ctx: &mut Ctx, out: &mut Outcome) -> Check {
        let r = GitRepo::new(ctx, "g", false)?;
        let (ids, _) = case.repo.build(&r)?;
        sys::chown(&r.top, r.uid, sys::GID)?;
        r.own()?;
        out.executions = 0;
        for l in &case.losses {
            lose(&r, &ids, l, out)?;
        }
        if case.packed {
            let _ = r.git(&["repack", "-q", "-a", "-d"])?;
            let _ = r.git(&["pack-refs", "--all"])?;
        }
        for c in &case.cmds {
            let argv: Vec<OsString> = match c {
                Cmd::At(a) => a.argv(),
                Cmd::Recent(x) => vec![sys::bin("git-recent-refs").into(), (*x).into()],
            };
            let want = r.run_in(&argv, &r.work)?;
            let (mut t, _fds) = start(&r, &argv)?;
            let mut points = vec![];
            loop {
                match t.next()? {
                    Ev::Exit(_) => break,
                    Ev::Leave(..) => (),
                    Ev::Enter(s) => {
                        if concerned(&s, &r.top) && !failures(&s).is_empty() {
                            points.push(s);
                        }
                    }
                }
            }
            for (i, p) in points.iter().enumerate() {
                let mut fs = failures(p);
                if !crate::faults::vh_thorough() {
                    let k = mix(case.salt ^ (i as u64) << 8) as usize;
                    fs = vec![fs[k % fs.len()]];
                }
                for f in fs {
                    out.executions += 1;
                    one(&r, &argv, i, f, &want, out)?;
                }
            }
            sinks(&r, &argv, &r.work, Some(&want), out)?;
            out.nontrivial |= want.exit == Exit::Code(0) && !want.out.0.is_empty();
        }
        // Where there is no repository, they fail, wherever the message goes.
        for prog in ["git-at", "git-recent-refs"] {
            let mut argv: Vec<OsString> = vec![sys::bin(prog).into()];
            if prog == "git-at" {
                argv.push("x".into());
            }
            sinks(&r, &argv, &r.top, None, out)?;
        }
        // Without git, nothing can be shown.
        let argv: Vec<OsString> = vec![sys::bin("git-at").into(), "--show".into(), "".into()];
        let mut s = r.spawn(&argv, &r.work);
        s.env.retain(|e| !e.as_bytes().starts_with(b"PATH="));
        s.env.push(sys::cstr("PATH=/nonexistent"));
        let d = crate::repo::run(&mut s)?;
        out.executions += 1;
        let good = match d.exit {
            Exit::Code(c) => c != 0 && c != 101,
            _ => false,
        };
        ensure!(good && !d.err.0.is_empty(), "git at --show without git: {:?}", d);
        Ok(())
    }
}

/// Run git at on history in which a commit can't be read.
fn lose(r: &GitRepo, ids: &[String], l: &Loss, out: &mut Outcome) -> Check {
    let mut argv: Vec<OsString> = vec![sys::bin("git-at").into()];
    for (on, o) in [(l.quiet, "-q"), (l.no_fixup, "--no-fixup")] {
        if on {
            argv.push(o.into());
        }
    }
    argv.push((&ids[l.start]).into());
    argv.push(l.sought.map_or("(?!)".into(), |i| format!("^{}", revs::summary_of(i))).into());
    let want = r.run_in(&argv, &r.work)?;
    let id = &ids[l.victim];
    let file = r.git.join("objects").join(&id[..2]).join(&id[2..]);
    let content = std::fs::read(&file)?;
    match l.how {
        How::Missing => std::fs::remove_file(&file)?,
        How::Empty => std::fs::write(&file, b"")?,
        How::Forbidden => sys::chmod(&file, 0),
    }
    let got = r.run_in(&argv, &r.work)?;
    std::fs::write(&file, content)?;
    sys::chown(&file, r.uid, sys::GID)?;
    sys::chmod(&file, 0o444);
    out.executions += 1;
    out.class(format!("a commit is {:?}", l.how).to_lowercase());
    let what = format!("git at {:?}, with {} {:?}: {:?}; otherwise {:?}", &argv[1..], id, l.how, got, want);
    match got.exit {
        Exit::Code(0) => ensure!(got.out == want.out && want.exit == got.exit, "a different result: {}", what),
        Exit::Code(2) => ensure!(
            got.out.0.is_empty() && !got.err.0.is_empty(),
            "output or no message: {}",
            what
        ),
        Exit::Code(1) => violation!("history that can't be read is taken for no match: {}", what),
        _ => violation!("it crashes: {}", what),
    }
    Ok(())
}

/// Run it with output which is full or which nobody reads.
fn sinks(r: &GitRepo, argv: &[OsString], cwd: &Path, want: Option<&Done>, out: &mut Outcome) -> Check {
    let prog = Path::new(&argv[0]).file_name().unwrap_or_default().to_string_lossy();
    for n in 0..4 {
        let full = sys::open("/dev/full")?;
        // Unlike with a pipe, it doesn't matter who else has the other end for a moment.
        let (reader, closed) = sys::socketpair()?;
        sys::shutdown(&reader);
        let stdin = sys::devnull()?;
        let o = sys::memfd(b"")?;
        let e = sys::memfd(b"")?;
        let bad = if n % 2 == 0 { full.0 } else { closed.0 };
        let mut s = r.spawn(argv, cwd);
        let output = n < 2;
        s.fds = if output { [stdin.0, bad, e.0] } else { [stdin.0, o.0, bad] };
        let exit = sys::sane(s.start()?.wait()?)?;
        out.executions += 1;
        let err = B(sys::read_memfd(&e)?);
        let got = B(sys::read_memfd(&o)?);
        let what = format!(
            "{} {:?} in {:?}, with {} {}: {:?}, {:?}, {:?}; otherwise {:?}",
            prog,
            &argv[1..],
            cwd.strip_prefix(&r.top).unwrap_or(cwd),
            if output { "standard output" } else { "standard error" },
            if n % 2 == 0 { "full" } else { "closed" },
            exit,
            got,
            err,
            want
        );
        let spoiled = output && want.map_or(false, |w| !w.out.0.is_empty());
        match (exit, want) {
            (Exit::Code(101), _) => violation!("it panics: {}", what),
            // The usual way to end.
            (Exit::Signal(libc::SIGPIPE), _) if n % 2 == 1 => {
                ensure!(spoiled || !output && want.map_or(true, |w| !w.err.0.is_empty()), "it crashes: {}", what)
            }
            (Exit::Signal(_), _) | (Exit::Timeout, _) => violation!("it crashes: {}", what),
            (Exit::Code(0), _) if spoiled => violation!("lost output is taken for success: {}", what),
            (Exit::Code(1), _) if spoiled && prog == "git-at" => violation!("taken for no match: {}", what),
            (Exit::Code(c), None) => ensure!(c != 0, "it succeeds: {}", what),
            (_, Some(w)) if !spoiled => {
                ensure!(exit == w.exit && (output || got == w.out), "a different result: {}", what)
            }
            _ => ensure!(!err.0.is_empty(), "it fails without a message: {}", what),
        }
    }
    Ok(())
}

fn one(r: &GitRepo, argv: &[OsString], point: usize, f: Failure, want: &Done, out: &mut Outcome) -> Check {
    let (mut t, fds) = start(r, argv)?;
    let mut n = 0;
    let s = loop {
        match t.next()? {
            Ev::Exit(_) => return Ok(()),
            Ev::Leave(..) => (),
            Ev::Enter(s) => {
                if !concerned(&s, &r.top) || failures(&s).is_empty() {
                    continue;
                }
                if n == point {
                    break s;
                }
                n += 1;
            }
        }
    };
    if !failures(&s).contains(&f) {
        // It did something else this time.
        return Ok(());
    }
    match f {
        Failure::Errno(e) => t.pretend(-(e as i64))?,
        Failure::Short => t.set_len((s.args[2] / 2).max(1))?,
    }
    t.leave()?;
    let exit = t.detach()?;
    let got = Done {
        exit,
        out: B(sys::read_memfd(&fds[0])?),
        err: B(sys::read_memfd(&fds[1])?),
    };
    out.class(format!(
        "{} of {}{}",
        match f {
            Failure::Short => "a short count",
            _ => "an error",
        },
        s.name(),
        match s.fd {
            Some(1) => " of the output",
            Some(2) => " of messages",
            _ => "",
        }
    ));
    judge(argv, &format!("{:?} of {}", f, s.brief(&r.top)), spot(&s, f), want, &got)
}

/// Where something failed.
#[derive(Debug, Clone, Copy, PartialEq)]
enum Spot {
    /// Nothing did, only less was read or written than could have been.
    Nowhere,
    Output,
    Messages,
    /// Opening or reading an object.
    Object,
    /// Looking for objects.
    Objects,
    Elsewhere,
}

fn spot(s: &Sys, f: Failure) -> Spot {
    let objects = s
        .paths
        .iter()
        .chain(s.file.iter())
        .any(|p| p.components().any(|c| c.as_os_str() == "objects"));
    let object = s.paths.iter().chain(s.file.iter()).any(|p| {
        let n = p.file_name().unwrap_or_default().to_string_lossy();
        n.len() == 38 && n.bytes().all(|b| b.is_ascii_hexdigit())
    });
    match (f, s.fd) {
        (Failure::Short, _) => Spot::Nowhere,
        (_, Some(1)) => Spot::Output,
        (_, Some(2)) => Spot::Messages,
        _ if object
            && (s.is_open() || matches!(s.nr, libc::SYS_read | libc::SYS_fstat | libc::SYS_pread64)) =>
        {
            Spot::Object
        }
        _ if objects => Spot::Objects,
        _ => Spot::Elsewhere,
    }
}

/// Whether these lines are all in the others, in the same order.
fn within(part: &[u8], all: &[u8]) -> bool {
    let mut all = all.split_inclusive(|b| *b == b'\n');
    part.split_inclusive(|b| *b == b'\n').all(|l| all.any(|x| x == l))
}

fn judge(argv: &[OsString], how: &str, spot: Spot, want: &Done, got: &Done) -> Check {
    let prog = Path::new(&argv[0]).file_name().unwrap_or_default().to_string_lossy();
    let what = format!("{} {:?}, with {}: {:?}; otherwise: {:?}", prog, &argv[1..], how, got, want);
    let code = match got.exit {
        Exit::Code(101) => violation!("it panics: {}", what),
        Exit::Code(c) => c,
        _ => violation!("it crashes: {}", what),
    };
    let at = prog == "git-at";
    let quiet = at && code == 1 && argv.iter().any(|a| a == "-q" || a == "--quiet");
    ensure!(
        code == 0 || !got.err.0.is_empty() || quiet || spot == Spot::Messages,
        "it fails without a message: {}",
        what
    );
    let prefix = want.out.0.starts_with(&got.out.0);
    let same = got.exit == want.exit && got.out == want.out;
    match spot {
        Spot::Nowhere => ensure!(same, "a different result: {}", what),
        Spot::Messages => ensure!(same, "a different result: {}", what),
        Spot::Output => {
            ensure!(code != 0, "incomplete output is taken for success: {}", what);
            ensure!(code != 1 || !at, "taken for no match: {}", what);
            ensure!(prefix, "different output: {}", what);
        }
        _ if at => {
            ensure!(code == 0 || got.out.0.is_empty(), "output despite failing: {}", what);
            ensure!(
                code != 0 || same || spot == Spot::Elsewhere,
                "a different result: {}",
                what
            );
            ensure!(
                code != 1 || want.exit == got.exit || spot != Spot::Object,
                "failing to read is taken for no match: {}",
                what
            );
        }
        _ => ensure!(within(&got.out.0, &want.out.0), "different output: {}", what),
    }
    Ok(())
}
