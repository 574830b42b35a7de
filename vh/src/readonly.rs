//! git at and git recent-refs do not change anything: P24.

use crate::refs;
use crate::repo::{Done, GitRepo};
use crate::revs::{self, Ask, Resolve};
use crate::store::Ctx;
use crate::sys::{self, Exit};
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::fs;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};
use vcore::{ensure, violation, Check, Outcome, Prop, Src, B};

#[derive(Debug, Clone, Copy, PartialEq)]
enum Extra {
    /// Files of the working tree, some of them in the index.
    Work,
    /// An index which is out of date.
    StaleIndex,
    GarbageIndex,
    /// An object which is missing, or damaged.
    Gone(usize),
    Damaged(usize),
    EmptyRef,
    GarbageRef,
    GarbagePacked,
    /// Left behind by a process which was killed.
    Lock(u8),
    Unborn,
    NoHead,
    GarbageLog,
    EmptyLog,
    NoLogs,
    /// No directory for reflogs, and no file for HEAD's.
    NoHeadLog,
    Config(u8),
    Dangling,
    Alternate,
    Repack,
    Readonly,
}

#[derive(Debug)]
enum Cmd {
    At(Ask),
    Recent(&'static str),
    Odd(&'static [&'static str]),
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Place {
    Top,
    Below,
    Git,
    Linked,
    Outside,
}

#[derive(Debug)]
pub struct Untouched {
    repo: Resolve,
    extra: Vec<Extra>,
    place: Place,
    cmds: Vec<Cmd>,
}

/// All there is to know about a file, except for when it was read.
#[derive(Debug, PartialEq, Clone)]
struct Seen {
    ino: u64,
    mode: u32,
    owner: (u32, u32),
    links: u64,
    mtime: (i64, i64),
    content: B,
}

fn snapshot(p: &Path, v: &mut BTreeMap<PathBuf, Seen>) -> Check {
    let m = fs::symlink_metadata(p)?;
    let content = if m.is_symlink() {
        fs::read_link(p)?.as_os_str().as_bytes().to_vec()
    } else if m.is_file() {
        fs::read(p)?
    } else {
        vec![]
    };
    v.insert(
        p.into(),
        Seen {
            ino: m.ino(),
            mode: m.mode(),
            owner: (m.uid(), m.gid()),
            links: m.nlink(),
            mtime: (m.mtime(), m.mtime_nsec()),
            content: B(content),
        },
    );
    if m.is_dir() {
        for e in fs::read_dir(p)? {
            snapshot(&e?.path(), v)?;
        }
    }
    Ok(())
}

fn compare(a: &BTreeMap<PathBuf, Seen>, b: &BTreeMap<PathBuf, Seen>, top: &Path) -> Vec<String> {
    let name = |p: &Path| p.strip_prefix(top).unwrap_or(p).display().to_string();
    let mut v = vec![];
    for (p, x) in a {
        match b.get(p) {
            None => v.push(format!("{} has been removed", name(p))),
            Some(y) if x != y => {
                let what = if x.content != y.content {
                    "contents"
                } else if x.mode != y.mode {
                    "mode"
                } else if x.owner != y.owner {
                    "owner"
                } else if x.ino != y.ino {
                    "inode"
                } else {
                    "modification time"
                };
                v.push(format!("{} of {:?} changed", what, name(p)));
            }
            _ => {}
        }
    }
    for p in b.keys() {
        if !a.contains_key(p) {
            v.push(format!("{:?} is new", name(p)));
        }
    }
    v
}

/// Let everyone read everything, and nobody but root write.
fn read_only(p: &Path) -> Check {
    sys::chown(p, 0, 0)?;
    let m = fs::symlink_metadata(p)?;
    if m.is_dir() {
        sys::chmod(p, 0o755);
        for e in fs::read_dir(p)? {
            read_only(&e?.path())?;
        }
    } else if !m.is_symlink() {
        sys::chmod(p, 0o644);
    }
    Ok(())
}

impl Extra {
    fn apply(self, r: &GitRepo, ids: &[String]) -> Check {
        let object = |i: usize| {
            let id = &ids[i % ids.len()];
            r.git.join("objects").join(&id[..2]).join(&id[2..])
        };
        match self {
            Extra::Work => {
                fs::create_dir_all(r.work.join("sub/dir"))?;
                fs::write(r.work.join("sub/dir/file"), b"text\n")?;
                fs::write(r.work.join("other"), b"text\n")?;
                fs::write(r.work.join(".gitattributes"), b"* text=auto\n")?;
                fs::write(r.work.join(".gitignore"), b"*.o\n")?;
                let _ = std::os::unix::fs::symlink("other", r.work.join("link"));
            }
            Extra::StaleIndex => {
                fs::write(r.work.join("indexed"), b"1\n")?;
                sys::chown_r(&r.work, r.uid, sys::GID)?;
                // This may fail, if something else is in the way.
                let _ = r.git(&["add", "--", "indexed"])?;
                fs::write(r.work.join("indexed"), b"1\n")?;
            }
            Extra::GarbageIndex => r.file("index", b"DIRC\0\0\0\x02rubbish")?,
            Extra::Gone(i) => {
                let _ = fs::remove_file(object(i));
            }
            Extra::Damaged(i) => {
                let p = object(i);
                if p.exists() {
                    fs::remove_file(&p)?;
                    // Given something which starts like a stream of zlib, libgit2 hangs.
                    fs::write(&p, b"rubbish")?;
                }
            }
            Extra::EmptyRef => r.file("refs/heads/empty", b"")?,
            Extra::GarbageRef => r.file("refs/heads/garbage", b"rubbish\n")?,
            Extra::GarbagePacked => {
                let mut v = fs::read(r.git.join("packed-refs")).unwrap_or_default();
                v.extend_from_slice(b"rubbish\n");
                r.file("packed-refs", &v)?;
            }
            Extra::Lock(k) => {
                let n = ["index.lock", "HEAD.lock", "packed-refs.lock", "config.lock", "refs/heads/main.lock"];
                r.file(n[k as usize], b"")?;
            }
            Extra::Unborn => r.file("HEAD", b"ref: refs/heads/unborn\n")?,
            Extra::NoHead => {
                let _ = fs::remove_file(r.git.join("HEAD"));
            }
            Extra::GarbageLog => r.file("logs/HEAD", b"rubbish\nrubbish rubbish\n")?,
            Extra::EmptyLog => r.file("logs/HEAD", b"")?,
            Extra::NoLogs => sys::remove(&r.git.join("logs")),
            Extra::NoHeadLog => {
                let _ = fs::remove_file(r.git.join("logs/HEAD"));
            }
            Extra::Config(k) => {
                let mut v = fs::read(r.git.join("config"))?;
                v.extend_from_slice(
                    [
                        "[core]\n\tlogAllRefUpdates = always\n",
                        "[core]\n\tsharedRepository = group\n",
                        "[core]\n\tfsmonitor = true\n\tuntrackedCache = true\n",
                        "[gc]\n\tauto = 1\n\tautoDetach = false\n",
                        "[core]\n\tpackedRefsTimeout = 1\n\tfilesRefLockTimeout = 1\n",
                        "[core\n",
                        "[core]\n\trepositoryformatversion = 99\n",
                        "[core]\n\tlogAllRefUpdates = false\n",
                    ][k as usize]
                        .as_bytes(),
                );
                r.file("config", &v)?;
            }
            Extra::Dangling => r.symref("refs/remotes/origin/HEAD", "refs/remotes/origin/nothing")?,
            Extra::Alternate => {
                fs::create_dir_all(r.top.join("alt/objects"))?;
                r.file(
                    "objects/info/alternates",
                    format!("{}\n", r.top.join("alt/objects").display()).as_bytes(),
                )?;
            }
            Extra::Repack => {
                sys::chown_r(&r.work, r.uid, sys::GID)?;
                // This may fail, if something else is in the way.
                let _ = r.git(&["repack", "-q", "-a", "-d"])?;
                let _ = r.git(&["commit-graph", "write"])?;
            }
            Extra::Readonly => {
                for n in ["refs", "logs", "objects"] {
                    let p = r.git.join(n);
                    if p.exists() {
                        sys::chmod(&p, 0o555);
                    }
                }
            }
        }
        Ok(())
    }
}

fn extra(s: &mut Src) -> Extra {
    let i = s.usize(0, 7);
    match s.weighted(&[4, 3, 1, 1, 1, 1, 1, 1, 3, 1, 1, 1, 2, 3, 3, 3, 1, 1, 3, 2]) {
        0 => Extra::Work,
        1 => Extra::StaleIndex,
        2 => Extra::GarbageIndex,
        3 => Extra::Gone(i),
        4 => Extra::Damaged(i),
        5 => Extra::EmptyRef,
        6 => Extra::GarbageRef,
        7 => Extra::GarbagePacked,
        8 => Extra::Lock(s.below(5) as u8),
        9 => Extra::Unborn,
        10 => Extra::NoHead,
        11 => Extra::GarbageLog,
        12 => Extra::EmptyLog,
        13 => Extra::NoLogs,
        14 => Extra::NoHeadLog,
        15 => Extra::Config(s.below(8) as u8),
        16 => Extra::Dangling,
        17 => Extra::Alternate,
        18 => Extra::Repack,
        _ => Extra::Readonly,
    }
}

pub struct ReadOnly;

impl Prop for ReadOnly {
    type Case = Untouched;
    type Ctx = Ctx;

    fn id(&self) -> &'static str {
        "P24"
    }
    fn rule(&self) -> &'static str {
        "a command succeeds, and another one fails, or the repository is out of the ordinary"
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            240_000
        } else {
            10_000
        }
    }
    fn ctx(&self, worker: usize) -> Ctx {
        Ctx::new(worker)
    }
    fn gen(&self, s: &mut Src) -> Untouched {
        let repo = revs::Revisions.gen(s);
        let extra = match s.weighted(&[1, 3]) {
            0 => vec![],
            _ => (0..s.usize(1, 4)).map(|_| extra(s)).collect(),
        };
        let place = match s.weighted(&[6, 1, 1, 2, 1]) {
            0 => Place::Top,
            1 => Place::Below,
            2 => Place::Git,
            3 => Place::Linked,
            _ => Place::Outside,
        };
        let mut cmds: Vec<Cmd> = (0..s.usize(0, 3))
            .map(|_| match s.weighted(&[8, 1]) {
                0 => Cmd::Recent(s.pick(&["", "--sort=visitdate", "--sort=committerdate", "--sort=authordate"])),
                _ => Cmd::Odd(s.pick(&[
                    &["git-at"][..],
                    &["git-at", "--help"],
                    &["git-at", "--version"],
                    &["git-at", "a", "b", "c"],
                    &["git-recent-refs", "--help"],
                    &["git-recent-refs", "--sort=size"],
                    &["git-recent-refs", "--sort"],
                    &["git-at", "HEAD@{yesterday}", ""],
                    &["git-at", "@{now}", ""],
                    &["git-at", "main@{1.day.ago}", ""],
                    &["git-at", "main@{2 weeks ago}~", ""],
                    &["git-at", ":main", ""],
                    &["git-at", ":0:other", ""],
                    &["git-at", "HEAD:other", ""],
                ])),
            })
            .collect();
        let mut repo = repo;
        let asks = repo.take_asks();
        for a in asks {
            let i = s.usize(0, cmds.len());
            cmds.insert(i, Cmd::At(a));
        }
        Untouched {
            repo,
            extra,
            place,
            cmds,
        }
    }
    fn check(&self, case: &Untouched, ctx: &mut Ctx, out: &mut Outcome) -> Check {
        let r = GitRepo::new(ctx, "g", false)?;
        let (ids, _) = case.repo.build(&r)?;
        let mut cwd = r.work.clone();
        match case.place {
            Place::Top => {}
            Place::Below => {
                cwd = r.work.join("sub");
                fs::create_dir_all(&cwd)?;
            }
            Place::Git => cwd = r.git.clone(),
            Place::Linked => {
                let (g, w) = refs::linked(&r)?;
                fs::copy(r.git.join("HEAD"), g.join("HEAD"))?;
                if r.git.join("logs/HEAD").exists() {
                    fs::create_dir_all(g.join("logs"))?;
                    fs::copy(r.git.join("logs/HEAD"), g.join("logs/HEAD"))?;
                }
                cwd = w;
            }
            Place::Outside => cwd = r.top.clone(),
        }
        for e in &case.extra {
            e.apply(&r, &ids)?;
            out.class(format!("{:?}", e).split('(').next().unwrap_or("").to_string());
        }
        out.class(format!("in {:?}", case.place));
        // What is not in the repository is the user's as well.
        sys::chown(&r.top, r.uid, sys::GID)?;
        r.own()?;
        out.executions = 0;
        let mut results: Vec<Done> = vec![];
        let mut good = false;
        let mut bad = false;
        for round in 0..2 {
            if round == 1 {
                read_only(&r.top)?;
            }
            let mut before = BTreeMap::new();
            snapshot(&r.top, &mut before)?;
            for (i, c) in case.cmds.iter().enumerate() {
                let argv: Vec<OsString> = match c {
                    Cmd::At(a) => a.argv(),
                    Cmd::Recent("") => vec![sys::bin("git-recent-refs").into()],
                    Cmd::Recent(x) => vec![sys::bin("git-recent-refs").into(), (*x).into()],
                    Cmd::Odd(v) => {
                        let mut a = vec![sys::bin(v[0]).into_os_string()];
                        a.extend(v[1..].iter().map(|x| x.into()));
                        a
                    }
                };
                let d = r.run_in(&argv, &cwd)?;
                out.executions += 1;
                let what = format!(
                    "{} {:?}{}",
                    Path::new(&argv[0]).file_name().unwrap_or_default().to_string_lossy(),
                    &argv[1..],
                    if round == 1 { " without permission to write" } else { "" }
                );
                let mut after = BTreeMap::new();
                snapshot(&r.top, &mut after)?;
                let diff = compare(&before, &after, &r.top);
                ensure!(diff.is_empty(), "{} ({:?}) has changed something: {}", what, d, diff.join(", "));
                match d.exit {
                    Exit::Code(0) => good = true,
                    Exit::Code(_) => bad = true,
                    _ => violation!("{} crashes: {:?}", what, d),
                }
                if round == 0 {
                    results.push(d);
                } else {
                    let w = &results[i];
                    ensure!(
                        d.exit == w.exit && d.out == w.out && d.err == w.err,
                        "{} behaves differently: {:?} instead of {:?}",
                        what,
                        d,
                        w
                    );
                }
            }
        }
        out.nontrivial = good && (bad || !case.extra.is_empty() || case.place != Place::Top);
        Ok(())
    }
}
